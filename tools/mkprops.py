#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": list(obs), "hook_needed": hook}})
C = "src/bigfile.c"; M = "src/bigfile-mpi.c"; R = "src/bigfile-record.c"; U = "src/mp-mpiu.c"
PY = "bigfile/__init__.py"; PX = "bigfile/pyxbigfile.pyx"

prop("C01", "Rows written to a block are the rows read back",
 "For every block geometry (element type, members per row, any split of the rows over physical files including empty ones, any I/O buffer size) and every history of writes, reads, flushes, closes and reopens, through one or several handles of the block, a read of rows [a,b) returns for each row the value of the last write that covered it. A write changes no other row, and a read or write that succeeds leaves the position exactly after the last row it transferred, so consecutive transfers continue seamlessly across physical-file boundaries.",
 ["inputs", "histories", "configurations"],
 "all dtypes (1,2,4,8,16 byte, little and big endian, complex, byte strings), nmemb >= 1, 0..300 physical files of any sizes, all buffer sizes >= one row, every sequence of seek/write/read/read_simple/flush/reopen",
 "Tests write one whole block with the default 64 MB buffer into a handful of equal files and read it back; no test crosses a chunk boundary inside a physical file, uses uneven or empty physical files, or overwrites parts of a block.",
 [C, "src/bigfile.h"], [("chunked transfer loops", "big_block_read, big_block_write"), ("row to (file, offset) bisection", "big_block_seek"), ("relative seek after each chunk", "big_block_seek_rel")],
 [("foffset", "cumulative first row of each physical file", "BigBlock")], ["big_block_read", "big_block_read_simple"])

prop("C02", "The on-disk format is the documented one, in both directions",
 "Every block the library writes is a directory holding a plain-text header (DTYPE, NMEMB, NFILE and one `%06X: rows : sum : sysvsum' line per physical file), raw binary files named by upper-case six-digit hexadecimal index that hold exactly the rows of that file in the header's type and byte order, and an attr-v2 text file of `name dtype nmemb HEX' lines, so that an independent reader recovers the data and attributes bit for bit. Conversely, any directory an independent writer lays out by that description, in either byte order, with the per-file lines in any order, or with a legacy version-1 binary attribute file, is opened by the library with exactly that type, geometry, data and attributes.",
 ["inputs", "configurations"],
 "all types and byte orders, up to several hundred physical files, all attribute sets, both directions (library writes/independent reads and independent writes/library reads)",
 "The tests always use the library on both sides, so a symmetric change of the format (byte order, file naming, field order, complex layout) passes them all while making existing files unreadable.",
 [C, "README.rst"], [("header writer and parser", "big_block_flush, _big_block_open"), ("file naming", "_big_file_open_a_file"), ("attr-v2 writer and parser", "attrset_write_attr_set_v2, attrset_read_attr_set_v2"), ("legacy reader", "attrset_read_attr_set_v1"), ("type normalisation", "_dtype_normalize")])

prop("C03", "On-the-fly type and byte-order conversion is exact",
 "Reading or writing with an element type other than the stored one gives, element by element, the value C conversion between the two machine types gives, for every supported pair (any two distinct of i4,u4,i8,u8,f4,f8; b1 to any of those; c8 to and from c16; any numeric type to itself) and every combination of little and big endian on either side. Every other pair of types is refused with an error, and writing never modifies the caller's memory.",
 ["inputs"],
 "all pairs of types x byte orders x values (including boundary values, NaN, infinities, -0.0) x row counts that span several buffer chunks",
 "test_casts only reads '#f4' once and test_passby checks one type; the 60-odd conversion pairs in both byte orders are never enumerated, and no test compares bytes or checks the source buffer afterwards.",
 [C], [("conversion table", "cast (CAST/CAST2 macros)"), ("byte swapping", "byte_swap, _dtype_convert")], [], ["big_block_read", "big_block_write"])

prop("C04", "Strided arrays transfer exactly the elements they describe",
 "For every array of 1 to 32 dimensions with any strides (padded, transposed, negative, or zero strides when it is the source of a write), a write takes the elements in C index order and a read stores them in C index order. No byte outside the described elements is changed by a read, none is needed by a write, and the result equals that of the same transfer with a contiguous copy.",
 ["inputs"],
 "all shapes, strides and type conversions, transfers that split an array over several chunks and physical files",
 "Tests use contiguous or simply sliced numpy arrays of one or two dimensions that fit in a single chunk; the iterator's carry logic across dimensions and across chunks is never stressed.",
 [C], [("iterator", "big_array_iter_init, big_array_iter_advance"), ("contiguity shortcut", "cast"), ("array description", "big_array_init")])

prop("C05", "Out-of-range positions and transfers are refused without effect",
 "Seeking accepts exactly the positions 0..size, and -1..-size counted from the end; every other position, absolute or relative to the current one, is an error that leaves the position unchanged, and end-of-file is reported exactly at the end. A transfer that would run past the last row is an error that leaves data, files, header contents on disk, checksums and position unchanged, while the clipped read returns exactly the rows that exist and reports their number.",
 ["inputs", "histories"],
 "all offsets (including far beyond either end), all lengths, all block geometries including empty blocks and empty files at the start, middle and end",
 "Tests contain a handful of in-range accesses and almost no out-of-range ones; off-by-one errors at file boundaries, at the end of the block and for empty blocks are not sampled.",
 [C], [("range checks", "big_block_seek, big_block_read, big_block_write"), ("clipping", "big_block_read_simple"), ("eof test", "big_block_eof")])

prop("C06", "Attributes behave as a durable map",
 "For every history of setting, overwriting, removing, looking up, listing, flushing and reopening, the attributes of a block are exactly the last value set for each name that was not removed since: bit-identical, in the stored type, listed in name order, and the same before and after reopening. Reading an attribute never changes it, reading it as another supported type converts it, and a wrong member count, an unknown name, or a name with a blank is an error that changes nothing.",
 ["inputs", "histories"],
 "all names without blanks, all types in both byte orders, member counts from 0 to tens of thousands, tens of attributes, any order of operations",
 "Tests set a few attributes in one order and read each once; buffer growth, table growth beyond 16 entries, re-setting with other sizes, removal followed by reopen and repeated reads are not explored.",
 [C], [("sorted table with binary search", "attrset_lookup_attr, attrset_add_attr, attrset_remove_attr"), ("growable buffer with pointer relocation", "attrset_add_attr"), ("dirty flag and flush", "big_block_flush")],
 [("attrset.dirty", "whether attributes must be written at flush", "BigAttrSet")])

prop("C07", "Growing a block appends rows and disturbs nothing",
 "After any number of grows with any per-file sizes, interleaved with writes, attribute changes, flushes and reopens, every row that existed before keeps its value, its checksum and its physical file; the new rows are addressable at the end and can be written and read like all others. The new geometry is visible after the block is flushed and reopened, and attributes are unaffected.",
 ["histories", "inputs"],
 "all sequences of grow (0..20 files each, any sizes including 0) mixed with I/O and reopen, for the serial and the parallel library",
 "test_append grows twice by equal sizes; no test grows by uneven or empty files, checks old checksums, or interleaves attribute changes and reopen.",
 [C, M], [("geometry rebuild", "_big_block_grow_internal, big_block_grow"), ("parallel grow", "big_block_mpi_grow, big_block_mpi_grow_simple")])

prop("C08", "Recorded checksums are the checksums of the data",
 "For every block whose rows were each written at most once, in any order, pieces and number of sessions, serially, in parallel, or interleaved with growth and flushes, the sum recorded for each physical file is the sum of the bytes of that file modulo 2^32, and its folded value is what `sum -s' prints. bigfile-ls -l reports the folded sum over all files of the block, and bigfile-check accepts such blocks silently but reports every block in which bytes were changed so that the folded sum differs, and then exits nonzero.",
 ["histories", "configurations", "fault_sequences"],
 "all geometries, write orders, numbers of sessions and of ranks, all single corruptions that alter the folded sum",
 "No test looks at a checksum. Rewriting rows adds to the recorded sum by design (the near-immutable use case of the README), which the statement excludes.",
 [C, M, PX, "utils/bigfile-ls.c", "utils/bigfile-check"], [("running byte sum", "sysvsum"), ("fold on flush", "big_block_flush"), ("reduction over ranks", "big_block_mpi_flush, _MPI_flush"), ("verification", "bigfile-check")])

prop("C09", "Listing returns exactly the blocks of the tree",
 "For every directory tree of groups and blocks built through the library or by hand, listing a file returns each block exactly once, by its path relative to the listed root, and nothing else: no groups, no hidden entries, no plain files, no block's own contents. Every listed name opens, the Python listing is the same set sorted, creating a block changes the listing by exactly that block, and sub-file views list and open the same blocks under their prefix.",
 ["inputs", "histories"],
 "all trees of nested groups, block names of any legal characters and lengths, stray files and directories (including ones named header), creation through C or Python",
 "Tests list one or two top-level blocks; nesting, stray entries, long or unusual names and the agreement of the three listings are not examined.",
 [C, PX, PY, "utils/bigfile-ls.c"], [("recursive scan", "listbigfile_r, big_file_list"), ("block test", "_big_file_path_is_block"), ("directory creation", "_big_file_mksubdir_r"), ("python views", "File.blocks, File.subfile")])

prop("C10", "No I/O failure is silent",
 "If the operating system refuses to store or deliver bytes - device full or file-size limit reached at any byte of a data file, header or attribute file, a missing, truncated or unopenable physical file, an unwritable header, a write that fails only when the file is closed - then the operation that needed them, or the flush or close that should have made them durable, returns an error. Conversely, whenever every call of a history including the final close returned success, the files hold everything that was written, and a failed call neither crashes nor damages rows it did not address.",
 ["fault_sequences", "inputs"],
 "every byte position at which the storage limit can strike, every call of the operating system made (open, write, close, read, seek, mkdir), each of the files a block consists of, every operation of the API",
 "Tests run only on a healthy file system; no failure of write, close, open or seek is ever injected.",
 [C], [("return-code checks", "RAISEIF in big_block_write, big_block_read, big_block_flush, attrset_write_attr_set_v2"), ("unbuffered data files", "_big_file_open_a_file")])

prop("C11", "Malformed metadata is rejected cleanly",
 "For every content whatsoever of a block's header, attr-v2 or legacy attr file, opening the block returns in bounded time either with an error or with a consistent block: a valid type, non-negative counts, and attributes whose sizes match their types; a header that lacks its type, a count or the line of a file is refused. Neither the open nor any later listing, attribute access, read, flush or close of it crashes, reads or writes memory out of bounds, or hangs.",
 ["inputs"],
 "arbitrary bytes and grammar-aware mutations of valid metadata: truncation, missing or oversized fields, negative, huge or overflowing numbers, duplicated or unknown file indices, control and non-ASCII bytes",
 "No test opens a damaged file; the parsers' error branches never execute under the suite.",
 [C], [("header parser", "_big_block_open"), ("attribute parsers", "attrset_read_attr_set_v1, attrset_read_attr_set_v2"), ("type validation", "dtype_isvalid, _dtype_normalize")])

prop("C12", "Metadata torn by a crash is never misread",
 "If a crash leaves only a prefix (of any length) of a block's header or attribute file, a later open either fails with an error or shows exactly the type, member count, per-file row counts and per-file sums of the complete header, and attributes that are a subset of the complete ones with identical values. It never presents a wrong geometry or a wrong attribute value, and data files that are shorter than the header says are reported as errors when the missing rows are read, never filled in.",
 ["crash_points"],
 "every truncation point of header, attr-v2 and data files of generated blocks",
 "A crash point is never simulated by the tests.",
 [C], [("field-by-field scan", "_big_block_open"), ("length check", "attrset_read_attr_set_v2"), ("short read check", "big_block_read")])

prop("C13", "Parallel I/O has the same effect as serial I/O",
 "For every distribution of rows over any number of ranks (including ranks with none), every number of concurrent writers, every aggregation threshold, every start position, type conversion and memory stride, a collective write leaves on disk exactly what one serial write of the ranks' rows in rank order leaves. A collective read delivers to each rank exactly its rows, and both advance the position on every rank by the total.",
 ["configurations", "schedules", "inputs"],
 "1..8 ranks, all row distributions, concurrency 0..NTask+2, thresholds from 0 to huge, all geometries and element types",
 "bigfile-iosim covers four equal-sized configurations with one type; uneven, empty and strided ranks, offsets, thresholds between the extremes and their combination are not sampled.",
 [M, U], [("segmentation into writer groups", "_throttle_action, MPIU_Segmenter_init"), ("gather to the segment leader", "_aggregated")])

prop("C14", "Collective calls fail together and never hang",
 "If any rank's part of a collective open, create, grow, write, read or flush fails - on whichever rank, for whatever reason - the call returns on every rank, reports an error on every rank, and every rank can then obtain an error message describing the failure. If it succeeds on one rank it succeeded on all, and the communicator remains usable for further collective calls. A write or read that failed leaves the position where it was, so that it can be repeated.",
 ["fault_sequences", "configurations", "schedules"],
 "1..8 ranks, failures that strike the root, a single writer rank, or all ranks: missing, truncated or unwritable files, unsupported conversions, out-of-range positions, illegal names; any concurrency and aggregation threshold",
 "The suite contains no failing collective I/O; a missing broadcast of an error shows only as a hang or as ranks disagreeing in rare failure cases.",
 [M], [("error agreement", "big_file_mpi_broadcast_anyerror"), ("abort of remaining segments", "_throttle_action")])

prop("C15", "All ranks see the same block metadata, and it is what is on disk",
 "After every collective open, create, grow, flush or attribute change followed by flush, each rank's view of the block (type, members, per-file sizes, total size, all attributes) is identical, and equals what a fresh serial open of the files shows, where the checksums on disk are those of the data. Attributes set identically on all ranks, or on the root rank, are stored; file sizes requested through the total-size interfaces are split so that they add up to the total with a spread of at most one row.",
 ["histories", "configurations"],
 "1..8 ranks, all geometries (0..40 files), attribute sets of any size and type, any sequence of collective operations",
 "Tests check one attribute and one size after a collective create; the (de)serialisation of growing attribute sets and geometries is not exercised.",
 [M, C, PX], [("serialise and broadcast", "_big_block_pack, _big_block_unpack, big_block_mpi_broadcast"), ("even split", "big_file_mpi_create_block, big_block_mpi_grow_simple")])

prop("C16", "Records map field by field onto columns, in both directions",
 "For every record type (any fields, types, member counts and order), creating, appending, writing and reading records - serially or collectively - moves each field of each row to and from the column of that name exactly, in the layout of a packed C struct. Rows outside the addressed range, columns that are not fields and bytes of the record buffer outside its fields are untouched, and setting and getting single fields addresses exactly that field.",
 ["inputs", "histories"],
 "all record types of up to a dozen fields, all offsets and sizes, serial and 1..6 ranks, create and append modes, stored column types that differ from the field types",
 "test_dataset uses two fields of fixed types, whole-range access, and no parallel records.",
 [R, M], [("field layout", "big_record_type_set, big_record_type_complete"), ("field view", "big_record_view_field"), ("per-field transfer", "big_file_write_records, big_file_read_records, big_file_mpi_*_records")])

prop("C17", "Python Column indexing has numpy semantics",
 "For every column and every contiguous slice, integer in range (also negative), or Ellipsis, indexing returns what indexing a numpy array of the same contents returns (same dtype, shape and values), and assigning an array of matching length stores it so that it reads back identically; arrays of other lengths, integers out of range, non-contiguous steps and other index types raise and change nothing. create, create_from_array (for every memory limit of at least one row and any number of files), append and read/write at an offset produce exactly the contents of the arrays given, for every numeric dtype, byte order, sub-array shape and memory layout.",
 ["inputs", "histories"],
 "all sizes including 0, slices with negative, reversed, missing and out-of-range bounds, dtypes of kind b,i,u,f,c,S with item size up to 16, both byte orders, non-contiguous and negative-stride sources, Nfile 0..20",
 "test_slicing samples a handful of in-range slices of one column; empty and reversed slices, big-endian and strided sources, tiny memory limits and repeated appends are absent.",
 [PY, PX], [("slice resolution", "Column.__getitem__, Column.__setitem__, _enhance_slicefunc"), ("chunked creation", "File.create_from_array"), ("buffer description", "ColumnLowLevelAPI.read/write/append")])

prop("C18", "Python attributes round-trip",
 "For every attribute name and every numeric scalar, array, or string value, assigning it and reading it back - at once, after later changes to other attributes, or after reopening - yields an equal value of the same dtype (arrays flattened, text as text), any number of times. keys, iteration and membership reflect exactly the attributes present, deletion removes one durably, and object values, lists of strings longer than 99999 bytes, blank names and missing keys raise and change nothing.",
 ["inputs", "histories"],
 "all names without blanks, numeric dtypes in both byte orders, unicode strings, lists of byte strings, any sequence of set/delete/reopen on blocks and on the file's own header attributes",
 "test_attr and test_string each set a few fixed values once.",
 [PX, C], [("conversion", "AttrSet.__setitem__, AttrSet.__getitem__"), ("mapping protocol", "AttrSet.keys, __contains__, __delitem__")])

prop("C19", "Python Dataset is the row-wise view of its columns",
 "For every set of equally long columns, indexing a Dataset by slice, integer, Ellipsis, column name, list of names, or a pair of rows and columns returns exactly what a numpy structured array assembled from the columns returns, and assignment and append write exactly the corresponding rows of each column. Columns of different length are refused, and columns that are not selected are not modified.",
 ["inputs", "histories"],
 "all column sets (up to a dozen; any dtypes and sub-array shapes), all index forms with all bounds, any order of reads, writes and appends",
 "test_dataset fixes two columns and a few in-range accesses.",
 [PY, PX, R], [("index dispatch", "Dataset.__getitem__, _getslice, __setitem__"), ("record type from dtype", "pyxbigfile.Dataset.__init__")])

prop("C20", "Pickled files and columns work like the originals",
 "For every open File or Column, in any state reached by creation, writes, growth and attribute changes, the unpickled copy - in the same or another process - has the same name, size, dtype, number of files and attributes, and reads the same rows; writes through the copy land in the same block. Pickling and unpickling leave the original and the files unchanged, and a pickled File lists and opens the same blocks.",
 ["histories", "inputs"],
 "all geometries (0..40 files), attribute sets of any size, unflushed state, files with and without cached listing, copies of copies",
 "test_pickle pickles one small column with at most one attribute.",
 [PX, C, PY], [("serialisation", "__getstate__/__setstate__, _big_block_pack, _big_block_unpack")])

prop("C21", "Type strings and text formatting are consistent",
 "For every value of a formattable type (i4,u4,i8,u8,f4,f8,c8,c16,b1 in either byte order), formatting gives the text C printf gives for it and parsing that text back as any of these types but b1 that can hold the value gives it again (integers exactly, floating point to the printed precision; not for infinite imaginary parts) in the requested byte order; text that does not begin with a number (two for complex types) and types that cannot be parsed are reported as errors. A type string means the same with '=', '|', or no byte-order prefix, its width and kind are those numpy gives it, and a type is accepted at creation exactly if the resulting block can be opened again.",
 ["inputs"],
 "all values, all type strings of up to 7 characters, all formats applicable to the type",
 "No test calls the formatter or parser; type strings are sampled by three or four examples.",
 [C], [("format and parse tables", "big_file_dtype_format, big_file_dtype_parse"), ("normalisation and validation", "_dtype_normalize, dtype_isvalid, big_file_dtype_itemsize, big_file_dtype_kind")])

prop("C22", "Command-line data tools neither lose, alter nor invent rows",
 "bigfile-create stores exactly the whole rows on its input; bigfile-cat prints exactly the requested rows, in binary or text, for every offset, count and buffer size; bigfile-copy and bigfile-copy-mpi make an equal block (type, rows, attributes) for every number of files and buffer size; bigfile-repartition changes only the number of physical files, and leaves a block as it was when it fails; bigfile-rename and bigfile-rm move and delete exactly the named blocks. No tool modifies its source, and each exits nonzero when it could not do what was asked.",
 ["inputs", "configurations"],
 "all geometries and types, offsets, counts and buffer sizes of at least one row, file counts 1..20, 2..5 ranks, missing or damaged sources",
 "The tools have no tests.",
 ["utils/bigfile-create.c", "utils/bigfile-cat.c", "utils/bigfile-copy.c", "utils/bigfile-copy-mpi.c", "utils/bigfile-repartition", "utils/bigfile-rename", "utils/bigfile-rm"],
 [("chunk loops", "main of each tool"), ("work distribution", "server/slave in bigfile-copy-mpi.c")])

prop("C23", "Command-line metadata tools show and change exactly the metadata",
 "bigfile-set-attr stores exactly the given values in the given (or, for an existing attribute, the stored) type and changes nothing else; bigfile-get-attr prints every attribute, or the requested ones, with their values; bigfile-ls prints every block of a file once, and in long form its true type, members, rows, checksum and file count. Values that do not parse, counts that do not match, unknown types and missing blocks make the tool exit nonzero and leave the attributes unchanged.",
 ["inputs", "histories"],
 "all attribute names and types, any number of values, all block trees",
 "The tools have no tests.",
 ["utils/bigfile-set-attr.c", "utils/bigfile-get-attr.c", "utils/bigfile-ls.c"], [("argument handling", "main of each tool"), ("attribute printing", "print_attr"), ("recursive listing", "listbigfile_r")])

prop("C24", "Python under MPI has the semantics of the serial binding",
 "For every number of ranks and every distribution of rows (including none) over them, FileMPI and ColumnMPI create, open, create_from_array, write, read, append-free flush and close leave the same data, attributes and checksums on disk as the serial binding with the concatenated rows. Every rank then sees the same blocks, sizes, dtypes and attributes, and inconsistent names, missing files or missing blocks raise on every rank without hanging.",
 ["configurations", "inputs", "fault_sequences"],
 "1..6 ranks, all dtypes and row shapes, Nfile 0..12, small memory limits, failing opens and creates",
 "test_mpi_* use four ranks, equal sizes and one or two dtypes.",
 [PY, PX], [("collective create and open", "ColumnMPI.create, ColumnMPI.open, FileMPI"), ("collective flush", "_MPI_flush, _MPI_broadcast")])

prop("C25", "MPI exchange helpers deliver exactly what was sent",
 "For every matrix of per-pair counts and every element size, the all-to-all exchange delivers to each rank the same bytes whether its sparse, dense or automatic algorithm runs, with explicit or computed displacements, and reports the required receive size when asked; gather and scatter with per-rank counts preserve rank order and contents and report totals, and scatter inverts gather. The located rank of a minimum or maximum is the lowest rank holding it, and the segmenter assigns every rank with data to exactly one segment and group, in rank order, covering all data, with at most the requested number of groups and one leader each.",
 ["inputs", "configurations", "schedules"],
 "1..8 ranks, all count matrices including zeros, all element sizes, all policies, all size vectors, segment sizes and group counts",
 "No test calls these helpers directly; the sparse exchange, gather and scatter are not executed by the suite at all.",
 [U, "src/mp-mpiu.h"], [("exchange", "MPIU_Alltoallv, MPI_Alltoallv_sparse"), ("gather and scatter", "MPIU_Gather, MPIU_Scatter"), ("segments", "MPIU_Segmenter_init, _MPIU_Segmenter_assign_colors"), ("location", "MPIU_GetLoc")])

prop("C26", "Errors are reported safely whatever the names involved",
 "Every failing call returns nonzero and leaves a readable message about this failure, which names the path that could not be opened, created, read or written, the block a transfer runs beyond, the types of a conversion that is not supported, and the attribute that cannot be removed, for every path and name including long ones and ones with percent signs or non-ASCII bytes; it neither crashes nor corrupts memory, and it leaves the library usable so that correct calls afterwards succeed. Messages set by the application are returned unchanged, and names of any length and bytes the file system accepts work for blocks and attributes.",
 ["inputs", "histories"],
 "all names the operating system accepts (up to 255 bytes per component, paths up to PATH_MAX, percent signs, quotes, UTF-8), every failing call of the API",
 "test_mpi_badfilenames tries one missing file; format characters and long paths in failing calls never occur.",
 [C, M, "src/bigfile-internal.h"], [("message construction", "_big_file_raise, big_file_set_error_message"), ("path construction", "_path_join, _strdup")])

prop("C27", "Blocks used from different threads do not disturb each other",
 "When several threads each work on their own handles - creating, writing, reading, growing and setting attributes on distinct blocks of one file, or reading one block through separate handles - every operation succeeds and every block ends with exactly the contents its own thread's history gives it, as in any sequential execution. Errors raised in some threads never crash the process or make another thread's correct operation fail.",
 ["schedules", "histories"],
 "2..8 threads, all histories per thread, some with failing operations",
 "test_threads runs one fixed read pattern; schedules and mixed histories cannot be enumerated by it.",
 [C], [("atomic exchange of the error message", "big_file_set_error_message"), ("no shared state besides buffer size", "BigBlock, BigBlockPtr")])

prop("C28", "Subsampling selects rows faithfully and reproducibly",
 "bigfile-sample-mpi produces a block of the same type, members and attributes whose rows are an order-preserving subsequence of the source rows; with ratio 1 it is an exact copy. The selection does not depend on the number of ranks or of physical files, and the source is not modified.",
 ["inputs", "configurations"],
 "all geometries and types, ratios in (0,1], 2..6 ranks, 1..9 output files",
 "The tool has no tests.",
 ["utils/bigfile-sample-mpi.c"], [("seeded selection per chunk", "server, slave, filesize")])

prop("C29", "The I/O simulator writes exactly its pattern and notices when it is not there",
 "bigfile-iosim create makes the block TestBlock of 64 bit integers with the requested rows, members and number of files, every member of row i holding i; update rewrites an existing block with that pattern without changing its type or layout; grow appends the requested rows and files, which continue the pattern, and leaves the rows there were as they are; read changes nothing and succeeds exactly if the block holds the pattern. The result does not depend on the number of ranks or writers or on aggregation; nothing else in the file or beside it changes, whatever the name of the file; purging removes the block only; and a failure, or a command line it does not understand, is reported by a non-zero exit status on all ranks without hanging.",
 ["inputs", "configurations", "histories", "faults"],
 "1..5 ranks, any number of writers, files, rows and members >= 1, all sequences of the modes, existing blocks of other numerical types, damaged or missing blocks and files",
 "The tool has no tests.",
 ["utils/bigfile-iosim.c", "src/bigfile-mpi.c"], [("staggered distribution of the rows over the ranks", "iosim: start, localsize"), ("modes", "iosim: create, update, read, grow")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
