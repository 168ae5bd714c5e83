/* Flat C API over the current headers, for ctypes: no struct layout is known to the Python side. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <errno.h>
#include "bigfile.h"

void * vf_malloc(size_t n) { return malloc(n); }
void vf_free(void * p) { free(p); }

int vf_set_buffer_size(size_t n) { return big_file_set_buffer_size(n); }
const char * vf_error(void) { return big_file_get_error_message(); }
void vf_set_error(char * m) { big_file_set_error_message(m); }

/* handles start zeroed, as the utilities do */
void * vf_file_new(void) { return calloc(1, sizeof(BigFile)); }
void * vf_block_new(void) { return calloc(1, sizeof(BigBlock)); }
void * vf_ptr_new(void) { return calloc(1, sizeof(BigBlockPtr)); }
void * vf_array_new(void) { return calloc(1, sizeof(BigArray)); }

int vf_file_open(BigFile * f, const char * n) { return big_file_open(f, n); }
int vf_file_create(BigFile * f, const char * n) { return big_file_create(f, n); }
int vf_file_close(BigFile * f) { return big_file_close(f); }
const char * vf_file_basename(BigFile * f) { return f->basename; }
int vf_file_list(BigFile * f, char *** l, int * n) { return big_file_list(f, l, n); }

int vf_block_open(BigFile * f, BigBlock * b, const char * n) { return big_file_open_block(f, b, n); }
int vf_block_create(BigFile * f, BigBlock * b, const char * n, const char * dt, int nmemb, int nf, const size_t * fs)
{ return big_file_create_block(f, b, n, dt, nmemb, nf, fs); }
int vf_block_close(BigBlock * b) { return big_block_close(b); }
int vf_block_flush(BigBlock * b) { return big_block_flush(b); }
int vf_block_grow(BigBlock * b, int nf, const size_t * fs) { return big_block_grow(b, nf, fs); }

const char * vf_block_dtype(BigBlock * b) { return b->dtype; }
int vf_block_nmemb(BigBlock * b) { return b->nmemb; }
size_t vf_block_size(BigBlock * b) { return b->size; }
int vf_block_nfile(BigBlock * b) { return b->Nfile; }
int vf_block_dirty(BigBlock * b) { return b->dirty; }
size_t vf_block_fsize(BigBlock * b, int i) { return b->fsize[i]; }
size_t vf_block_foffset(BigBlock * b, int i) { return b->foffset[i]; }
unsigned int vf_block_fchecksum(BigBlock * b, int i) { return b->fchecksum[i]; }
const char * vf_block_basename(BigBlock * b) { return b->basename; }
void vf_block_geom(BigBlock * b, size_t * fsize, unsigned int * cks)
{ int i; for(i = 0; i < b->Nfile; i ++) { fsize[i] = b->fsize[i]; cks[i] = b->fchecksum[i]; } }

int vf_seek(BigBlock * b, BigBlockPtr * p, ptrdiff_t o) { return big_block_seek(b, p, o); }
int vf_seek_rel(BigBlock * b, BigBlockPtr * p, ptrdiff_t o) { return big_block_seek_rel(b, p, o); }
int vf_eof(BigBlock * b, BigBlockPtr * p) { return big_block_eof(b, p); }
/* the row a position denotes */
ptrdiff_t vf_tell(BigBlock * b, BigBlockPtr * p)
{ return (b->foffset ? (ptrdiff_t) b->foffset[p->fileid] : 0) + p->roffset; }
int vf_ptr_fileid(BigBlockPtr * p) { return p->fileid; }
ptrdiff_t vf_ptr_aoffset(BigBlockPtr * p) { return p->aoffset; }
size_t vf_ptr_sizeof(void) { return sizeof(BigBlockPtr); }

int vf_array_init(BigArray * a, void * buf, const char * dt, int ndim, const size_t * dims, const ptrdiff_t * st)
{ return big_array_init(a, buf, dt, ndim, dims, st); }
void * vf_array_data(BigArray * a) { return a->data; }
size_t vf_array_size(BigArray * a) { return a->size; }
int vf_array_ndim(BigArray * a) { return a->ndim; }
ptrdiff_t vf_array_dim(BigArray * a, int i) { return a->dims[i]; }
ptrdiff_t vf_array_stride(BigArray * a, int i) { return a->strides[i]; }
const char * vf_array_dtype(BigArray * a) { return a->dtype; }
/* offsets of the elements in iteration order */
void vf_array_walk(BigArray * a, ptrdiff_t * out, size_t n)
{
    BigArrayIter it; size_t i;
    big_array_iter_init(&it, a);
    for(i = 0; i < n; i ++) { out[i] = (char *) it.dataptr - (char *) a->data; big_array_iter_advance(&it); }
}

int vf_read(BigBlock * b, BigBlockPtr * p, BigArray * a) { return big_block_read(b, p, a); }
int vf_write(BigBlock * b, BigBlockPtr * p, BigArray * a) { return big_block_write(b, p, a); }
int vf_read_simple(BigBlock * b, ptrdiff_t s, ptrdiff_t n, BigArray * a, const char * dt) { return big_block_read_simple(b, s, n, a, dt); }

int vf_set_attr(BigBlock * b, const char * n, const void * d, const char * dt, int nm) { return big_block_set_attr(b, n, d, dt, nm); }
int vf_get_attr(BigBlock * b, const char * n, void * d, const char * dt, int nm) { return big_block_get_attr(b, n, d, dt, nm); }
int vf_remove_attr(BigBlock * b, const char * n) { return big_block_remove_attr(b, n); }
BigAttr * vf_lookup_attr(BigBlock * b, const char * n) { return big_block_lookup_attr(b, n); }
size_t vf_nattr(BigBlock * b) { size_t c = 0; big_block_list_attrs(b, &c); return c; }
BigAttr * vf_attr_at(BigBlock * b, size_t i) { size_t c = 0; return big_block_list_attrs(b, &c) + i; }
const char * vf_attr_name(BigAttr * a) { return a->name; }
const char * vf_attr_dtype(BigAttr * a) { return a->dtype; }
int vf_attr_nmemb(BigAttr * a) { return a->nmemb; }
const char * vf_attr_data(BigAttr * a) { return a->data; }

int vf_dtype_itemsize(const char * d) { return big_file_dtype_itemsize(d); }
int vf_dtype_kind(const char * d) { return big_file_dtype_kind(d); }
void vf_dtype_format(char * b, const char * dt, const void * d, const char * f) { big_file_dtype_format(b, dt, d, f); }
int vf_dtype_parse(const char * b, const char * dt, void * d, const char * f) { return big_file_dtype_parse(b, dt, d, f); }

/* records */
void * vf_rec_new(void) { return calloc(1, sizeof(BigRecordType)); }
void vf_rec_clear(BigRecordType * r) { big_record_type_clear(r); }
void vf_rec_set(BigRecordType * r, int i, const char * n, const char * dt, int nm) { big_record_type_set(r, i, n, dt, nm); }
int vf_rec_add(BigRecordType * r, const char * n, const char * dt, int nm) { return big_record_type_add(r, n, dt, nm); }
void vf_rec_complete(BigRecordType * r) { big_record_type_complete(r); }
size_t vf_rec_itemsize(BigRecordType * r) { return r->itemsize; }
size_t vf_rec_nfield(BigRecordType * r) { return r->nfield; }
int vf_rec_offset(BigRecordType * r, int i) { return r->fields[i].offset; }
int vf_rec_elsize(BigRecordType * r, int i) { return r->fields[i].elsize; }
void vf_rec_put(BigRecordType * r, void * buf, ptrdiff_t i, int c, const void * d) { big_record_set(r, buf, i, c, d); }
void vf_rec_get(BigRecordType * r, const void * buf, ptrdiff_t i, int c, void * d) { big_record_get(r, buf, i, c, d); }
int vf_rec_view(BigRecordType * r, int i, BigArray * a, size_t n, void * buf) { return big_record_view_field(r, i, a, n, buf); }
int vf_rec_create(BigFile * f, BigRecordType * r, const char * mode, int nf, const size_t * fs) { return big_file_create_records(f, r, mode, nf, fs); }
int vf_rec_write(BigFile * f, BigRecordType * r, ptrdiff_t o, size_t n, const void * buf) { return big_file_write_records(f, r, o, n, buf); }
int vf_rec_read(BigFile * f, BigRecordType * r, ptrdiff_t o, size_t n, void * buf) { return big_file_read_records(f, r, o, n, buf); }
