/* libFuzzer target: finds contents of the metadata files that reach new code in the library.
 * What it collects is decided by bfv/ex/c11.py, not here; this only walks the same accessors.
 *
 * input: one byte that chooses the file and the operations, then the content of the file */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "bigfile.h"

static char root[4096];

static void
put(const char * name, const void * data, size_t size)
{
    char path[4200];
    snprintf(path, sizeof path, "%s/b/%s", root, name);
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || write(fd, data, size) != (ssize_t) size) _exit(3);
    close(fd);
}

static void
drop(const char * name)
{
    char path[4200];
    snprintf(path, sizeof path, "%s/b/%s", root, name);
    unlink(path);
}

int
LLVMFuzzerInitialize(int * argc, char *** argv)
{
    const char * d = getenv("BFV_FUZZ_DIR");
    if(d == NULL) _exit(3);
    snprintf(root, sizeof root, "%s", d);
    char path[4200];
    snprintf(path, sizeof path, "%s/b", root);
    mkdir(root, 0755);
    mkdir(path, 0755);
    big_file_set_buffer_size(1 << 16);
    return 0;
}

int
LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static const char header[] = "DTYPE: <i4\nNMEMB: 1\nNFILE: 2\n000000: 10 : 0 : 0\n000001: 10 : 0 : 0\n";
    static const char attr2[] = "a <i4 2 3132333435363738\n";
    static int wrote = 7;
    if(size < 1 || size > 4096) return -1;
    int which = data[0] % 3, ops = data[0] / 3 % 8;
    data ++;
    size --;
    /* what the last run has changed comes back */
    if(wrote & 1) put("header", header, sizeof header - 1);
    if(wrote & 2) put("attr-v2", attr2, sizeof attr2 - 1);
    if(wrote & 4) drop("attr");
    if(wrote & 8) { char z[40] = {0}; put("000000", z, 40); put("000001", z, 40); }
    wrote = 1 << which;
    put(which == 0 ? "header" : which == 1 ? "attr-v2" : "attr", data, size);
    if(ops & 1) wrote |= 2;

    BigFile bf = {0};
    BigBlock bb = {0};
    if(0 != big_file_open(&bf, root)) _exit(3);
    if(0 == big_file_open_block(&bf, &bb, "b")) {
        size_t n, i;
        BigAttr * list = big_block_list_attrs(&bb, &n);
        volatile unsigned char sink = 0;
        for(i = 0; i < n; i ++) {
            size_t w = big_file_dtype_itemsize(list[i].dtype) * (size_t) list[i].nmemb, k;
            for(k = 0; k < w; k ++) sink += list[i].data[k];
            if(w < 1 << 20) {
                char * out = malloc(w + 1);
                big_block_get_attr(&bb, list[i].name, out, list[i].dtype, list[i].nmemb);
                free(out);
                out = malloc((size_t) list[i].nmemb * 8 + 1);
                big_block_get_attr(&bb, list[i].name, out, "<f8", list[i].nmemb);
                free(out);
            }
        }
        for(i = 0; i < 3; i ++) {
            BigArray a = {0};
            ptrdiff_t at = i == 0 ? 0 : i == 1 ? 9 : (ptrdiff_t) bb.size;
            if((size_t) bb.nmemb * big_file_dtype_itemsize(bb.dtype) < 1 << 20 && 0 == big_block_read_simple(&bb, at, 3, &a, NULL)) free(a.data);
        }
        BigBlockPtr ptr = {0};
        if(0 == big_block_seek(&bb, &ptr, bb.size / 2)) big_block_eof(&bb, &ptr);
        if(ops & 1) {
            int64_t v = 1;
            if((ops & 2) && n) {
                char * name = strdup(list[0].name);
                big_block_remove_attr(&bb, name);
                free(name);
            }
            big_block_set_attr(&bb, "zz~new", &v, "<i8", 1);
            if(ops & 4) big_block_flush(&bb);
        }
        big_block_close(&bb);
    }
    big_file_close(&bf);
    return 0;
}
