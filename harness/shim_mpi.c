#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include "bigfile-mpi.h"
#include "mp-mpiu.h"

int vm_file_open(BigFile * f, const char * n, MPI_Comm c) { return big_file_mpi_open(f, n, c); }
int vm_file_create(BigFile * f, const char * n, MPI_Comm c) { return big_file_mpi_create(f, n, c); }
int vm_file_close(BigFile * f, MPI_Comm c) { return big_file_mpi_close(f, c); }
int vm_block_open(BigFile * f, BigBlock * b, const char * n, MPI_Comm c) { return big_file_mpi_open_block(f, b, n, c); }
int vm_block_create(BigFile * f, BigBlock * b, const char * n, const char * dt, int nm, int nf, size_t size, MPI_Comm c)
{ return big_file_mpi_create_block(f, b, n, dt, nm, nf, size, c); }
int vm_block_create_fs(BigFile * f, BigBlock * b, const char * n, const char * dt, int nm, int nf, const size_t * fs, MPI_Comm c)
{ return _big_file_mpi_create_block(f, b, n, dt, nm, nf, fs, c); }
int vm_block_close(BigBlock * b, MPI_Comm c) { return big_block_mpi_close(b, c); }
int vm_block_flush(BigBlock * b, MPI_Comm c) { return big_block_mpi_flush(b, c); }
int vm_block_grow(BigBlock * b, int nf, const size_t * fs, MPI_Comm c) { return big_block_mpi_grow(b, nf, fs, c); }
int vm_block_grow_simple(BigBlock * b, int nf, size_t s, MPI_Comm c) { return big_block_mpi_grow_simple(b, nf, s, c); }
void vm_set_threshold(size_t n) { big_file_mpi_set_aggregated_threshold(n); }
size_t vm_get_threshold(void) { return big_file_mpi_get_aggregated_threshold(); }
int vm_write(BigBlock * b, BigBlockPtr * p, BigArray * a, int conc, MPI_Comm c) { return big_block_mpi_write(b, p, a, conc, c); }
int vm_read(BigBlock * b, BigBlockPtr * p, BigArray * a, int conc, MPI_Comm c) { return big_block_mpi_read(b, p, a, conc, c); }
int vm_rec_create(BigFile * f, BigRecordType * r, const char * mode, int nf, const size_t * fs, MPI_Comm c)
{ return big_file_mpi_create_records(f, r, mode, nf, fs, c); }
int vm_rec_write(BigFile * f, BigRecordType * r, ptrdiff_t o, size_t n, const void * buf, int conc, MPI_Comm c)
{ return big_file_mpi_write_records(f, r, o, n, buf, conc, c); }
int vm_rec_read(BigFile * f, BigRecordType * r, ptrdiff_t o, size_t n, void * buf, int conc, MPI_Comm c)
{ return big_file_mpi_read_records(f, r, o, n, buf, conc, c); }

/* exchange helpers; elsize-byte elements */
/* an element of size bytes at an offset in an extent */
static MPI_Datatype element(size_t size, int off, int pad)
{
    MPI_Datatype a, t;
    MPI_Aint d = off;
    int n = size;
    if(!off && !pad) {
        MPI_Type_contiguous(size, MPI_BYTE, &t);
    } else {
        MPI_Type_create_hindexed(1, &n, &d, MPI_BYTE, &a);
        MPI_Type_create_resized(a, 0, off + size + pad, &t);
        MPI_Type_free(&a);
    }
    MPI_Type_commit(&t);
    return t;
}
int vm_alltoallv(void * sb, int * sc, int * sd, size_t ses, void * rb, int * rc, int * rd, size_t res, MPI_Comm c, int policy, int soff, int spad, int roff, int rpad)
{
    MPI_Datatype st = element(ses, soff, spad), rt = element(res, roff, rpad);
    int r = MPIU_Alltoallv(sb, sc, sd, st, rb, rc, rd, rt, c, policy);
    MPI_Type_free(&st); MPI_Type_free(&rt);
    return r;
}
void * vm_gather(MPI_Comm c, int root, const void * s, void * r, int n, size_t es, int * tot) { return MPIU_Gather(c, root, s, r, n, es, tot); }
void * vm_scatter(MPI_Comm c, int root, const void * s, void * r, int n, size_t es, int * tot) { return MPIU_Scatter(c, root, s, r, n, es, tot); }
void vm_mpiu_free(void * p) { MPIU_Free(p); }
int vm_getloc(const void * base, int type, int op, MPI_Comm c)
{
    MPI_Datatype t = type == 0 ? MPI_LONG : type == 1 ? MPI_INT : type == 2 ? MPI_DOUBLE : type == 3 ? MPI_UNSIGNED_CHAR : MPI_FLOAT;
    return MPIU_GetLoc(base, t, op ? MPI_MAX : MPI_MIN, c);
}
size_t vm_collect(size_t local, size_t * sizes, size_t * off, MPI_Comm c) { return MPIU_Segmenter_collect_sizes(local, sizes, off, c); }
/* out: Ngroup Nsegments GroupID ThisSegment seg_start seg_end is_leader group_leader segment_leader
 *      group_rank group_size segment_rank segment_size leaders_size */
void vm_segment(size_t * sizes, size_t * sizes2, size_t avg, int ngroup, MPI_Comm c, long * out)
{
    MPIU_Segmenter s[1];
    int a;
    memset(s, 0, sizeof(s));
    MPIU_Segmenter_init(s, sizes, sizes2, avg, ngroup, c);
    out[0] = s->Ngroup; out[1] = s->Nsegments; out[2] = s->GroupID; out[3] = s->ThisSegment;
    out[4] = s->segment_start; out[5] = s->segment_end; out[6] = s->is_group_leader;
    out[7] = s->group_leader_rank; out[8] = s->segment_leader_rank;
    MPI_Comm_rank(s->Group, &a); out[9] = a; MPI_Comm_size(s->Group, &a); out[10] = a;
    MPI_Comm_rank(s->Segment, &a); out[11] = a; MPI_Comm_size(s->Segment, &a); out[12] = a;
    MPI_Comm_size(s->Leaders, &a); out[13] = a;
    MPIU_Segmenter_destroy(s);
}
