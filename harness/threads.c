/* threads.c: interprets one operation list per thread against the library, all threads at once.
 *
 * input (tokens):  ROOT NTHREADS SHARED BUFFERSIZE JITTER, then per thread NOPS and the operations.
 * output: one line "THREAD OP RC HASH" per operation. Data are small integers made from a seed, so that
 * they are exact in every type; what is read is reported as a hash of the integers. */
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "bigfile.h"

#define SLOTS 4
typedef struct { char op[16]; int slot; char name[600]; char dt[16]; long a, b, c; int nfs; size_t * fs; int rc; uint64_t hash; } Op;
typedef struct { int id, nops; Op * ops; BigFile own; BigBlock blk[SLOTS]; uint64_t rnd; } Thread;

static char root[4000];
static int shared, jitter;
static BigFile sharedfile;
static pthread_barrier_t barrier;

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static int64_t value(long seed, size_t i) { return (int64_t) (mix(((uint64_t) seed << 20) + i) % 1000); }

static void swap(char * p, int w) { int i; for(i = 0; i < w / 2; i ++) { char c = p[i]; p[i] = p[w - 1 - i]; p[w - 1 - i] = c; } }

static void put(char * p, const char * dt, int64_t v)
{
    int w = dt[2] - '0';
    if(dt[1] == 'f' && w == 8) { double x = v; memcpy(p, &x, 8); }
    else if(dt[1] == 'f') { float x = v; memcpy(p, &x, 4); }
    else if(w == 8) memcpy(p, &v, 8);
    else { int32_t x = v; memcpy(p, &x, 4); }
    if(dt[0] == '>') swap(p, w);
}

static int64_t get(const char * q, const char * dt)
{
    char p[8];
    int w = dt[2] - '0';
    memcpy(p, q, w);
    if(dt[0] == '>') swap(p, w);
    if(dt[1] == 'f' && w == 8) { double x; memcpy(&x, p, 8); return x; }
    if(dt[1] == 'f') { float x; memcpy(&x, p, 4); return x; }
    if(w == 8) { int64_t x; memcpy(&x, p, 8); return x; }
    int32_t x; memcpy(&x, p, 4); return x;
}

static void fill(char * buf, const char * dt, size_t n, long seed) { size_t i; for(i = 0; i < n; i ++) put(buf + i * (dt[2] - '0'), dt, value(seed, i)); }

static uint64_t hash(const char * buf, const char * dt, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    size_t i;
    for(i = 0; i < n; i ++) h = (h ^ (uint64_t) get(buf + i * (dt[2] - '0'), dt)) * 1099511628211ull;
    return h;
}

static int transfer(BigBlock * bb, Op * o, int writing, const char * dt)
{
    BigBlockPtr ptr;
    BigArray arr;
    size_t n = o->b * bb->nmemb, dims[2] = {o->b, bb->nmemb};
    char * buf = malloc(n * 16 + 1);
    memset(buf, 0, n * 16 + 1);
    if(writing) fill(buf, dt, n, o->c);
    int rc = big_array_init(&arr, buf, dt, 2, dims, NULL);
    if(rc == 0) rc = big_block_seek(bb, &ptr, o->a);
    if(rc == 0) rc = writing ? big_block_write(bb, &ptr, &arr) : big_block_read(bb, &ptr, &arr);
    if(rc == 0 && !writing && dt[1] != 'S') o->hash = hash(buf, dt, n);
    free(buf);
    return rc;
}

static void run(Thread * t, Op * o)
{
    BigFile * bf = shared ? &sharedfile : &t->own;
    BigBlock * bb = &t->blk[o->slot];
    const char * k = o->op;
    if(!strcmp(k, "create")) o->rc = big_file_create_block(bf, bb, o->name, o->dt, o->a, o->nfs, o->fs);
    else if(!strcmp(k, "open")) o->rc = big_file_open_block(bf, bb, o->name);
    else if(!strcmp(k, "size")) { o->hash = bb->size; o->rc = 0; }
    else if(!strcmp(k, "write")) o->rc = transfer(bb, o, 1, o->dt);
    else if(!strcmp(k, "read")) o->rc = transfer(bb, o, 0, o->dt);
    else if(!strcmp(k, "grow")) o->rc = big_block_grow(bb, o->nfs, o->fs);
    else if(!strcmp(k, "setattr")) {
        char * buf = malloc(o->a * 8 + 1);
        fill(buf, o->dt, o->a, o->c);
        o->rc = big_block_set_attr(bb, o->name, buf, o->dt, o->a);
        free(buf);
    } else if(!strcmp(k, "getattr")) {
        char * buf = malloc(o->a * 8 + 1);
        o->rc = big_block_get_attr(bb, o->name, buf, o->dt, o->a);
        if(o->rc == 0) o->hash = hash(buf, o->dt, o->a);
        free(buf);
    } else if(!strcmp(k, "nattr")) { size_t n; big_block_list_attrs(bb, &n); o->hash = n; o->rc = 0; }
    else if(!strcmp(k, "rmattr")) o->rc = big_block_remove_attr(bb, o->name);
    else if(!strcmp(k, "flush")) o->rc = big_block_flush(bb);
    else if(!strcmp(k, "close")) o->rc = big_block_close(bb);
    else if(!strcmp(k, "list")) {
        char ** names; int n, i;
        o->rc = big_file_list(bf, &names, &n);
        if(o->rc == 0) {
            for(i = 0; i < n; i ++) { if(!strcmp(names[i], o->name)) o->hash ++; free(names[i]); }
            free(names);
        }
    } else if(!strcmp(k, "badopen")) { BigBlock x = {0}; o->rc = big_file_open_block(bf, &x, o->name); }
    else if(!strcmp(k, "badfile")) { BigFile x = {0}; char p[5000]; snprintf(p, sizeof(p), "%s/%s", root, o->name); o->rc = big_file_open(&x, p); }
    else if(!strcmp(k, "badtype")) { BigBlock x = {0}; size_t fs[1] = {1}; o->rc = big_file_create_block(bf, &x, o->name, "<x4", 1, 1, fs); }
    else if(!strcmp(k, "badseek")) { BigBlockPtr p; o->rc = big_block_seek(bb, &p, o->a); }
    else if(!strcmp(k, "badread")) o->rc = transfer(bb, o, 0, o->dt);
    else if(!strcmp(k, "badwrite")) o->rc = transfer(bb, o, 1, o->dt);
    else if(!strcmp(k, "badattr")) { char x[8]; o->rc = big_block_get_attr(bb, o->name, x, "<i4", 1); }
    else if(!strcmp(k, "msg")) { big_file_set_error_message(o->name); o->rc = 0; }
    else if(!strcmp(k, "rename")) {
        char p[5000], q[5000];
        snprintf(p, sizeof(p), "%s/%s", root, o->name); snprintf(q, sizeof(q), "%s/%s-r", root, o->name);
        o->rc = rename(p, q);
    } else { fprintf(stderr, "unknown operation %s\n", k); exit(3); }
}

static void * body(void * arg)
{
    Thread * t = arg;
    int i;
    pthread_barrier_wait(&barrier);
    if(!shared && 0 != big_file_create(&t->own, root)) { fprintf(stderr, "create failed\n"); exit(3); }
    for(i = 0; i < t->nops; i ++) {
        if(!strcmp(t->ops[i].op, "barrier")) { pthread_barrier_wait(&barrier); continue; }
        t->rnd = mix(t->rnd);
        if(jitter == 1 && t->rnd % 4 == 0) sched_yield();
        if(jitter == 2 && t->rnd % 8 == 0) { struct timespec ts = {0, t->rnd % 100000}; nanosleep(&ts, NULL); }
        run(t, &t->ops[i]);
    }
    if(!shared) big_file_close(&t->own);
    return NULL;
}

int main(void)
{
    int n, i, j, f;
    long buffer;
    if(5 != scanf("%3999s %d %d %ld %d", root, &n, &shared, &buffer, &jitter)) return 3;
    Thread * t = calloc(n, sizeof(Thread));
    for(i = 0; i < n; i ++) {
        t[i].id = i;
        t[i].rnd = i + 1000;
        if(1 != scanf("%d", &t[i].nops)) return 3;
        t[i].ops = calloc(t[i].nops, sizeof(Op));
        for(j = 0; j < t[i].nops; j ++) {
            Op * o = &t[i].ops[j];
            if(8 != scanf("%15s %d %599s %15s %ld %ld %ld %d", o->op, &o->slot, o->name, o->dt, &o->a, &o->b, &o->c, &o->nfs)) return 3;
            o->fs = calloc(o->nfs + 1, sizeof(size_t));
            for(f = 0; f < o->nfs; f ++) if(1 != scanf("%zu", &o->fs[f])) return 3;
        }
    }
    if(buffer) big_file_set_buffer_size(buffer);
    if(shared && 0 != big_file_create(&sharedfile, root)) return 3;
    pthread_barrier_init(&barrier, NULL, n);
    pthread_t * th = calloc(n, sizeof(pthread_t));
    for(i = 0; i < n; i ++) pthread_create(&th[i], NULL, body, &t[i]);
    for(i = 0; i < n; i ++) pthread_join(th[i], NULL);
    for(i = 0; i < n; i ++) for(j = 0; j < t[i].nops; j ++)
        printf("%d %d %d %llu\n", i, j, t[i].ops[j].rc, (unsigned long long) t[i].ops[j].hash);
    const char * m = big_file_get_error_message();
    printf("message %zu\n", m ? strlen(m) : 0);
    if(shared) big_file_close(&sharedfile);
    return 0;
}
