// Lock-step node: drives the C interface (libpolyglot.so, built from the
// current tree) on behalf of the simulator. Every run is served by a freshly
// forked process. All heap memory of the library comes from the allocator
// below: each block has its own pages with an inaccessible page behind it, a
// released block becomes inaccessible for good, and every release is checked.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <time.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "polyglot.h"

#define PAGE 4096UL
#define SPACE (64UL << 30)
#define NPAGES (SPACE / PAGE)

typedef struct { size_t size; size_t npages; unsigned char *p; unsigned char lib, state; } block;
static unsigned char *base;
static block *blocks; // by first page
static size_t nextpage;
static __thread int inlib;
static unsigned long total, live_n, live_bytes;
static __thread const char *curfn = "?";

static size_t slen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static void say(const char *s) { (void)!write(2, s, slen(s)); }
__attribute__((noreturn)) static void broken(const char *s) { say("memory error in "); say(curfn); say(": "); say(s); say("\n"); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(9); }
__attribute__((noreturn)) static void harness(const char *s) { say("HARNESS: "); say(s); say("\n"); _exit(9); }

// Callers on threads of their own, of which exactly one runs at a time: at
// every allocation and release, and between calls, a seeded choice decides who
// goes on.
static pthread_mutex_t sm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t sc[8] = {PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER};
static __thread int me = -1;
static int turn = -1;
static unsigned alive, switches;
static unsigned long rng, rate, left, points, shash;

static unsigned long draw(void)
{
    unsigned long z = rng += 0x9e3779b97f4a7c15UL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
    return z ^ (z >> 31);
}
static int pick(void)
{
    int n = __builtin_popcount(alive);
    if (!n) return -1;
    int k = draw() % n;
    for (int i = 0; i < 8; i++) if (alive >> i & 1 && k-- == 0) return i;
    return -1;
}
static unsigned long run, waits; // points since the last switch, waits since the last point
static int other(void)
{
    unsigned all = alive;
    alive &= ~(1u << me);
    int k = pick();
    alive = all;
    return k < 0 ? me : k;
}
static void pass(int next)
{
    switches++; run = 0;
    shash = (shash ^ points ^ (unsigned long)next << 56) * 0x100000001b3UL;
    turn = next;
    pthread_cond_signal(&sc[next]);
    while (turn != me) pthread_cond_wait(&sc[me], &sm);
}
static void point(void)
{
    if (me < 0) return;
    pthread_mutex_lock(&sm);
    // it was blocked, and others went on in the meantime
    while (turn != me) pthread_cond_wait(&sc[me], &sm);
    points++; waits = 0;
    if (++run > 20000) { // one that goes round and round may be waiting for another
        int next = other();
        if (next != me) pass(next); else run = 0;
    } else if (left && draw() % rate == 0) {
        int next = pick();
        if (next != me) { left--; pass(next); } else run = 0;
    }
    pthread_mutex_unlock(&sm);
}
// between the statements of the code under test
void verif_point(void) { point(); }
// a caller that can go on only when another one has done something
static void others(void)
{
    pthread_mutex_lock(&sm);
    while (turn != me) pthread_cond_wait(&sc[me], &sm);
    if (++waits > 100000) { say("the callers block each other for ever\n"); _exit(3); }
    int next = other();
    if (next != me) pass(next);
    pthread_mutex_unlock(&sm);
}
static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long r = n;
    __asm__ volatile("syscall" : "+a"(r) : "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
// The seam for waiting: locks, conditions and parking of Rust's standard
// library wait through here.
long sim_syscall(long, long, long, long, long, long, long) __asm__("syscall");
long sim_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    if (n == 202 && ((b & 127) == 0 || (b & 127) == 9) && me >= 0) {
        volatile unsigned *w = (volatile unsigned *)a;
        if (*w != (unsigned)c) { errno = EAGAIN; return -1; }
        others();
        if (d && *w == (unsigned)c) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) { if (me >= 0) others(); else raw(24, 0, 0, 0, 0, 0, 0); return 0; }
int clock_nanosleep(clockid_t k, int flags, const struct timespec *t, struct timespec *rem)
{
    if (me >= 0) { others(); return 0; }
    return -raw(230, k, flags, (long)t, (long)rem, 0, 0);
}
int nanosleep(const struct timespec *t, struct timespec *rem) { int r = clock_nanosleep(1, 0, t, rem); if (r) { errno = r; return -1; } return 0; }

static void init(void)
{
    base = mmap(0, SPACE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = mmap(0, NPAGES * sizeof(block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || blocks == MAP_FAILED) harness("mmap");
    nextpage = 1;
}

static void *get(size_t size, size_t align)
{
    if (!base) init();
    point();
    if (align < 16) align = 16;
    if (size > (3UL << 30) || align > PAGE) { errno = ENOMEM; return 0; }
    size_t room = (size + align - 1) & ~(align - 1);
    if (room == 0) room = align;
    size_t np = (room + PAGE - 1) / PAGE;
    if (nextpage + np + 2 >= NPAGES) { errno = ENOMEM; return 0; }
    size_t first = nextpage;
    nextpage += np + 1;
    unsigned char *pg = base + first * PAGE;
    if (mprotect(pg, np * PAGE, PROT_READ | PROT_WRITE)) { errno = ENOMEM; return 0; }
    unsigned char *p = pg + np * PAGE - room;
    block *b = &blocks[first];
    b->size = size; b->npages = np; b->p = p; b->lib = inlib; b->state = 1;
    // what uninitialised memory holds is not zero; bytes around the block are guarded
    memset(p, 0xcb, room);
    size_t before = p - pg; if (before > 64) before = 64;
    memset(p - before, 0xfd, before);
    memset(p + size, 0xfd, room - size);
    total += size;
    if (inlib) { live_n++; live_bytes += size; }
    return p;
}

static block *find(void *p)
{
    unsigned char *q = p;
    if (!base || q < base || q >= base + SPACE) return 0;
    size_t i = (q - base) / PAGE;
    block *b = &blocks[i];
    if (b->state && b->p == q) return b;
    return 0;
}

static void guards(block *b)
{
    unsigned char *pg = (unsigned char *)((size_t)b->p & ~(PAGE - 1));
    size_t before = b->p - pg; if (before > 64) before = 64;
    for (size_t i = 1; i <= before; i++) if (b->p[-(long)i] != 0xfd) broken("bytes before a block were overwritten");
    unsigned char *end = pg + b->npages * PAGE;
    for (unsigned char *q = b->p + b->size; q < end; q++) if (*q != 0xfd) broken("bytes behind a block were overwritten");
}

void *malloc(size_t n) { return get(n, 16); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = get(n, 16); if (p) memset(p, 0, n); return p; }
void *aligned_alloc(size_t al, size_t n) { return get(n, al); }
void *memalign(size_t al, size_t n) { return get(n, al); }
int posix_memalign(void **out, size_t al, size_t n) { void *p = get(n, al); if (!p) return ENOMEM; *out = p; return 0; }
void free(void *p)
{
    if (!p) return;
    point();
    block *b = find(p);
    if (!b) broken("release of a pointer that is no block");
    if (b->state == 2) broken("second release of a block");
    guards(b);
    b->state = 2;
    if (b->lib) { live_n--; live_bytes -= b->size; }
    unsigned char *pg = (unsigned char *)((size_t)p & ~(PAGE - 1));
    if (mprotect(pg, b->npages * PAGE, PROT_NONE)) harness("mprotect");
    madvise(pg, b->npages * PAGE, MADV_DONTNEED);
}
void *realloc(void *p, size_t n)
{
    if (!p) return get(n, 16);
    block *b = find(p);
    if (!b || b->state != 1) broken("resize of a pointer that is no live block");
    void *q = get(n, 16);
    if (!q) return 0;
    size_t k = b->size < n ? b->size : n;
    memcpy(q, p, k);
    total -= k;
    free(p);
    return q;
}

static void check_all(void)
{
    for (size_t i = 1; i < nextpage; i += blocks[i].npages + 1)
        if (blocks[i].state == 1) guards(&blocks[i]);
}

static void onsig(int s)
{
    say(s == SIGSEGV || s == SIGBUS ? "bad memory access in " : s == SIGABRT ? "abort in " : "illegal instruction in ");
    say(curfn); say("\n");
    signal(s, SIG_DFL);
    raise(s);
}

// ------------------------------------------------------------ the protocol

static unsigned char *inbuf;
static __thread unsigned char *outbuf, *ip, *iend;
static size_t incap;
static __thread size_t outlen, outcap;
static void *map(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) harness("mmap"); return p; }
static void put(const void *p, size_t n) { if (outlen + n > outcap) harness("answer too long"); memcpy(outbuf + outlen, p, n); outlen += n; }
static void p8(unsigned x) { unsigned char c = x; put(&c, 1); }
static void p32(unsigned x) { put(&x, 4); }
static void p64(unsigned long x) { put(&x, 8); }
static void pblob(const void *p, size_t n) { p32(n); put(p, n); }
static void ptext(const char *s) { pblob(s, slen(s)); }
static void need(size_t n) { if ((size_t)(iend - ip) < n) harness("short command"); }
static unsigned g8(void) { need(1); return *ip++; }
static unsigned g16(void) { unsigned short x; need(2); memcpy(&x, ip, 2); ip += 2; return x; }
static unsigned g32(void) { unsigned x; need(4); memcpy(&x, ip, 4); ip += 4; return x; }
static unsigned long g64(void) { unsigned long x; need(8); memcpy(&x, ip, 8); ip += 8; return x; }
static unsigned char *gblob(unsigned *n) { *n = g32(); need(*n); unsigned char *p = ip; ip += *n; return p; }

static polyglot_encoder_t *encs[65536];
static polyglot_decoder_t *decs[65536];
static unsigned char *inputs[65536];
static unsigned inlens[65536];
typedef struct { void *p; int kind; unsigned char *copy; unsigned long n; } object;
static object objs[65536];

// status cell with guarded neighbours
static __thread unsigned char cell[3];
#define ST (cell[0] = 0x5a, cell[2] = 0xa5, cell[1] = sentinel, (polyglot_status_t *)(cell + 1))
static __thread unsigned char sentinel = 0x77;
static __thread const char *note;
#define CALL(name, expr) do { curfn = #name; inlib = 1; expr; inlib = 0; if (cell[0] != 0x5a || cell[2] != 0xa5) note = "bytes next to the status were written"; } while (0)

// a caller's memory: exactly as long as it says
static unsigned char *mine(const void *p, size_t n)
{
    unsigned char *q = get(n, 16);
    if (!q) harness("memory");
    if (n) memcpy(q, p, n);
    return q;
}

static unsigned char *text0(const unsigned char *p, size_t n)
{
    unsigned char *q = get(n + 1, 16);
    if (n) memcpy(q, p, n);
    q[n] = 0;
    return q;
}

static float f32of(unsigned long n) { unsigned u = n; float f; memcpy(&f, &u, 4); return f; }
static double f64of(unsigned long n) { double f; memcpy(&f, &n, 8); return f; }

static void encode(polyglot_encoder_t *e, unsigned k, unsigned key, unsigned sub, unsigned long n, unsigned char *b, unsigned bn, int nullarg)
{
    unsigned char *q = 0;
    unsigned mn = bn;
    if (!nullarg && (k == 4 || k == 5 || k == 6)) {
        q = k == 4 ? mine(b, bn) : text0(b, bn);
        if (k != 4) mn++;
    }
    switch (k) {
    case 0: CALL(polyglot_encode_none, polyglot_encode_none(ST, e)); break;
    case 1: CALL(polyglot_encode_array, polyglot_encode_array(ST, e, n, sub)); break;
    case 2: CALL(polyglot_encode_map, polyglot_encode_map(ST, e, n, key, sub)); break;
    case 4: CALL(polyglot_encode_bytes, polyglot_encode_bytes(ST, e, q, bn)); break;
    case 5: CALL(polyglot_encode_string, polyglot_encode_string(ST, e, (char *)q)); break;
    case 6: CALL(polyglot_encode_error, polyglot_encode_error(ST, e, (char *)q)); break;
    case 7: CALL(polyglot_encode_bool, polyglot_encode_bool(ST, e, n != 0)); break;
    case 8: CALL(polyglot_encode_u8, polyglot_encode_u8(ST, e, n)); break;
    case 9: CALL(polyglot_encode_u16, polyglot_encode_u16(ST, e, n)); break;
    case 10: CALL(polyglot_encode_u32, polyglot_encode_u32(ST, e, n)); break;
    case 11: CALL(polyglot_encode_u64, polyglot_encode_u64(ST, e, n)); break;
    case 12: CALL(polyglot_encode_i32, polyglot_encode_i32(ST, e, (int)n)); break;
    case 13: CALL(polyglot_encode_i64, polyglot_encode_i64(ST, e, (long)n)); break;
    case 14: CALL(polyglot_encode_f32, polyglot_encode_f32(ST, e, f32of(n))); break;
    case 15: CALL(polyglot_encode_f64, polyglot_encode_f64(ST, e, f64of(n))); break;
    default: harness("kind");
    }
    if (q) {
        if (memcmp(q, b, bn) || (k != 4 && q[bn])) note = "the caller's data was modified";
        memset(q, 0xee, mn); // the caller goes on using its memory
        free(q);
    }
}

// decode performs one read; text and blob results stay allocated in *obj
static unsigned long decode(polyglot_decoder_t *d, unsigned k, unsigned key, unsigned sub, object *o)
{
    unsigned long n = 0;
    o->p = 0; o->kind = 0; o->copy = 0; o->n = 0;
    switch (k) {
    case 0: CALL(polyglot_decode_none, n = polyglot_decode_none(ST, d)); break;
    case 1: CALL(polyglot_decode_array, n = polyglot_decode_array(ST, d, sub)); break;
    case 2: CALL(polyglot_decode_map, n = polyglot_decode_map(ST, d, key, sub)); break;
    case 4: CALL(polyglot_decode_bytes, o->p = polyglot_decode_bytes(ST, d)); o->kind = 4; break;
    case 5: CALL(polyglot_decode_string, o->p = polyglot_decode_string(ST, d)); o->kind = 5; break;
    case 6: CALL(polyglot_decode_error, o->p = polyglot_decode_error(ST, d)); o->kind = 6; break;
    case 7: CALL(polyglot_decode_bool, n = polyglot_decode_bool(ST, d)); break;
    case 8: CALL(polyglot_decode_u8, n = polyglot_decode_u8(ST, d)); break;
    case 9: CALL(polyglot_decode_u16, n = polyglot_decode_u16(ST, d)); break;
    case 10: CALL(polyglot_decode_u32, n = polyglot_decode_u32(ST, d)); break;
    case 11: CALL(polyglot_decode_u64, n = polyglot_decode_u64(ST, d)); break;
    case 12: CALL(polyglot_decode_i32, n = (long)polyglot_decode_i32(ST, d)); break;
    case 13: CALL(polyglot_decode_i64, n = polyglot_decode_i64(ST, d)); break;
    case 14: { float f = 0; unsigned u; CALL(polyglot_decode_f32, f = polyglot_decode_f32(ST, d)); memcpy(&u, &f, 4); n = u; break; }
    case 15: { double f = 0; CALL(polyglot_decode_f64, f = polyglot_decode_f64(ST, d)); memcpy(&n, &f, 8); break; }
    default: harness("kind");
    }
    return n;
}

static const unsigned char *content(object *o, unsigned long *n)
{
    curfn = "reading a returned object";
    if (o->kind == 4) {
        polyglot_buffer_t *b = o->p;
        *n = b->length;
        if (b->length && !b->data) { note = "a returned buffer has length but no data"; *n = 0; }
        return b->data;
    }
    *n = slen(o->p);
    return o->p;
}

static void snapshot(object *o)
{
    unsigned long n;
    const unsigned char *p = content(o, &n);
    o->n = n;
    o->copy = map(n + 1);
    // reading every byte proves they are there
    for (unsigned long i = 0; i < n; i++) o->copy[i] = p[i];
}

static int unchanged(object *o)
{
    unsigned long n;
    const unsigned char *p = content(o, &n);
    if (n != o->n) return 0;
    for (unsigned long i = 0; i < n; i++) if (p[i] != o->copy[i]) return 0;
    return 1;
}

static void release(object *o, int how)
{
    if (how == 4) CALL(polyglot_free_decode_bytes, polyglot_free_decode_bytes(o ? o->p : 0));
    else if (how == 5) CALL(polyglot_free_decode_string, polyglot_free_decode_string(o ? o->p : 0));
    else CALL(polyglot_free_decode_error, polyglot_free_decode_error(o ? o->p : 0));
    if (o) { if (o->copy) munmap(o->copy, o->n + 1); o->p = 0; o->copy = 0; }
}

static void fail1(const char *s) { p8(1); ptext(s); }
static void crash2(const char *s) { p8(2); ptext(s); }
static const char *badstatus(int k) { return k == 1 ? "fail" : k == 2 ? "null pointer" : "status not set"; }

static void ccall(void)
{
    unsigned fn = g8(), h = g16(), aux = g16(), key = g8(), sub = g8();
    unsigned long n = g64();
    unsigned size = g32(), nullarg = g8(), bn;
    unsigned char *b = gblob(&bn);
    unsigned long ret = 0;
    int obj = 0;
    unsigned char *ob = 0;
    size_t on = 0;
    note = 0;
    sentinel = (n * 31 + fn) | 0x40; // never a status
    cell[0] = 0x5a; cell[2] = 0xa5; cell[1] = sentinel;
    polyglot_encoder_t *e = h ? encs[h] : 0;
    polyglot_decoder_t *d = h ? decs[h] : 0;
    if (fn == 0) {
        CALL(polyglot_new_encoder, encs[h] = polyglot_new_encoder(ST)); obj = encs[h] != 0;
    } else if (fn == 1) {
        CALL(polyglot_encoder_size, ret = polyglot_encoder_size(ST, e));
    } else if (fn == 2) {
        unsigned char *q = 0;
        if (!nullarg) { q = get(size, 16); memset(q, 0xa6, size); }
        CALL(polyglot_encoder_buffer, polyglot_encoder_buffer(ST, e, q, size));
        if (q) { ob = map(size + 1); memcpy(ob, q, size); on = size; free(q); }
    } else if (fn == 3) {
        CALL(polyglot_free_encoder, polyglot_free_encoder(e)); if (h) encs[h] = 0;
    } else if (fn >= 10 && fn < 26) {
        encode(e, fn - 10, key, sub, n, b, bn, nullarg);
    } else if (fn == 30) {
        unsigned char *q = nullarg ? 0 : mine(b, bn);
        CALL(polyglot_new_decoder, decs[h] = polyglot_new_decoder(ST, q, bn)); obj = decs[h] != 0;
        if (q) {
            if (memcmp(q, b, bn)) note = "the input was modified";
            if (decs[h] && !n) { inputs[h] = q; inlens[h] = bn; } else { memset(q, 0xee, bn); free(q); }
        }
    } else if (fn == 31) {
        CALL(polyglot_free_decoder, polyglot_free_decoder(d));
        if (h) {
            decs[h] = 0;
            if (inputs[h]) { memset(inputs[h], 0xee, inlens[h]); free(inputs[h]); inputs[h] = 0; }
        }
    } else if (fn >= 40 && fn < 56) {
        object o;
        ret = decode(d, fn - 40, key, sub, &o);
        if (o.p) {
            if (aux == 0 || objs[aux].p) harness("object slot");
            snapshot(&o);
            objs[aux] = o;
            obj = 1;
            // the answer carries the content
            p8(0); p8(cell[1] == sentinel ? 255 : cell[1]); p64(ret); p8(1); pblob(o.copy, o.n); ptext(note ? note : "");
            return;
        }
    } else if (fn >= 60 && fn < 63) {
        if (aux && !objs[aux].p) harness("release of no object");
        release(aux ? &objs[aux] : 0, fn - 56);
    } else if (fn == 70) {
        ret = unchanged(&objs[aux]);
    } else if (fn == 71) {
        check_all();
        ret = live_n;
    } else
        harness("C function");
    p8(0); p8(cell[1] == sentinel ? 255 : cell[1]); p64(ret); p8(obj); pblob(ob, on); ptext(note ? note : "");
    if (ob) munmap(ob, on + 1);
}

typedef struct { int id; unsigned char *in, *end, *out; size_t len; } caller;

static void answer(polyglot_decoder_t *d)
{
    unsigned k = g8(), key = g8(), sub = g8();
    object o;
    note = 0;
    unsigned long n = decode(d, k, key, sub, &o), bn = 0;
    const unsigned char *b = 0;
    int st = cell[1];
    point();
    if (o.p && st == 0) b = content(&o, &bn);
    if (note) crash2(note);
    else if (st == 0x77) crash2("status not set");
    else if (st == 0 && o.kind && !o.p) crash2("success without an object");
    else if (st) fail1(badstatus(st));
    else if (k == 0 && n == 0) fail1("not none");
    else { p8(0); p64(k == 0 ? 0 : n); pblob(b, bn); }
    point();
    if (o.p) release(&o, o.kind);
}

static void reads(const unsigned char *b, unsigned bn)
{
    unsigned char *q = mine(b, bn);
    polyglot_decoder_t *d;
    CALL(polyglot_new_decoder, d = polyglot_new_decoder(ST, q, bn));
    if (!d || cell[1]) harness("no decoder");
    for (unsigned k = g16(); k > 0; k--) { point(); answer(d); }
    CALL(polyglot_free_decoder, polyglot_free_decoder(d));
    free(q);
}

static int tids[8];
static pthread_cond_t sdone = PTHREAD_COND_INITIALIZER;

static int sleeping(int tid)
{
    char path[64], b[512];
    char *q = path + 64;
    *--q = 0;
    const char *e = "/stat";
    for (int i = 4; i >= 0; i--) *--q = e[i];
    while (tid) { *--q = '0' + tid % 10; tid /= 10; }
    const char *a = "/proc/self/task/";
    for (int i = slen(a) - 1; i >= 0; i--) *--q = a[i];
    int fd = open(q, O_RDONLY);
    if (fd < 0) return 0;
    ssize_t n = read(fd, b, sizeof b);
    close(fd);
    for (ssize_t i = n - 1; i > 0; i--) if (b[i] == ')') return i + 2 < n && b[i + 2] == 'S';
    return 0;
}

// waits until all callers are done; a caller that waits for something another
// one holds loses its turn
static void supervise(void)
{
    unsigned long seen = -1; int who = -1, idle = 0;
    pthread_mutex_lock(&sm);
    while (alive) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 20000000;
        if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
        if (pthread_cond_timedwait(&sdone, &sm, &t) != ETIMEDOUT) continue;
        if (turn < 0 || seen != points || who != turn || !sleeping(tids[turn])) { seen = points; who = turn; idle = 0; continue; }
        if (++idle > 500) { say("the callers block each other for ever\n"); _exit(3); }
        if (idle >= 2 && __builtin_popcount(alive) > 1) {
            int k = turn;
            do k = (k + 1) % 8; while (!(alive >> k & 1));
            turn = who = k;
            pthread_cond_signal(&sc[k]);
        }
    }
    pthread_mutex_unlock(&sm);
}

static void *callermain(void *arg)
{
    caller *c = arg;
    ip = c->in; iend = c->end;
    outbuf = c->out; outlen = 0; outcap = 64UL << 20;
    sentinel = 0x77;
    pthread_mutex_lock(&sm);
    tids[c->id] = gettid();
    while (turn != c->id) pthread_cond_wait(&sc[c->id], &sm);
    pthread_mutex_unlock(&sm);
    me = c->id;
    polyglot_encoder_t *e;
    g32(); // capacity: not a caller's choice in C
    CALL(polyglot_new_encoder, e = polyglot_new_encoder(ST));
    if (!e || cell[1]) harness("no encoder");
    for (unsigned k = g16(); k > 0; k--) {
        unsigned op = g8(), bn, n = 0;
        point();
        CALL(polyglot_encoder_size, n = polyglot_encoder_size(ST, e));
        if (op == 0) {
            unsigned kind = g8(), key = g8(), sub = g8(); unsigned long x = g64();
            unsigned char *b = gblob(&bn);
            g8();
            note = 0;
            encode(e, kind, key, sub, x, b, bn, 0);
            if (note) crash2(note); else if (cell[1]) fail1(badstatus(cell[1])); else p8(0);
        } else if (op == 1) {
            unsigned char *q = mine("", 0);
            free(q);
            q = get(n ? n : 1, 16);
            CALL(polyglot_encoder_buffer, polyglot_encoder_buffer(ST, e, q, n));
            if (cell[1]) { crash2("buffer: no success status"); }
            reads(q, n);
            free(q);
        } else if (op == 2) {
            unsigned char *b = gblob(&bn);
            // the wants follow
            reads(b, bn);
            g8();
        } else {
            CALL(polyglot_free_encoder, polyglot_free_encoder(e));
            CALL(polyglot_new_encoder, e = polyglot_new_encoder(ST));
            if (!e || cell[1]) harness("no encoder");
        }
        CALL(polyglot_encoder_size, n = polyglot_encoder_size(ST, e));
        unsigned char *q = get(n ? n : 1, 16);
        if (!q) harness("memory");
        CALL(polyglot_encoder_buffer, polyglot_encoder_buffer(ST, e, q, n));
        if (cell[1]) crash2("buffer: no success status");
        pblob(q, n);
        free(q);
    }
    CALL(polyglot_free_encoder, polyglot_free_encoder(e));
    me = -1;
    c->len = outlen;
    pthread_mutex_lock(&sm);
    alive &= ~(1u << c->id);
    if (turn == c->id) {
        turn = pick();
        if (turn >= 0) pthread_cond_signal(&sc[turn]);
    }
    if (!alive) pthread_cond_signal(&sdone);
    pthread_mutex_unlock(&sm);
    return 0;
}

static void threads(void)
{
    static caller cs[8];
    pthread_t ts[8];
    rng = g64(); rate = g32(); left = g32();
    if (!rate) rate = 1;
    int n = g8();
    if (n > 8) harness("callers");
    alive = (1u << n) - 1; switches = 0; points = run = waits = 0; shash = 14695981039346656037UL; turn = -1;
    for (int i = 0; i < n; i++) {
        unsigned k;
        unsigned char *b = gblob(&k);
        cs[i] = (caller){i, b, b + k, map(64UL << 20), 0};
        if (pthread_create(&ts[i], 0, callermain, &cs[i])) harness("thread");
    }
    pthread_mutex_lock(&sm);
    turn = pick();
    pthread_cond_signal(&sc[turn]);
    pthread_mutex_unlock(&sm);
    supervise();
    for (int i = 0; i < n; i++) pthread_join(ts[i], 0);
    check_all();
    p8(0); p32(switches); p64(shash);
    for (int i = 0; i < n; i++) { pblob(cs[i].out, cs[i].len); munmap(cs[i].out, 64UL << 20); }
}

static void readall(void *p, size_t n)
{
    unsigned char *q = p;
    while (n) {
        ssize_t k = read(0, q, n);
        if (k <= 0) _exit(7);
        q += k; n -= k;
    }
}

static void serve(void)
{
    unsigned long base_total = 0;
    for (;;) {
        unsigned len;
        readall(&len, 4);
        if (len > incap) harness("command too long");
        readall(inbuf, len);
        ip = inbuf; iend = inbuf + len; outlen = 4;
        int bye = 0;
        while (ip < iend) {
            unsigned c = g8();
            note = 0;
            sentinel = 0x77;
            switch (c) {
            case 1: check_all(); p8(0); bye = 1; break;
            case 2: {
                unsigned h = g16(); g8(); g32();
                CALL(polyglot_new_encoder, encs[h] = polyglot_new_encoder(ST));
                if (!encs[h] || cell[1] != 0) fail1("no encoder"); else p8(0);
                break;
            }
            case 3: {
                unsigned h = g16(), k = g8(), key = g8(), sub = g8(), bn; unsigned long n = g64();
                unsigned char *b = gblob(&bn);
                encode(encs[h], k, key, sub, n, b, bn, 0);
                if (note) crash2(note); else if (cell[1]) fail1(badstatus(cell[1])); else p8(0);
                break;
            }
            case 4: {
                unsigned h = g16(), n = 0;
                CALL(polyglot_encoder_size, n = polyglot_encoder_size(ST, encs[h]));
                if (cell[1]) { crash2("size: no success status"); break; }
                unsigned char *q = get(n ? n : 1, 16);
                if (!q) harness("memory");
                CALL(polyglot_encoder_buffer, polyglot_encoder_buffer(ST, encs[h], q, n));
                if (cell[1]) { crash2("buffer: no success status"); free(q); break; }
                p8(0); pblob(q, n);
                free(q);
                break;
            }
            case 5: { unsigned h = g16(); CALL(polyglot_free_encoder, polyglot_free_encoder(encs[h])); encs[h] = 0; p8(0); break; }
            case 6: {
                unsigned h = g16(), bn;
                unsigned char *b = gblob(&bn), *q = mine(b, bn);
                CALL(polyglot_new_decoder, decs[h] = polyglot_new_decoder(ST, q, bn));
                inputs[h] = q; inlens[h] = bn;
                if (!decs[h] || cell[1] != 0) fail1("no decoder"); else p8(0);
                break;
            }
            case 7: {
                unsigned h = g16(), k = g8(), key = g8(), sub = g8();
                object o;
                unsigned long n = decode(decs[h], k, key, sub, &o), bn = 0;
                const unsigned char *b = 0;
                int st = cell[1];
                if (o.p && st == 0) b = content(&o, &bn);
                if (note) crash2(note);
                else if (st == 0x77) crash2("status not set");
                else if (st == 0 && o.kind && !o.p) crash2("success without an object");
                else if (st) fail1(badstatus(st));
                else if (k == 0 && n == 0) fail1("not none");
                else { p8(0); p64(k == 0 ? 0 : n); pblob(b, bn); }
                if (o.p) release(&o, o.kind);
                break;
            }
            case 8: {
                unsigned h = g16();
                CALL(polyglot_free_decoder, polyglot_free_decoder(decs[h])); decs[h] = 0;
                free(inputs[h]); inputs[h] = 0;
                p8(0);
                break;
            }
            case 9: base_total = total; p8(0); break;
            case 10: p8(0); p64(total - base_total); break;
            case 11: threads(); break;
            case 20: ccall(); break;
            default: harness("command");
            }
        }
        unsigned n = outlen - 4;
        memcpy(outbuf, &n, 4);
        for (size_t i = 0; i < outlen;) {
            ssize_t k = write(1, outbuf + i, outlen - i);
            if (k <= 0) _exit(7);
            i += k;
        }
        if (bye) _exit(0);
    }
}

int main(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    incap = outcap = 1UL << 30;
    inbuf = map(incap);
    outbuf = map(outcap);
    // what the library allocates once per process is not a leak
    {
        polyglot_status_t st;
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        polyglot_encode_string(&st, e, (char *)"x");
        polyglot_encode_error(&st, e, (char *)"x");
        polyglot_free_encoder(e);
        unsigned char in[4] = {5, 10, 1, 'x'};
        polyglot_decoder_t *d = polyglot_new_decoder(&st, in, 4);
        polyglot_free_decode_string(polyglot_decode_string(&st, d));
        polyglot_decode_u8(&st, d);
        polyglot_free_decoder(d);
    }
    int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE};
    for (;;) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (int i = 0; i < 5; i++) signal(sigs[i], onsig);
            serve();
            _exit(1);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) { raise(WTERMSIG(st)); _exit(9); }
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    }
}
