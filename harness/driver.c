/*
 * Conformance driver: carries out a script of calls on the library and writes
 * one JSON line per call (name, arguments, results, what was observed about the
 * caller's memory).  It decides nothing; spec/Trace*.tla decides.
 *
 * usage: driver SCRIPT TRACE [SCRIPT TRACE]...     (one thread per pair)
 *
 * Buffers handed to the library lie in mappings of their own, surrounded by canary
 * bytes.  With VF_GUARD=1 they lie directly next to an inaccessible page instead,
 * inputs are read-only, and a message is made inaccessible when ts_init_sign has
 * returned.
 *
 * Built with -DSCHED, and the library with -fsanitize-coverage=trace-pc, the threads
 * run one at a time and hand over at basic blocks of the library chosen by VF_SCHED
 * (a seed): the same seed gives the same schedule.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "tiny_sphincs.h"
#ifdef USE_INTERNAL
#include <stddef.h>
#include "internal.h"
/* shapes of our own are made by changing k, t, h, d of a standard set: only if there is nothing else to adapt */
_Static_assert(offsetof(struct ts_parameter_set, prf_msg) == 8 &&
               sizeof(struct ts_parameter_set) == offsetof(struct ts_parameter_set, compute_prehash) + sizeof(void (*)(void)) &&
               offsetof(struct ts_parameter_set, compute_prehash) == offsetof(struct ts_parameter_set, prf_msg) + 7 * sizeof(void (*)(void)),
               "parameter set layout");
#endif

#ifdef USE_INTERNAL
/* Shapes with extreme node values and digests: see SpikeNode and SpikeDigest in Sphincs.tla */
static const struct ts_parameter_set **spike_base(const struct ts_parameter_set *q) {
    static const struct ts_parameter_set *base[2][33];
    return &base[q->sha2 != 0][q->n];
}
static void spike_final(unsigned char *out, union t_iterator *t, const struct ts_context *ctx) {
    unsigned n = ctx->ps->n;
    (*spike_base(ctx->ps))->final_t(out, t, ctx);
    if (out[0] < 80) memset(out, out[0] < 32 ? 0 : out[0] < 64 ? 255 : 15, n);
}
static void spike_digest(unsigned char *out, size_t len, const unsigned char *r, const unsigned char *m, size_t mlen, struct ts_context *ctx) {
    const struct ts_parameter_set *q = ctx->ps;
    size_t part[3] = { (q->k * q->t + 7) / 8, (q->h - q->merkle_h + 7) / 8, (q->merkle_h + 7) / 8 };
    (*spike_base(q))->hash_msg(out, len, r, m, mlen, ctx);
    for (unsigned i = 0, b = out[0]; i < 3; i++, b /= 3) {
        if (part[i] > len) part[i] = len;
        if (b % 3) memset(out, b % 3 == 1 ? 0 : 255, part[i]);
        out += part[i];
        len -= part[i];
    }
}
#endif
#define PAGE 4096ul
#define NCTX 40
#define NHASH 40
#define NBUF 1000
#define NPS 160

/* ---------------------------------------------------------------- memory */
struct region { unsigned char *map; size_t maplen; unsigned char *p; size_t len; unsigned char *lo; size_t inner; };

static void flush_all(void);
static void die(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
    flush_all();
    _exit(3);
}
static int guard;
static __thread unsigned misalign;
static __thread void *hint;                       /* where the next mapping should lie, if possible */
/* len bytes ending (front = 0) or starting (front = 1) next to a guard page; without
 * guarding, len bytes at some alignment with canaries around.  front = 2: aligned  */
static struct region r_alloc(size_t len, int front) {
    struct region r;
    size_t in = (len + PAGE - 1) / PAGE * PAGE;
    if (in == 0) in = PAGE;
    if (!guard) in += 2 * PAGE;
    r.maplen = in + 2 * PAGE;
    r.map = MAP_FAILED;
    if (hint) r.map = mmap(hint, r.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r.map == MAP_FAILED) r.map = mmap(0, r.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r.map == MAP_FAILED) die("mmap: %s", strerror(errno));
    if (mprotect(r.map + PAGE, in, PROT_READ | PROT_WRITE)) die("mprotect");
    r.lo = r.map + PAGE;
    r.inner = in;
    if (hint) r.p = guard ? r.lo : r.lo + PAGE;
    else if (guard) r.p = front == 1 ? r.lo : r.lo + in - len;
    else r.p = r.lo + PAGE + (front == 2 ? 0 : (misalign += 7) % 16);
    r.len = len;
    return r;
}
static void r_prot(struct region *r, int prot) { if (guard && r->map && mprotect(r->lo, r->inner, prot)) die("mprotect"); }
static void r_free(struct region *r) { if (r->map) munmap(r->map, r->maplen); r->map = 0; r->p = 0; }

/* -------------------------------------------------------- hex, messages */
static int nib(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : (die("bad hex %c", c), 0); }
/* length of the byte string written as hex with "(ab*123)" groups; "-" is empty */
static size_t text_len(const char *s) {
    size_t n = 0;
    if (!strcmp(s, "-") || !strcmp(s, "null")) return 0;
    while (*s) {
        if (*s == '(') {
            const char *m = strchr(s, '*');
            n += (size_t)(m - s - 1) / 2 * strtoull(m + 1, 0, 10);
            s = strchr(m, ')') + 1;
        } else n++, s += 2;
    }
    return n;
}
static void text_bytes(unsigned char *o, const char *s) {
    if (!strcmp(s, "-") || !strcmp(s, "null")) return;
    while (*s) {
        if (*s == '(') {
            const char *m = strchr(s, '*');
            size_t u = (size_t)(m - s - 1) / 2;
            unsigned long long c = strtoull(m + 1, 0, 10);
            unsigned char unit[256];
            for (size_t i = 0; i < u; i++) unit[i] = nib(s[1 + 2 * i]) << 4 | nib(s[2 + 2 * i]);
            if (u == 1) { memset(o, unit[0], c); o += c; }
            else while (c--) { memcpy(o, unit, u); o += u; }
            s = strchr(m, ')') + 1;
        } else { *o++ = nib(s[0]) << 4 | nib(s[1]); s += 2; }
    }
}
#define BIG ((size_t)1 << 28)
/* np bytes followed by n bytes of one value: a file of one value, mapped over and over */
static struct region r_huge(const unsigned char *pre, size_t np, int value, size_t n) {
    struct region r;
    size_t unit = (size_t)1 << 26;
    int fd = memfd_create("big", 0);
    if (fd < 0 || ftruncate(fd, unit)) die("memfd");
    unsigned char *w = mmap(0, unit, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    memset(w, value, unit);
    munmap(w, unit);
    r.inner = (np + n + unit - 1) / unit * unit;
    r.maplen = r.inner + 2 * PAGE;
    r.map = mmap(0, r.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r.map == MAP_FAILED) die("mmap big");
    r.lo = r.map + PAGE;
    for (size_t o = 0; o < r.inner; o += unit)
        if (mmap(r.lo + o, unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_NORESERVE | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap big part");
    close(fd);
    r.len = np + n;
    r.p = r.lo + r.inner - r.len;
    memcpy(r.p, pre, np);
    if (mprotect(r.lo, r.inner, PROT_READ)) die("mprotect big");
    return r;
}
/* A read-only copy of a text; a huge one is a single group "(00*N)" */
static struct region r_text(const char *s, int front) {
    size_t n = text_len(s);
    if (n >= BIG) {
        const char *m = strchr(s, '*');
        if (s[0] != '(' || m != s + 3 || strchr(m, ')')[1]) die("huge text must be one group of one byte");
        return r_huge((const unsigned char *)"", 0, nib(s[1]) << 4 | nib(s[2]), n);
    }
    struct region r = r_alloc(n, front);
    text_bytes(r.p, s);
    r_prot(&r, PROT_READ);
    return r;
}

/* --------------------------------------------------------------- session */
struct psdef { char name[48]; const struct ts_parameter_set *ps; };
struct buf { char name[24]; unsigned char *p; size_t len; };
struct slot { struct region ctx, msg, key; unsigned char *out; size_t outlen, outcap; };
struct hslot { struct region ctx; int alg; uint64_t saved[8]; };
struct sess {
    const char *script, *trace;
    FILE *out;
    long line;
    int flip;                       /* alternates buffer placement */
    int keep;                       /* a context's message and key always lie at the same addresses */
    struct psdef ps[NPS]; int nps;
    struct buf buf[NBUF]; int nbuf;
    struct slot c[NCTX];
    struct hslot h[NHASH];
    /* the random function of the current call */
    int stop, unclean;
    int rmode; unsigned char *rdata; size_t rlen; int rcalls; size_t rask[16]; int inlib;
};
static __thread struct sess *S;
static struct sess *all[64];
static int nall;

/* ------------------------------------------------------------- schedules */
#ifdef SCHED
#include <linux/futex.h>
#include <sys/syscall.h>
static int turn, leave, over[64], sched;
static uint64_t srnd;
static unsigned draw(void) { srnd ^= srnd << 13; srnd ^= srnd >> 7; srnd ^= srnd << 17; return (unsigned)(srnd >> 20); }
static void next_leave(void) { leave = 1 + draw() % (1u << draw() % 13); }
static void wait_turn(int me) {
    int t;
    while ((t = __atomic_load_n(&turn, __ATOMIC_ACQUIRE)) != me) syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, t, 0, 0, 0);
}
static int self(void) { for (int i = 0; i < nall; i++) if (all[i] == S) return i; return -1; }
static void hand_over(int me) {
    int left = 0, k;
    for (int i = 0; i < nall; i++) left += !over[i] && i != me;
    next_leave();
    if (!left) return;
    k = draw() % left;
    for (int i = 0; i < nall; i++) if (!over[i] && i != me && k-- == 0) {
        __atomic_store_n(&turn, i, __ATOMIC_RELEASE);
        syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 64, 0, 0, 0);
        break;
    }
    if (!over[me]) wait_turn(me);
}
void __sanitizer_cov_trace_pc(void) {
    if (sched && S && S->inlib && --leave <= 0) hand_over(self());
}
#endif

static int rng(unsigned char *p, size_t len) {
    if (S->rcalls < 16) S->rask[S->rcalls] = len;
    S->rcalls++;
    for (size_t i = 0; i < len; i++) p[i] = i < S->rlen ? S->rdata[i] : 0xA5;
    return S->rmode == 1;
}
static void rng_set(const char *spec) {           /* null | ok:HEX | fail:HEX | none */
    free(S->rdata);
    S->rdata = 0; S->rlen = 0; S->rcalls = 0; S->rmode = 0;
    if (!strcmp(spec, "null") || !strcmp(spec, "none")) return;
    const char *x = strchr(spec, ':') + 1;
    S->rmode = spec[0] == 'o' ? 1 : 2;
    S->rlen = text_len(x);
    S->rdata = malloc(S->rlen + 1);
    text_bytes(S->rdata, x);
}
static void j_hex(const char *name, const unsigned char *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    fprintf(S->out, ",\"%s\":\"", name);
    for (size_t i = 0; i < n; i++) { putc_unlocked(d[p[i] >> 4], S->out); putc_unlocked(d[p[i] & 15], S->out); }
    putc_unlocked('"', S->out);
}
static void j_rng(void) {
    fprintf(S->out, ",\"asked\":[");
    for (int i = 0; i < S->rcalls && i < 16; i++) fprintf(S->out, "%s%zu", i ? "," : "", S->rask[i]);
    fprintf(S->out, "]");
    S->rcalls = 0;
}
static const char *empty(const char *s) { return !strcmp(s, "-") || !strcmp(s, "null") ? "" : s; }
/* an empty message may also be given by a null pointer */
#define MSGPTR(s, text) (strcmp(text, "null") ? (const void *)(s)->msg.p : (const void *)0)

static const struct ts_parameter_set *ps_find(const char *n) {
    for (int i = 0; i < S->nps; i++) if (!strcmp(S->ps[i].name, n)) return S->ps[i].ps;
    die("%s:%ld: unknown parameter set %s", S->script, S->line, n);
    return 0;
}
static void ps_add(const char *n, const struct ts_parameter_set *p) {
    if (S->nps == NPS) die("too many parameter sets");
    snprintf(S->ps[S->nps].name, sizeof S->ps[0].name, "%s", n);
    S->ps[S->nps++].ps = p;
}
static struct buf *buf_find(const char *n, int make) {
    for (int i = 0; i < S->nbuf; i++) if (!strcmp(S->buf[i].name, n)) return &S->buf[i];
    if (!make) die("%s:%ld: unknown buffer %s", S->script, S->line, n);
    if (S->nbuf == NBUF) die("too many buffers");
    snprintf(S->buf[S->nbuf].name, sizeof S->buf[0].name, "%s", n);
    S->buf[S->nbuf].p = 0;
    S->buf[S->nbuf].len = 0;
    return &S->buf[S->nbuf++];
}
static void std_sets(void) {
#if TS_SUPPORT_SHAKE
    ps_add("shake_128f", &ts_ps_shake_128f_simple);
#if TS_SUPPORT_S
    ps_add("shake_128s", &ts_ps_shake_128s_simple);
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ps_add("shake_192f", &ts_ps_shake_192f_simple);
#if TS_SUPPORT_S
    ps_add("shake_192s", &ts_ps_shake_192s_simple);
#endif
#endif
#if TS_SUPPORT_L5
    ps_add("shake_256f", &ts_ps_shake_256f_simple);
#if TS_SUPPORT_S
    ps_add("shake_256s", &ts_ps_shake_256s_simple);
#endif
#endif
#endif
#if TS_SUPPORT_SHA2
    ps_add("sha2_128f", &ts_ps_sha2_128f_simple);
#if TS_SUPPORT_S
    ps_add("sha2_128s", &ts_ps_sha2_128s_simple);
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    ps_add("sha2_192f", &ts_ps_sha2_192f_simple);
#if TS_SUPPORT_S
    ps_add("sha2_192s", &ts_ps_sha2_192s_simple);
#endif
#endif
#if TS_SUPPORT_L5
    ps_add("sha2_256f", &ts_ps_sha2_256f_simple);
#if TS_SUPPORT_S
    ps_add("sha2_256s", &ts_ps_sha2_256s_simple);
#endif
#endif
#endif
}

#define CANARY 0xC7
static void ctx_make(struct slot *s) {
    if (!s->ctx.map) {
        s->ctx = r_alloc(sizeof(struct ts_context), 2);
        memset(s->ctx.lo, CANARY, s->ctx.inner);
        memset(s->ctx.p, 0, s->ctx.len);
    }
}
static int outside_clean(struct region *r) {      /* bytes of the mapping around the buffer */
    for (unsigned char *q = r->lo; q < r->p; q++) if (*q != CANARY) return 0;
    for (unsigned char *q = r->p + r->len; q < r->lo + r->inner; q++) if (*q != CANARY) return 0;
    return 1;
}
static struct slot *slot(const char *a) {
    int i = atoi(a);
    if (i < 0 || i >= NCTX) die("bad context %s", a);
    ctx_make(&S->c[i]);
    return &S->c[i];
}
#define CTX(s) ((struct ts_context *)(s)->ctx.p)
/* TLC's integers are 32-bit; no signature comes near this length */
#define CLIP(x) ((x) > 2000000000u ? 2000000000u : (x))
#define IN  (S->inlib = 1)
#define OUT (S->inlib = 0)

static void collect(struct slot *s, const unsigned char *p, size_t n) {
    if (s->outlen + n > s->outcap) { s->outcap = 2 * (s->outlen + n) + 4096; s->out = realloc(s->out, s->outcap); }
    memcpy(s->out + s->outlen, p, n);
    s->outlen += n;
}

/* One ts_sign call with request k and a buffer of exactly k bytes (at most cap) */
static unsigned do_sign(struct slot *s, const char *cname, unsigned k, int quiet) {
    size_t room = k;
    if (room > (1u << 20)) room = 1u << 20;
    struct region d = r_alloc(room, S->flip++ & 1);
    memset(d.lo, CANARY, d.inner);
    IN;
    unsigned r = ts_sign(d.p, k, CTX(s));
    OUT;
    size_t w = r <= room ? r : room;
    int clean = outside_clean(&s->ctx);
    for (unsigned char *q = d.lo; q < d.p && clean; q++) if (*q != CANARY) clean = 0;
    for (unsigned char *q = d.p + w; q < d.lo + d.inner && clean; q++) if (*q != CANARY) clean = 0;
    collect(s, d.p, w);
    if (!quiet) {
        fprintf(S->out, "{\"e\":\"sign\",\"c\":%s,\"k\":%u,\"ret\":%u", cname, CLIP(k), CLIP(r));
        j_hex("out", d.p, w);
        fprintf(S->out, ",\"clean\":%d", clean);
        j_rng();
        fprintf(S->out, "}\n");
    } else if (!clean) S->unclean = 1;
    r_free(&d);
    return r;
}

#ifdef HASHES
static const char *algs[] = { "sha256", "sha512", "shake256" };
static struct hslot *hslot(const char *a) {
    int i = atoi(a);
    if (i < 0 || i >= NHASH) die("bad hash slot %s", a);
    return &S->h[i];
}
static size_t hsize(int alg) { return alg == 0 ? sizeof(SHA256_CTX) : alg == 1 ? sizeof(SHA512_CTX) : sizeof(SHAKE256_CTX); }
#define H(s, T) ((T *)(s)->ctx.p)
#endif

/* The script counts on more bytes than the library has produced: no way to go on, and no
 * behaviour of the specification */
static void too_short(void) {
    fprintf(S->out, "{\"e\":\"short\",\"line\":%ld}\n", S->line);
    S->stop = 1;
}

/* the message and the key of a context, in place of what it had before */
static void inputs(struct slot *s, const char *msg, const char *key, int front) {
    void *m = s->msg.map, *k = s->key.map;
    r_free(&s->msg); r_free(&s->key);
    if (S->keep) hint = m;
    s->msg = r_text(msg, S->flip & 1);
    if (S->keep) hint = k;
    s->key = r_text(key, front);
    hint = 0;
    S->flip++;
}

static void run(char *line) {
    char *a[16];
    int n = 0;
    for (char *t = strtok_r(line, " \n", &line); t && n < 16; t = strtok_r(0, " \n", &line)) a[n++] = t;
    if (n == 0 || a[0][0] == '#') return;
    FILE *o = S->out;
#define NEED(k) do { if (n < (k)) die("%s:%ld: too few arguments", S->script, S->line); } while (0)
    if (!strcmp(a[0], "cps")) {                 /* cps NAME BASE k t h d [spike] */
        NEED(7);
#ifdef USE_INTERNAL
        const struct ts_parameter_set *b = ps_find(a[2]);
        struct ts_parameter_set *q = malloc(sizeof *q);
        memcpy(q, b, sizeof *q);
        q->k = atoi(a[3]); q->t = atoi(a[4]); q->h = atoi(a[5]); q->d = atoi(a[6]); q->merkle_h = q->h / q->d;
        if (n > 7) { *spike_base(q) = b; q->final_t = spike_final; q->hash_msg = spike_digest; }
        ps_add(a[1], q);
        fprintf(o, "{\"e\":\"ps\",\"id\":\"%s\",\"base\":\"%s\",\"k\":%s,\"t\":%s,\"h\":%s,\"d\":%s,\"spike\":%d}\n",
                a[1], a[2], a[3], a[4], a[5], a[6], n > 7);
#else
        die("built without internal.h");
#endif
    } else if (!strcmp(a[0], "size")) {         /* size PS */
        NEED(2);
        const struct ts_parameter_set *p = ps_find(a[1]);
        fprintf(o, "{\"e\":\"size\",\"ps\":\"%s\",\"sk\":%u,\"pk\":%u,\"sig\":%u}\n", a[1],
                ts_size_private_key(p), ts_size_public_key(p), ts_size_signature(p));
    } else if (!strcmp(a[0], "gen")) {          /* gen PS RNG pub|nopub [nosk|nops] */
        NEED(4);
        const struct ts_parameter_set *p = ps_find(a[1]);
        int haspub = a[3][0] == 'p', nosk = n > 4 && !strcmp(a[4], "nosk"), nops = n > 4 && !strcmp(a[4], "nops");
        size_t skl = ts_size_private_key(p), pkl = ts_size_public_key(p);
        struct region sk = r_alloc(skl, S->flip & 1), pk = r_alloc(pkl, S->flip & 1);
        S->flip++;
        memset(sk.lo, CANARY, sk.inner);
        memset(pk.lo, CANARY, pk.inner);
        rng_set(a[2]);
        IN;
        int r = ts_gen_key(nosk ? 0 : sk.p, haspub ? pk.p : 0, nops ? 0 : p, S->rmode ? rng : 0);
        OUT;
        int clean = 1, pubtouched = 0, sktouched = 0;
        for (size_t i = 0; i < sk.inner; i++)
            if (sk.lo[i] != CANARY) { if (sk.lo + i < sk.p || sk.lo + i >= sk.p + skl) clean = 0; else sktouched = 1; }
        for (size_t i = 0; i < pk.inner; i++)
            if (pk.lo[i] != CANARY) { if (pk.lo + i < pk.p || pk.lo + i >= pk.p + pkl) clean = 0; else pubtouched = 1; }
        fprintf(o, "{\"e\":\"gen\",\"ps\":\"%s\",\"rng\":\"%s\",\"pub\":%d,\"nosk\":%d,\"nops\":%d,\"ret\":%d", a[1],
                S->rmode == 0 ? "null" : S->rmode == 1 ? "ok" : "fail", haspub, nosk, nops, r);
        j_hex("data", S->rdata, S->rlen);
        j_hex("sk", sk.p, skl);
        j_hex("pk", pk.p, pkl);
        fprintf(o, ",\"clean\":%d,\"pubtouched\":%d,\"sktouched\":%d", clean, pubtouched, sktouched);
        j_rng();
        fprintf(o, "}\n");
        r_free(&sk);
        r_free(&pk);
    } else if (!strcmp(a[0], "isign")) {        /* isign C PS SK MSG RNG */
        NEED(6);
        struct slot *s = slot(a[1]);
        const struct ts_parameter_set *p = ps_find(a[2]);
        inputs(s, a[4], a[3], S->flip & 1);
        s->outlen = 0;
        rng_set(a[5]);
        IN;
        ts_init_sign(CTX(s), MSGPTR(s, a[4]), s->msg.len, p, s->key.p, S->rmode ? rng : 0);
        OUT;
        r_prot(&s->msg, PROT_NONE);
        fprintf(o, "{\"e\":\"isign\",\"c\":%s,\"ps\":\"%s\",\"sk\":\"%s\",\"msg\":\"%s\",\"rng\":\"%s\"", a[1], a[2], a[3],
                empty(a[4]), S->rmode == 0 ? "null" : S->rmode == 1 ? "ok" : "fail");
        j_hex("data", S->rdata, S->rlen);
        fprintf(o, ",\"clean\":%d", outside_clean(&s->ctx));
        j_rng();
        fprintf(o, "}\n");
    } else if (!strcmp(a[0], "sign")) {         /* sign C K [REPEAT] */
        NEED(3);
        struct slot *s = slot(a[1]);
        long rep = n > 3 ? atol(a[3]) : 1;
        while (rep--) do_sign(s, a[1], (unsigned)strtoul(a[2], 0, 10), 0);
    } else if (!strcmp(a[0], "signto")) {       /* signto C K : chunks of K until a call gives 0 */
        NEED(3);
        struct slot *s = slot(a[1]);
        unsigned k = (unsigned)strtoul(a[2], 0, 10);
        size_t guard = 0;
        while (do_sign(s, a[1], k, 0) && guard < 400000) guard += k;
    } else if (!strcmp(a[0], "signq")) {        /* signq C K : as signto, logged as a single request */
        NEED(3);
        struct slot *s = slot(a[1]);
        unsigned k = (unsigned)strtoul(a[2], 0, 10);
        size_t guard = 0, from = s->outlen;
        S->unclean = 0;
        while (do_sign(s, a[1], k, 1) && guard < 400000) guard += k;
        fprintf(o, "{\"e\":\"sign\",\"c\":%s,\"k\":2000000000,\"ret\":%zu", a[1], s->outlen - from);
        j_hex("out", s->out + from, s->outlen - from);
        fprintf(o, ",\"clean\":%d", !S->unclean);
        j_rng();
        fprintf(o, "}\n");
    } else if (!strcmp(a[0], "iver")) {         /* iver C PS PK MSG */
        NEED(5);
        struct slot *s = slot(a[1]);
        const struct ts_parameter_set *p = ps_find(a[2]);
        inputs(s, a[4], a[3], !(S->flip & 1));
        S->rcalls = 0;
        IN;
        ts_init_verify(CTX(s), MSGPTR(s, a[4]), s->msg.len, p, s->key.p);
        OUT;
        fprintf(o, "{\"e\":\"iver\",\"c\":%s,\"ps\":\"%s\",\"pk\":\"%s\",\"msg\":\"%s\",\"clean\":%d}\n", a[1], a[2], a[3], empty(a[4]),
                outside_clean(&s->ctx));
    } else if (!strcmp(a[0], "feed") || !strcmp(a[0], "feedb") || !strcmp(a[0], "feedto") || !strcmp(a[0], "feedh")) {
        /* feed C HEX | feedb C BUF OFF LEN [POS MASK] | feedto C BUF OFF LEN CHUNK : several calls
         * feedh C BUF OFF LEN COUNT VALUE : LEN bytes of a buffer and COUNT more of one value, in one call */
        struct slot *s = slot(a[1]);
        struct region d;
        long pos = -1;
        int mask = 0;
        NEED(3);
        if (!strcmp(a[0], "feedto")) {
            NEED(6);
            struct buf *b = buf_find(a[2], 0);
            size_t off = strtoul(a[3], 0, 10), len = strtoul(a[4], 0, 10), ch = strtoul(a[5], 0, 10);
            if (off + len > b->len) { too_short(); return; }
            while (len) {
                size_t k = len < ch ? len : ch;
                d = r_alloc(k, S->flip++ & 1);
                memcpy(d.p, b->p + off, k);
                r_prot(&d, PROT_READ);
                IN;
                int r = ts_update_verify(d.p, (unsigned)k, CTX(s));
                OUT;
                fprintf(o, "{\"e\":\"feed\",\"c\":%s,\"b\":\"%s\",\"o\":%zu,\"l\":%zu,\"x\":[],\"ret\":%d,\"clean\":%d}\n", a[1], a[2], off, k, r, outside_clean(&s->ctx));
                r_free(&d);
                off += k; len -= k;
            }
            return;
        }
        if (!strcmp(a[0], "feedh")) {
            NEED(7);
            struct buf *b = buf_find(a[2], 0);
            size_t off = strtoul(a[3], 0, 10), len = strtoul(a[4], 0, 10), more = strtoul(a[5], 0, 10);
            if (off + len > b->len) { too_short(); return; }
            d = r_huge(b->p + off, len, atoi(a[6]), more);
            IN;
            int r = ts_update_verify(d.p, (unsigned)d.len, CTX(s));
            OUT;
            fprintf(o, "{\"e\":\"feed\",\"c\":%s,\"b\":\"%s\",\"o\":%zu,\"l\":%zu,\"x\":[],\"more\":%zu,\"ret\":%d,\"clean\":%d}\n",
                    a[1], a[2], off, len, CLIP(more), r, outside_clean(&s->ctx));
            r_free(&d);
            return;
        }
        if (a[0][4] == 'b') {
            NEED(5);
            struct buf *b = buf_find(a[2], 0);
            size_t off = strtoul(a[3], 0, 10), len = strtoul(a[4], 0, 10);
            if (off + len > b->len) { too_short(); return; }
            d = r_alloc(len, S->flip++ & 1);
            memcpy(d.p, b->p + off, len);
            if (n > 6) { pos = atol(a[5]); mask = atoi(a[6]); d.p[pos] ^= mask; }
            r_prot(&d, PROT_READ);
        } else
            d = r_text(a[2], S->flip++ & 1);
        IN;
        int r = ts_update_verify(d.p, (unsigned)d.len, CTX(s));
        OUT;
        fprintf(o, "{\"e\":\"feed\",\"c\":%s", a[1]);
        if (a[0][4] == 'b') {
            fprintf(o, ",\"b\":\"%s\",\"o\":%s,\"l\":%s", a[2], a[3], a[4]);
            if (pos >= 0) fprintf(o, ",\"x\":[%ld,%d]", pos, mask);
            else fprintf(o, ",\"x\":[]");
        } else fprintf(o, ",\"b\":\"\",\"d\":\"%s\"", empty(a[2]));
        fprintf(o, ",\"ret\":%d,\"clean\":%d}\n", r, outside_clean(&s->ctx));
        r_free(&d);
    } else if (!strcmp(a[0], "ver")) {          /* ver C */
        NEED(2);
        struct slot *s = slot(a[1]);
        IN;
        int r = ts_verify(CTX(s));
        OUT;
        fprintf(o, "{\"e\":\"ver\",\"c\":%s,\"ret\":%d,\"clean\":%d}\n", a[1], r, outside_clean(&s->ctx));
    } else if (!strcmp(a[0], "zero")) {         /* zero C : an all-zero context */
        NEED(2);
        struct slot *s = slot(a[1]);
        memset(s->ctx.p, 0, s->ctx.len);
        fprintf(o, "{\"e\":\"zero\",\"c\":%s}\n", a[1]);
    } else if (!strcmp(a[0], "fill")) {         /* fill C VALUE|rSEED : garbage in the context */
        NEED(3);
        struct slot *s = slot(a[1]);
        if (a[2][0] == 'r') {
            uint64_t x = strtoull(a[2] + 1, 0, 10) * 2654435761u + 88172645463325252ull;
            for (size_t i = 0; i < s->ctx.len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s->ctx.p[i] = x >> 24; }
        } else memset(s->ctx.p, atoi(a[2]), s->ctx.len);
        fprintf(o, "{\"e\":\"fill\",\"c\":%s}\n", a[1]);
    } else if (!strcmp(a[0], "keep")) {         /* keep 0|1 : new inputs of a context at the addresses of the old ones */
        NEED(2);
        S->keep = atoi(a[1]);
    } else if (!strcmp(a[0], "smear")) {        /* smear VALUE : garbage on the stack below us */
        NEED(2);
        volatile unsigned char junk[24000];
        for (size_t i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)(atoi(a[1]) + (a[1][0] == 'r' ? i * 37 : 0));
    } else if (!strcmp(a[0], "fresh")) {        /* fresh C : a new context structure at a new address */
        NEED(2);
        struct slot *s = slot(a[1]);
        r_free(&s->ctx);
        ctx_make(s);
        fprintf(o, "{\"e\":\"zero\",\"c\":%s}\n", a[1]);
    } else if (!strcmp(a[0], "buf")) {          /* buf NAME HEX */
        NEED(3);
        struct buf *b = buf_find(a[1], 1);
        free(b->p);
        b->len = text_len(a[2]);
        b->p = malloc(b->len + 1);
        text_bytes(b->p, a[2]);
        fprintf(o, "{\"e\":\"buf\",\"id\":\"%s\"", a[1]);
        j_hex("data", b->p, b->len);
        fprintf(o, "}\n");
    } else if (!strcmp(a[0], "take")) {         /* take NAME C : what context C has output since isign */
        NEED(3);
        struct buf *b = buf_find(a[1], 1);
        struct slot *s = slot(a[2]);
        free(b->p);
        b->len = s->outlen;
        b->p = malloc(b->len + 1);
        memcpy(b->p, s->out, b->len);
        fprintf(o, "{\"e\":\"buf\",\"id\":\"%s\"", a[1]);
        j_hex("data", b->p, b->len);
        fprintf(o, "}\n");
    } else if (!strcmp(a[0], "cat") || !strcmp(a[0], "splice")) {
        /* cat NAME BUF... | splice NAME BUF1 BUF2 OFF LEN : BUF1 with LEN bytes at OFF from BUF2 */
        NEED(3);
        struct buf *b = buf_find(a[1], 1);
        unsigned char *t;
        size_t len = 0;
        if (a[0][0] == 'c') {
            for (int i = 2; i < n; i++) len += buf_find(a[i], 0)->len;
            t = malloc(len + 1);
            len = 0;
            for (int i = 2; i < n; i++) { struct buf *q = buf_find(a[i], 0); memcpy(t + len, q->p, q->len); len += q->len; }
        } else {
            NEED(6);
            struct buf *p = buf_find(a[2], 0), *q = buf_find(a[3], 0);
            size_t off = strtoul(a[4], 0, 10), l = strtoul(a[5], 0, 10);
            len = p->len;
            if (off + l > len || off + l > q->len) { too_short(); return; }
            t = malloc(len + 1);
            memcpy(t, p->p, len);
            memcpy(t + off, q->p + off, l);
        }
        b = buf_find(a[1], 1);
        free(b->p);
        b->p = t; b->len = len;
        fprintf(o, "{\"e\":\"buf\",\"id\":\"%s\"", a[1]);
        j_hex("data", b->p, b->len);
        fprintf(o, "}\n");
#ifdef HASHES
    } else if (!strcmp(a[0], "hinit")) {        /* hinit H alg */
        NEED(3);
        struct hslot *h = hslot(a[1]);
        h->alg = !strcmp(a[2], algs[0]) ? 0 : !strcmp(a[2], algs[1]) ? 1 : 2;
        r_free(&h->ctx);
        h->ctx = r_alloc(hsize(h->alg), 2);
        memset(h->ctx.lo, CANARY, h->ctx.inner);
        IN;
        if (h->alg == 0) ts_SHA256_init(H(h, SHA256_CTX));
        else if (h->alg == 1) ts_SHA512_init(H(h, SHA512_CTX));
        else ts_shake256_inc_init(H(h, SHAKE256_CTX));
        OUT;
        fprintf(o, "{\"e\":\"hinit\",\"h\":%s,\"alg\":\"%s\",\"clean\":%d}\n", a[1], algs[h->alg], outside_clean(&h->ctx));
    } else if (!strcmp(a[0], "hupd")) {         /* hupd H TEXT */
        NEED(3);
        struct hslot *h = hslot(a[1]);
        struct region d = r_text(a[2], S->flip++ & 1);
        IN;
        if (h->alg == 0) ts_SHA256_update(H(h, SHA256_CTX), d.p, d.len);
        else if (h->alg == 1) ts_SHA512_update(H(h, SHA512_CTX), d.p, d.len);
        else ts_shake256_inc_absorb(H(h, SHAKE256_CTX), d.p, d.len);
        OUT;
        fprintf(o, "{\"e\":\"hupd\",\"h\":%s,\"d\":\"%s\",\"clean\":%d}\n", a[1], empty(a[2]), outside_clean(&h->ctx));
        r_free(&d);
    } else if (!strcmp(a[0], "hfin")) {         /* hfin H LEN|full : SHA-2 digest, possibly truncated */
        NEED(3);
        struct hslot *h = hslot(a[1]);
        int full = !strcmp(a[2], "full");
        unsigned len = full ? (h->alg == 0 ? 32 : 64) : (unsigned)atoi(a[2]);
        struct region d = r_alloc(len, S->flip++ & 1);
        memset(d.lo, CANARY, d.inner);
        IN;
#ifdef NO_TRUNC
        if (h->alg == 0) ts_SHA256_final(d.p, H(h, SHA256_CTX));
        else if (h->alg == 1) ts_SHA512_final(d.p, H(h, SHA512_CTX));
#else
        if (h->alg == 0) { if (full) ts_SHA256_final(d.p, H(h, SHA256_CTX)); else ts_SHA256_final_trunc(d.p, H(h, SHA256_CTX), len); }
        else if (h->alg == 1) { if (full) ts_SHA512_final(d.p, H(h, SHA512_CTX)); else ts_SHA512_final_trunc(d.p, H(h, SHA512_CTX), len); }
#endif
        else ts_shake256_inc_finalize(H(h, SHAKE256_CTX));
        OUT;
        int clean = outside_clean(&h->ctx);
        for (unsigned char *q = d.lo; q < d.lo + d.inner; q++) if ((q < d.p || q >= d.p + len) && *q != CANARY) clean = 0;
        fprintf(o, "{\"e\":\"hfin\",\"h\":%s,\"n\":%u", a[1], h->alg == 2 ? 0 : len);
        j_hex("out", d.p, h->alg == 2 ? 0 : len);
        fprintf(o, ",\"clean\":%d}\n", clean);
        r_free(&d);
    } else if (!strcmp(a[0], "hsqz")) {         /* hsqz H LEN */
        NEED(3);
        struct hslot *h = hslot(a[1]);
        size_t len = strtoul(a[2], 0, 10);
        struct region d = r_alloc(len, S->flip++ & 1);
        memset(d.lo, CANARY, d.inner);
        IN;
        ts_shake256_inc_squeeze(d.p, len, H(h, SHAKE256_CTX));
        OUT;
        int clean = outside_clean(&h->ctx);
        for (unsigned char *q = d.lo; q < d.lo + d.inner; q++) if ((q < d.p || q >= d.p + len) && *q != CANARY) clean = 0;
        fprintf(o, "{\"e\":\"hsqz\",\"h\":%s,\"n\":%zu", a[1], len);
        j_hex("out", d.p, len);
        fprintf(o, ",\"clean\":%d}\n", clean);
        r_free(&d);
#ifndef NO_SAVE
    } else if (!strcmp(a[0], "hsave") || !strcmp(a[0], "hrest")) {   /* hsave H ; hrest H2 H : resume in H2 what H saved */
        NEED(2);
        struct hslot *h = hslot(a[1]);
        if (a[0][1] == 's') {
            IN;
            if (h->alg == 0) ts_SHA256_save_state((uint32_t *)h->saved, H(h, SHA256_CTX));
            else ts_SHA512_save_state(h->saved, H(h, SHA512_CTX));
            OUT;
            fprintf(o, "{\"e\":\"hsave\",\"h\":%s}\n", a[1]);
        } else {
            NEED(3);
            struct hslot *g = hslot(a[2]);
            h->alg = g->alg;
            r_free(&h->ctx);
            h->ctx = r_alloc(hsize(h->alg), 2);
            memset(h->ctx.lo, CANARY, h->ctx.inner);
            memset(h->ctx.p, S->flip++ & 1 ? 0xFF : 0x11, h->ctx.len);
            IN;
            if (h->alg == 0) ts_SHA256_restore_state_after_64(H(h, SHA256_CTX), (uint32_t *)g->saved);
            else ts_SHA512_restore_state_after_128(H(h, SHA512_CTX), g->saved);
            OUT;
            fprintf(o, "{\"e\":\"hrest\",\"h\":%s,\"g\":%s,\"clean\":%d}\n", a[1], a[2], outside_clean(&h->ctx));
        }
#endif
#endif
    } else
        die("%s:%ld: unknown command %s", S->script, S->line, a[0]);
}

/* 1 if the parameter sets hold nothing beyond the fields this file knows (a field might hide in the padding) */
static int layout_known(void) {
#ifdef USE_INTERNAL
    S = calloc(1, sizeof *S);
    std_sets();
    for (int i = 0; i < S->nps; i++) {
        struct ts_parameter_set q;
        const struct ts_parameter_set *p = S->ps[i].ps;
        memset(&q, 0, sizeof q);
        q.n = p->n; q.k = p->k; q.t = p->t; q.h = p->h; q.d = p->d; q.merkle_h = p->merkle_h; q.sha2 = p->sha2;
        if (memcmp(&q, p, offsetof(struct ts_parameter_set, prf_msg))) return 0;
    }
    return 1;
#else
    return 0;
#endif
}

static void flush_all(void) { for (int i = 0; i < nall; i++) fflush(all[i]->out); }
static void on_fault(int sig, siginfo_t *si, void *u) {
    (void)u;
    struct sess *s = S;
    int w = 0;
    flush_all();                                   /* end every trace at a whole line */
    for (int i = 0; i < nall; i++) if (all[i] == s) w = 1;
    if (!w && nall) s = all[0], w = 1;
    if (w) {
        fprintf(s->out, "\n{\"e\":\"fault\",\"signal\":%d,\"line\":%ld,\"inlib\":%d,\"near\":%d}\n", sig, s->line, s->inlib,
                (int)((uintptr_t)si->si_addr & 0xfff));
        fflush(s->out);
    }
    _exit(0);
}
static void *session(void *arg) {
    S = arg;
    FILE *f = fopen(S->script, "r");
    if (!f) die("no script %s", S->script);
    stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536, .ss_flags = 0 };
    sigaltstack(&ss, 0);
    char *line = 0;
    size_t cap = 0;
    std_sets();
#ifdef SCHED
    if (sched) wait_turn(self());
#endif
    while (!S->stop && getline(&line, &cap, f) > 0) { S->line++; run(line); }
    fprintf(S->out, "{\"e\":\"end\"}\n");
#ifdef SCHED
    if (sched) { over[self()] = 1; hand_over(self()); }
#endif
    fclose(S->out);
    fclose(f);
    free(line);
    return 0;
}
int main(int argc, char **argv) {
    if (argc == 2 && !strcmp(argv[1], "layout")) return !layout_known();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGALRM, &sa, 0);
    guard = getenv("VF_GUARD") && atoi(getenv("VF_GUARD"));
    if (getenv("VF_ALARM")) alarm(atoi(getenv("VF_ALARM")));
#ifndef SANITIZED
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGABRT, &sa, 0);
#endif
    pthread_t th[64];
    for (int i = 1; i + 1 < argc && nall < 64; i += 2) {
        struct sess *s = calloc(1, sizeof *s);
        s->script = argv[i];
        s->trace = argv[i + 1];
        s->out = fopen(s->trace, "w");
        if (!s->out) die("cannot write %s", s->trace);
        setvbuf(s->out, 0, _IOFBF, 1 << 20);
        all[nall++] = s;
    }
#ifdef SCHED
    if (getenv("VF_SCHED") && nall > 1) {
        sched = 1;
        srnd = strtoull(getenv("VF_SCHED"), 0, 10) * 2654435761u + 88172645463325252ull;
        next_leave();
    }
#endif
    if (nall == 1) session(all[0]);
    else {
        for (int i = 0; i < nall; i++) if (pthread_create(&th[i], 0, session, all[i])) die("pthread_create");
        for (int i = 0; i < nall; i++) pthread_join(th[i], 0);
    }
    return 0;
}
