/*
 * Measures what the library's calls use beside the caller's buffers: stack (high-water
 * mark of a painted stack), heap calls, and bytes of the library's own writable static
 * storage that changed.  One JSON line per call sequence; spec/TraceRam.tla judges.
 *
 * usage: ram TRACE LIMIT [FILE]     FILE: a private key in hex, then messages in hex, one per line      (linked with the library as a shared object)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "tiny_sphincs.h"

#ifndef RAM_SET
#error RAM_SET names the parameter set
#endif
#ifndef MINIMAL
#define MINIMAL 1
#endif
#define STR(x) #x
#define XSTR(x) STR(x)

/* ------------------------------------------------------------------ heap */
static volatile int watching;
static volatile long heapcalls;
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { if (watching) heapcalls++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (watching) heapcalls++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (watching) heapcalls++; return __libc_realloc(p, n); }
void free(void *p) { if (watching && p) heapcalls++; __libc_free(p); }
extern void *__libc_memalign(size_t, size_t);
void *aligned_alloc(size_t a, size_t n) { if (watching) heapcalls++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (watching) heapcalls++; *p = __libc_memalign(a, n); return *p ? 0 : 12; }

/* ------------------------------------------- the library's static storage */
static unsigned char *seg[8], *shadow[8];
static size_t seglen[8];
static int nseg;
static size_t tls;
static int phdr(struct dl_phdr_info *i, size_t s, void *x) {
    (void)s;
    uintptr_t at = (uintptr_t)x;
    int mine = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && at >= i->dlpi_addr + p->p_vaddr && at < i->dlpi_addr + p->p_vaddr + p->p_memsz) mine = 1;
    }
    if (!mine) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_W) && nseg < 8) {
            seg[nseg] = (unsigned char *)i->dlpi_addr + p->p_vaddr;
            seglen[nseg++] = p->p_memsz;
        }
        if (p->p_type == PT_TLS) tls += p->p_memsz;
    }
    return 1;
}
static void statics_snapshot(void) {
    dl_iterate_phdr(phdr, dlsym(RTLD_DEFAULT, "ts_init_sign"));
    for (int i = 0; i < nseg; i++) { shadow[i] = malloc(seglen[i]); memcpy(shadow[i], seg[i], seglen[i]); }
}
static long statics_changed(void) {
    long n = 0;
    for (int i = 0; i < nseg; i++) for (size_t k = 0; k < seglen[i]; k++) n += seg[i][k] != shadow[i][k];
    return n;
}

/* ----------------------------------------------------------------- stack */
#define STK (512 * 1024)
static unsigned char *stk;
static void (*work)(void);
static unsigned char *entry;
/* The work runs on a thread of its own with a painted stack; what matters is the
 * stack below the frame that makes the library call. */
static void *tramp(void *x) {
    (void)x;
    unsigned char here;
    entry = &here;
    unsigned char *top = (unsigned char *)__builtin_frame_address(0);
    entry = top;
    /* paint everything below us */
    for (volatile unsigned char *p = stk + 4096; p < top - 256; p++) *p = 0x5e;
    watching = 1;
    work();
    watching = 0;
    return 0;
}
static long measure(void (*f)(void)) {
    pthread_attr_t a;
    pthread_t t;
    work = f;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, stk, STK);
    if (pthread_create(&t, &a, tramp, 0)) exit(3);
    pthread_join(t, 0);
    unsigned char *p = stk + 4096;
    while (p < entry && *p == 0x5e) p++;
    return entry - p;
}

/* ------------------------------------------------------------ operations */
static const struct ts_parameter_set *ps = &RAM_SET;
static struct ts_context ctx;
static unsigned char skbuf[136], pkbuf[72], *sk = skbuf, *pk = pkbuf, *msg, *sig;
static size_t msglen;
static unsigned chunk, got, siglen;
static int okv;
static unsigned char seedbyte;
static int fake(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = seedbyte + 7 * i; return 1; }
static int fails(unsigned char *p, size_t n) { for (size_t i = 0; i < n / 2; i++) p[i] = 3; return 0; }
static void w_nothing(void) { }
static void w_key(void) { ts_gen_key(sk, pk, ps, fake); }
static void w_isign(void) { ts_init_sign(&ctx, msg, msglen, ps, sk, 0); }
static void w_isignr(void) { ts_init_sign(&ctx, msg, msglen, ps, sk, fake); }
static void w_sign(void) { unsigned r; while ((r = ts_sign(sig + got, chunk > siglen - got ? siglen - got : chunk, &ctx)) > 0) got += r; }
static void w_iver(void) { ts_init_verify(&ctx, msg, msglen, ps, pk); }
static void w_feed(void) {
    for (got = 0; got < siglen;) { unsigned r = chunk > siglen - got ? siglen - got : chunk; if (!ts_update_verify(sig + got, r, &ctx)) break; got += r; }
    okv = ts_verify(&ctx);
}
/* calls that are refused or fail */
static unsigned char scratch[64];
static void w_keyfail(void) { okv = ts_gen_key(sk, pk, ps, fails) | ts_gen_key(sk, pk, ps, 0) | ts_gen_key(0, pk, ps, fake) | ts_gen_key(sk, pk, 0, fake); }
static void w_keynopub(void) { ts_gen_key(sk, 0, ps, fake); }
static void w_isignfail(void) { ts_init_sign(&ctx, msg, msglen, ps, sk, fails); }
static void w_end(void) { got = ts_sign(scratch, 1, &ctx) + ts_sign(scratch, 64, &ctx) + ts_sign(scratch, 0, &ctx) + ts_sign(scratch, 0xffffffffu, &ctx); }
static void w_huge(void) { got = ts_sign(sig, 0xffffffffu, &ctx); }
static void w_wrongsign(void) { okv = ts_update_verify(sig, 64, &ctx) | ts_update_verify(sig, 0, &ctx) | ts_verify(&ctx) | ts_update_verify(sig, siglen, &ctx); }
static void w_wrongver(void) { got = ts_sign(scratch, 64, &ctx) + ts_sign(scratch, 0, &ctx) + ts_sign(scratch, 0xffffffffu, &ctx); }
static void w_more(void) { okv = ts_update_verify(sig, 1, &ctx) | ts_update_verify(sig, siglen, &ctx) | ts_update_verify(sig, 0, &ctx); okv = ts_verify(&ctx); }
static FILE *out;
static long base;
static void emit(const char *op, long stack) {
    fprintf(out, "{\"e\":\"ram\",\"ps\":\"%s\",\"op\":\"%s\",\"minimal\":%d,\"ctx\":%zu,\"stack\":%ld,\"msglen\":%zu,\"chunk\":%u,\"heap\":%ld,\"statics\":%ld,\"tls\":%zu}\n",
            XSTR(RAM_SET), op, MINIMAL, sizeof ctx, stack - base > 0 ? stack - base : 0, msglen, chunk, heapcalls, statics_changed(), tls);
    heapcalls = 0;
}
int main(int argc, char **argv) {
    static const size_t lens[] = { 300, 0, 1, 55, 64, 120, 136, 511, 1024, 4097, 70000, 1000001 };
    static const unsigned chunks[] = { 100000, 1, 7, 16, 24, 32, 33, 1000 };
    int lim = argc > 2 ? atoi(argv[2]) : 3;
    out = fopen(argv[1], "w");
    if (!out) return 3;
    stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    msg = malloc(1000016);
    for (size_t i = 0; i < 1000016; i++) msg[i] = (unsigned char)(i * 31 >> 3);
    siglen = ts_size_signature(ps);
    sig = malloc(siglen + 16);
    seedbyte = 1;
    statics_snapshot();            /* before the first call: everything is bound at load time */
    w_key();
    base = measure(w_nothing);
    base = measure(w_nothing);
    msglen = 0; chunk = 0;
    emit("nothing", base);
    for (int i = 0; i < (lim > 6 ? 3 : 1); i++) { seedbyte = 1 + i; emit("keygen", measure(w_key)); }
    for (unsigned i = 0; i < sizeof lens / sizeof lens[0]; i++) {
        msglen = lens[i];
        chunk = 0;
        emit("initsign", measure(i & 1 ? w_isignr : w_isign));
        if ((int)i < lim) {
            chunk = chunks[i % 8];
            got = 0;
            emit("sign", measure(w_sign));
            chunk = 0;
            emit("initverify", measure(w_iver));
            chunk = chunks[(i + 3) % 8];
            emit("verify", measure(w_feed));
            fprintf(out, "{\"e\":\"note\",\"verified\":%d,\"got\":%u}\n", okv, got);
        } else {                   /* only the part that hashes the message */
            unsigned keep = siglen;
            chunk = 0;
            emit("initverify", measure(w_iver));
            siglen = 16 * 8;
            chunk = 16;
            emit("verifyhead", measure(w_feed));
            siglen = keep;
        }
    }
    /* once more, with everything at odd addresses and messages of other sizes */
    for (unsigned i = 0; i < sizeof lens / sizeof lens[0]; i++) {
        unsigned off = 1 + i % 7, keep = siglen;
        unsigned char *msg0 = msg, *sig0 = sig;
        sk = skbuf + off; pk = pkbuf + off;
        if (i == 0 || lim > 6) { seedbyte = 77 + i; emit("keygen", measure(w_key)); }
        msg += off; sig += off;
        msglen = lens[i] + (lens[i] > 1000 ? 0 : 4 * i);
        chunk = 0;
        emit("initsign", measure(i & 1 ? w_isign : w_isignr));
        siglen = 40 * 8; chunk = chunks[1 + i % 7];
        got = 0;
        emit("signhead", measure(w_sign));
        emit("initverify", measure(w_iver));
        emit("verifyhead", measure(w_feed));
        siglen = keep; msg = msg0; sig = sig0;
    }
    /* calls that fail, are refused, or come after the end */
    sk = skbuf; pk = pkbuf; seedbyte = 1;
    msglen = 33; chunk = 0;
    emit("keygen", measure(w_keyfail));
    emit("keygen", measure(w_keynopub));
    w_key();
    emit("initsign", measure(w_isignfail));
    emit("wrongsign", measure(w_wrongsign));
    emit("sign", measure(w_huge));
    emit("sign", measure(w_end));
    emit("wrongsign", measure(w_wrongsign));
    emit("initverify", measure(w_iver));
    emit("wrongverify", measure(w_wrongver));
    chunk = siglen;
    emit("verify", measure(w_feed));           /* ends well */
    emit("wrongverify", measure(w_wrongver));
    emit("verify", measure(w_more));           /* too much */
    emit("verify", measure(w_more));
    w_iver();
    sig[siglen / 2] ^= 4;
    chunk = 77;
    emit("verify", measure(w_feed));           /* ends badly */
    emit("verify", measure(w_more));
    emit("wrongverify", measure(w_wrongver));
    memset(&ctx, 0, sizeof ctx);
    emit("wrongsign", measure(w_wrongsign));
    emit("wrongverify", measure(w_wrongver));
    /* given messages: they lead to the far ends of the structure */
    FILE *in = argc > 3 ? fopen(argv[3], "r") : 0;
    static char line[4096];
    if (in && fgets(line, sizeof line, in)) {
        for (unsigned i = 0, v; i < 4u * ts_size_public_key(ps) / 2 && sscanf(line + 2 * i, "%2x", &v) == 1; i++) skbuf[i] = v;
        memcpy(pkbuf, skbuf + ts_size_public_key(ps), ts_size_public_key(ps));
        while (fgets(line, sizeof line, in)) {
            unsigned v;
            for (msglen = 0; sscanf(line + 2 * msglen, "%2x", &v) == 1; msglen++) msg[msglen] = v;
            emit("initsign", measure(w_isign));
            chunk = 1 + msglen * 5;
            got = 0;
            emit("sign", measure(w_sign));
            w_iver();
            emit("verify", measure(w_feed));   /* the key is not a real one: ends badly */
        }
    }
    fprintf(out, "{\"e\":\"end\"}\n");
    fclose(out);
    return 0;
}
