#include "c_runtime.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <errno.h>

extern const World *sim_worlds[];
extern const int sim_nworlds;

/* ---------------- simulated allocator ---------------- */
#define NB 4096
typedef struct Blk { struct Blk *next; void *p; size_t n; } Blk;
static Blk *tab[NB];
static long live, live_bytes, total_allocs, failed_allocs;
static long fail_after;     /* 0: never; k: the k-th next allocation fails */
static int fail_sticky;     /* keep failing from then on */
static int zero_null;       /* malloc(0) returns NULL, as the standard allows */
static char bad[256];
static const size_t CAP = (size_t)64 << 20;

typedef struct Task { int used; pthread_t th; sem_t run; char *line; Out out; int state; char park[64]; char act[64]; } Task;
static Task tasks[64];
static sem_t ctl;
static __thread Task *self;

static void park(const char *what, size_t n) {
    if (!self) return;
    snprintf(self->park, sizeof self->park, "%s %zu", what, n);
    self->state = 1;
    sem_post(&ctl);
    while (sem_wait(&self->run) != 0) {}
}

static unsigned hp(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % NB; }
static void track(void *p, size_t n) {
    Blk *b = malloc(sizeof *b); b->p = p; b->n = n; b->next = tab[hp(p)]; tab[hp(p)] = b;
    live++; live_bytes += (long)n;
}
static int untrack(void *p, size_t *n) {
    for (Blk **q = &tab[hp(p)]; *q; q = &(*q)->next) if ((*q)->p == p) {
        Blk *b = *q; *q = b->next; if (n) *n = b->n; live--; live_bytes -= (long)b->n; free(b); return 1;
    }
    return 0;
}
static int quiet; /* harness allocations never fail or park */
void *sim_malloc(size_t n) {
    if (!quiet) {
        park("m", n);
        if (self && self->act[0] == 'f') { failed_allocs++; return NULL; }
        total_allocs++;
        if (fail_after > 0 && --fail_after == 0) { failed_allocs++; if (fail_sticky) fail_after = 1; return NULL; }
        if (n == 0 && zero_null) return NULL;
        if (n > CAP) { failed_allocs++; return NULL; }
    }
    void *p = malloc(n);
    memset(p, 0xA5, n);
    track(p, n);
    return p;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    park("r", n);
    if (self && self->act[0] == 'f') { failed_allocs++; return NULL; }
    total_allocs++;
    if (fail_after > 0 && --fail_after == 0) { failed_allocs++; if (fail_sticky) fail_after = 1; return NULL; }
    if (n > CAP) { failed_allocs++; return NULL; }
    size_t old = 0;
    if (!untrack(p, &old)) { snprintf(bad, sizeof bad, "realloc of a pointer that is not allocated"); return NULL; }
    void *q = malloc(n);
    memset(q, 0xA5, n);
    memcpy(q, p, old < n ? old : n);
    free(p);
    track(q, n);
    return q;
}
void sim_free(void *p) {
    if (!p) return;
    if (!untrack(p, NULL)) { snprintf(bad, sizeof bad, "free of a pointer that is not allocated (double or invalid free)"); return; }
    free(p);
}

/* ---------------- text ---------------- */
static void need(Out *o, size_t k) { if (o->n + k + 1 > o->cap) { o->cap = (o->n + k + 1) * 2; o->b = realloc(o->b, o->cap); } }
void out_raw(Out *o, const char *s) { size_t k = strlen(s); need(o, k); memcpy(o->b + o->n, s, k + 1); o->n += k; }
void out_u(Out *o, uint64_t v) { char b[32]; snprintf(b, sizeof b, " %llu", (unsigned long long)v); out_raw(o, b); }
void out_i(Out *o, int64_t v) { char b[32]; snprintf(b, sizeof b, " %lld", (long long)v); out_raw(o, b); }
static void hexs(Out *o, const uint8_t *s, size_t n) {
    static const char *H = "0123456789abcdef"; need(o, 2 * n);
    for (size_t i = 0; i < n; i++) { o->b[o->n++] = H[s[i] >> 4]; o->b[o->n++] = H[s[i] & 15]; }
    o->b[o->n] = 0;
}
void out_s(Out *o, const void *s, size_t n) { out_raw(o, " s"); hexs(o, s, n); }
static char *tok(Tok *t) { if (t->i >= t->n) { fprintf(stderr, "harness: token underflow\n"); _exit(97); } return t->t[t->i++]; }
uint64_t tok_u(Tok *t) { return strtoull(tok(t), NULL, 10); }
int64_t tok_i(Tok *t) { return strtoll(tok(t), NULL, 10); }
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t *unhex(const char *s, size_t *n) {
    *n = strlen(s) / 2; uint8_t *b = malloc(*n ? *n : 1);
    for (size_t i = 0; i < *n; i++) b[i] = (uint8_t)(hv(s[2*i]) << 4 | hv(s[2*i+1]));
    return b;
}
char *tok_s(Tok *t, size_t *n) {
    uint8_t *b = unhex(tok(t) + 1, n); int q = quiet; quiet = 1;
    char *r = sim_malloc(*n + 1); quiet = q; memcpy(r, b, *n); r[*n] = 0; free(b); return r;
}

/* ---------------- tables ---------------- */
#define NS 4096
typedef struct { const World *w; int m; void *p; } Slot;
typedef struct { const World *w; void **l; size_t n; } List;
typedef struct { int used; DA da; size_t pre; } Cur;
static Slot slots[NS]; static List lists[NS]; static Cur srcs[NS], sinks[NS];

static void err(Out *o, uint8_t e) { char b[32]; snprintf(b, sizeof b, "err %u", e); out_raw(o, b); }
static void dumplist(const World *w, void **l, size_t n, Out *o) {
    out_u(o, n);
    for (size_t i = 0; i < n; i++) { int m = w->mt(l[i]); out_i(o, m); if (m >= 0) w->dump(m, l[i], o); }
}

static void run(char *line, Out *o) {
    char **tv = NULL; int n = 0, cap = 0;
    for (char *s = strtok_r(line, " \n", &line); s; s = strtok_r(NULL, " \n", &line)) {
        if (n == cap) { cap = cap ? cap * 2 : 64; tv = realloc(tv, sizeof(char *) * (size_t)cap); }
        tv[n++] = s;
    }
    Tok T = { tv, n, 0 };
    const World *w = sim_worlds[tok_u(&T)];
    const char *op = tok(&T);
#define IS(x) (strcmp(op, x) == 0)
    if (IS("new")) {
        int h = (int)tok_i(&T), m = (int)tok_i(&T), fl = n > T.i ? (int)tok_i(&T) : 0;
        void *p = fl == 1 ? w->copydefault(m) : w->create(m);
        if (!p) { err(o, 3); goto done; }
        slots[h] = (Slot){ w, m, p };
        out_raw(o, "ok"); out_i(o, w->mt(p)); w->dump(m, p, o);
    } else if (IS("load")) {
        int h = (int)tok_i(&T), m = (int)tok_i(&T);
        quiet = 1; void *p = w->create(m); w->load(m, p, &T); quiet = 0;
        slots[h] = (Slot){ w, m, p }; out_raw(o, "ok");
    } else if (IS("refill")) {
        int h = (int)tok_i(&T), i = (int)tok_i(&T), m = (int)tok_i(&T);
        quiet = 1; w->refill(m, i < 0 ? slots[h].p : lists[h].l[i], &T); quiet = 0; out_raw(o, "ok");
    } else if (IS("get")) {
        int h = (int)tok_i(&T); out_raw(o, "ok"); out_i(o, w->mt(slots[h].p)); w->dump(slots[h].m, slots[h].p, o);
    } else if (IS("free")) {
        int h = (int)tok_i(&T), fl = n > T.i ? (int)tok_i(&T) : 0;
        w->destroy(slots[h].m, slots[h].p, fl); slots[h].p = NULL; out_raw(o, "ok");
    } else if (IS("size")) {
        int h = (int)tok_i(&T), g = n > T.i ? (int)tok_i(&T) : 0; size_t z = (size_t)0x5A5A5A5A5A;
        uint8_t e = w->size(slots[h].m, slots[h].p, &z, g); if (e) err(o, e); else { out_raw(o, "ok"); out_u(o, z); }
    } else if (IS("mklist")) {
        int L = (int)tok_i(&T); size_t k = (size_t)(n - T.i); quiet = 1;
        void **l = sim_malloc(sizeof(void *) * (k ? k : 1)); quiet = 0;
        for (size_t i = 0; i < k; i++) { int h = (int)tok_i(&T); l[i] = slots[h].p; slots[h].p = NULL; }
        lists[L] = (List){ w, l, k }; out_raw(o, "ok");
    } else if (IS("lget")) {
        List *l = &lists[tok_i(&T)]; out_raw(o, "ok"); dumplist(w, l->l, l->n, o);
    } else if (IS("lfree")) {
        List *l = &lists[tok_i(&T)]; uint8_t e = w->destroylist(l->l, l->n); l->l = NULL; l->n = 0;
        if (e) err(o, e); else out_raw(o, "ok");
    } else if (IS("lpsize")) {
        List *l = &lists[tok_i(&T)]; size_t z = (size_t)0x5A5A5A5A5A; uint8_t e = w->psize(l->l, l->n, &z);
        if (e) err(o, e); else { out_raw(o, "ok"); out_u(o, z); }
    } else if (IS("src")) {
        Cur *c = &srcs[tok_i(&T)]; if (c->used) free(c->da.buffer);
        size_t z; uint8_t *b = unhex(T.i < n ? tok(&T) : "", &z);
        uint8_t *x = malloc(z); memcpy(x, b, z); free(b); /* exact size: a read past the end is caught */
        *c = (Cur){ 1, { x, z, 0 }, 0 }; out_raw(o, "ok");
    } else if (IS("srcclose")) {
        Cur *c = &srcs[tok_i(&T)]; if (c->used) free(c->da.buffer); c->used = 0; out_raw(o, "ok");
    } else if (IS("pos")) {
        Cur *c = &srcs[tok_i(&T)]; out_raw(o, "ok"); out_u(o, c->da.position); out_u(o, w->finished(&c->da));
    } else if (IS("read")) {
        Cur *c = &srcs[tok_i(&T)]; int m = (int)tok_i(&T), h = (int)tok_i(&T);
        quiet = 1; void *p = w->raw(m); quiet = 0;
        uint8_t e = w->read(&c->da, m, p);
        if (e) { w->destroy(m, p, 0); err(o, e); out_u(o, c->da.position); }
        else { out_raw(o, "ok"); out_u(o, c->da.position); out_i(o, w->mt(p)); w->dump(m, p, o);
               if (h >= 0) slots[h] = (Slot){ w, m, p }; else w->destroy(m, p, 0); }
    } else if (IS("proc") || IS("unpack")) {
        int un = IS("unpack"); Cur *c = &srcs[tok_i(&T)]; int32_t max = un ? 0 : (int32_t)tok_i(&T); int L = (int)tok_i(&T);
        void **l = NULL; size_t k = 0;
        uint8_t e = un ? w->unpack(&c->da, &l, &k) : w->proc(&c->da, max, &l, &k);
        if (e) { w->destroylist(l, k); err(o, e); out_u(o, c->da.position); }
        else { out_raw(o, "ok"); out_u(o, c->da.position); dumplist(w, l, k, o);
               if (L >= 0) lists[L] = (List){ w, l, k }; else w->destroylist(l, k); }
    } else if (IS("sink")) {
        Cur *c = &sinks[tok_i(&T)]; if (c->used) free(c->da.buffer); size_t z = (size_t)tok_u(&T), pre = (size_t)tok_u(&T);
        uint8_t *b = malloc(pre + z); memset(b, 0xEE, pre + z);
        *c = (Cur){ 1, { b, pre + z, pre }, pre }; out_raw(o, "ok");
    } else if (IS("sinkget")) {
        Cur *c = &sinks[tok_i(&T)]; int okc = 1;
        for (size_t i = 0; i < c->pre; i++) if (c->da.buffer[i] != 0xEE) okc = 0;
        out_raw(o, okc ? "ok x" : "bad bytes before the start position were overwritten x");
        if (c->da.position > c->da.bufferSize) { out_raw(o, " position past the end"); goto done; }
        hexs(o, c->da.buffer + c->pre, c->da.position - c->pre);
    } else if (IS("sinkclose")) {
        Cur *c = &sinks[tok_i(&T)]; if (c->used) free(c->da.buffer); c->used = 0; out_raw(o, "ok");
    } else if (IS("write")) {
        Cur *c = &sinks[tok_i(&T)]; int h = (int)tok_i(&T), tag = (int)tok_i(&T), g = n > T.i ? (int)tok_i(&T) : 0;
        uint8_t e = w->write(&c->da, slots[h].m, slots[h].p, tag, g); if (e) err(o, e); else out_raw(o, "ok");
    } else if (IS("lwrite")) {
        Cur *c = &sinks[tok_i(&T)]; List *l = &lists[tok_i(&T)]; uint8_t e = 0;
        for (size_t i = 0; i < l->n && !e; i++) e = w->write(&c->da, w->mt(l->l[i]), l->l[i], true, 1);
        if (e) err(o, e); else out_raw(o, "ok");
    } else if (IS("lpack")) {
        Cur *c = &sinks[tok_i(&T)]; List *l = &lists[tok_i(&T)];
        uint8_t e = w->pack(l->l, l->n, &c->da); if (e) err(o, e); else out_raw(o, "ok");
    } else if (IS("alloc")) { fail_after = tok_i(&T); fail_sticky = n > T.i ? (int)tok_i(&T) : 0; total_allocs = 0; failed_allocs = 0; out_raw(o, "ok");
    } else if (IS("zalloc")) { zero_null = (int)tok_i(&T); out_raw(o, "ok");
    } else if (IS("live")) { out_raw(o, "ok"); out_i(o, live); out_i(o, live_bytes); out_i(o, total_allocs); out_i(o, failed_allocs);
    } else { out_raw(o, "fatal unknown op "); out_raw(o, op); }
done:
    free(tv);
}

static void *task_main(void *a) {
    self = a;
    while (sem_wait(&self->run) != 0) {}
    run(self->line, &self->out);
    self->state = 2;
    sem_post(&ctl);
    return NULL;
}

static void reply(const char *s) {
    size_t n = strlen(s), k = 0; ssize_t r;
    while (k < n) { r = write(1, s + k, n - k); if (r < 0) { if (errno == EINTR) continue; _exit(98); } k += (size_t)r; }
    if (write(1, "\n", 1) != 1) _exit(98);
}

static void step(Task *t, Out *o) {
    sem_post(&t->run);
    while (sem_wait(&ctl) != 0) {}
    if (t->state == 1) { out_raw(o, "park "); out_raw(o, t->park); }
    else { pthread_join(t->th, NULL); out_raw(o, "done "); out_raw(o, t->out.b ? t->out.b : ""); free(t->out.b); free(t->line); t->used = 0; }
}

int main(void) {
    char *line = NULL; size_t cap = 0;
    sem_init(&ctl, 0, 0);
    while (getline(&line, &cap, stdin) > 0) {
        Out o = { 0 };
        bad[0] = 0;
        out_raw(&o, "");
        if (strncmp(line, "spawn ", 6) == 0) {
            char *e; long id = strtol(line + 6, &e, 10); Task *t = &tasks[id];
            memset(t, 0, sizeof *t); t->used = 1; t->line = strdup(e + 1); sem_init(&t->run, 0, 0); t->act[0] = 'k';
            pthread_create(&t->th, NULL, task_main, t); step(t, &o);
        } else if (strncmp(line, "resume ", 7) == 0) {
            char *e; long id = strtol(line + 7, &e, 10); Task *t = &tasks[id];
            snprintf(t->act, sizeof t->act, "%s", e + 1); step(t, &o);
        } else run(line, &o);
        if (bad[0]) { Out p = { 0 }; out_raw(&p, "bad "); out_raw(&p, bad); reply(p.b); free(p.b); }
        else reply(o.b);
        free(o.b);
    }
    return 0;
}
