/* Shared declarations between the C worker runtime and the per-world glue. */
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

void *sim_malloc(size_t n);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);

typedef struct { char **t; int n; int i; } Tok;
typedef struct { char *b; size_t n, cap; } Out;
typedef struct { uint8_t *buffer; size_t bufferSize; size_t position; } DA;

void out_u(Out *o, uint64_t v);
void out_i(Out *o, int64_t v);
void out_s(Out *o, const void *s, size_t n);
void out_raw(Out *o, const char *s);
uint64_t tok_u(Tok *t);
int64_t tok_i(Tok *t);
char *tok_s(Tok *t, size_t *n); /* sim-allocated copy with a terminator */

typedef struct {
    int nmsg;
    void *(*create)(int m);
    void *(*copydefault)(int m);
    void *(*raw)(int m);           /* uninitialised storage */
    int (*mt)(const void *p);
    void (*load)(int m, void *p, Tok *t);
    void (*refill)(int m, void *p, Tok *t);
    void (*dump)(int m, const void *p, Out *o);
    uint8_t (*size)(int m, const void *p, size_t *n, int generic);
    uint8_t (*write)(DA *w, int m, const void *p, bool tag, int generic);
    uint8_t (*read)(DA *r, int m, void *p);
    void (*destroy)(int m, void *p, int flavor); /* 0 X_Destroy, 1 generic Destroy, 2 Cleanup + free */
    uint8_t (*proc)(DA *r, int32_t max, void ***l, size_t *n);
    uint8_t (*unpack)(DA *r, void ***l, size_t *n);
    uint8_t (*destroylist)(void **l, size_t n);
    uint8_t (*psize)(void **l, size_t n, size_t *sz);
    uint8_t (*pack)(void **l, size_t n, DA *w);
    bool (*finished)(const DA *r);
} World;
#endif
