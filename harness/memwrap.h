#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* Environment model of the heap: every allocation the library makes goes through here (ld --wrap).
   The environment chooses the address modulo 64, the initial contents of fresh memory, and which
   allocation fails; it keeps the ledger of blocks that are still live. */
extern int  mw_inlib;      /* 1 while control is inside a library call */
extern int  mw_place;      /* 0..3: address mod 64 is 0,16,32,48; 4: rotates */
extern int  mw_fill;       /* byte for fresh memory; -1: pseudo-random bytes */
extern long mw_fail_at;    /* >0: the n-th library allocation from now returns NULL */
extern long mw_total;      /* allocations made by the library so far */
long   mw_live(void);      /* blocks allocated inside library calls and not freed */
/* the live block that contains p: returns its start and size, or NULL */
void*  mw_find(const void* p, size_t* size);
/* allocate a block on behalf of the caller but in the ledger (ownership passes to the library) */
void*  mw_user_malloc(size_t n);
int    mw_is_block(const void* p); /* p is the start of a live ledger block */
void   mw_free(void* p);
#ifdef __cplusplus
}
#endif
