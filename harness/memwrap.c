#include "memwrap.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <sanitizer/asan_interface.h>
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t);
void* __real__Znwm(size_t); void* __real__Znam(size_t); void __real__ZdlPv(void*); void __real__ZdaPv(void*);
int mw_inlib=0, mw_place=0, mw_fill=0xA5; long mw_fail_at=0, mw_total=0;
static unsigned rot=0; static uint32_t rnd=12345;
typedef struct blk { char* p; char* raw; size_t n; size_t rawn; } blk;
static blk* tab=0; static long nblk=0, cap=0;
static long find_idx(const void* p){ for(long i=nblk-1;i>=0;i--) if(tab[i].p==(char*)p) return i; return -1; }
static void add(blk b){ if(nblk==cap){ cap=cap?cap*2:1024; tab=(blk*)__real_realloc(tab,cap*sizeof(blk)); } tab[nblk++]=b; }
static void fill(char* p,size_t n){ if(mw_fill>=0) memset(p,mw_fill,n); else for(size_t i=0;i<n;i++){ rnd=rnd*1664525u+1013904223u; p[i]=(char)(rnd>>24);} }
static void* alloc_tracked(size_t n){
	mw_total++;
	if(mw_fail_at>0 && --mw_fail_at==0) return NULL;
	if(n > ((size_t)1<<31)) return NULL;
	size_t rawn = n+192; char* raw=(char*)__real_malloc(rawn); if(!raw) return NULL;
	int pl = mw_place<4 ? mw_place : (int)((rot++)*2654435761u>>30);
	char* p=(char*)(((uintptr_t)raw+127)&~(uintptr_t)63) + 16*pl;  /* p-raw in [64,191-..] */
	if(p+n>raw+rawn) p-=64;
	blk b={p,raw,n,rawn}; add(b);
	fill(p,n);
	ASAN_POISON_MEMORY_REGION(raw,p-raw);
	ASAN_POISON_MEMORY_REGION(p+n,raw+rawn-(p+n));
	return p;
}
static int free_tracked(void* p){
	long i=find_idx(p); if(i<0) return 0;
	blk b=tab[i]; tab[i]=tab[--nblk];
	ASAN_UNPOISON_MEMORY_REGION(b.raw,b.rawn);
	__real_free(b.raw); return 1;
}
long mw_live(void){ return nblk; }
void* mw_find(const void* q,size_t* size){ for(long i=0;i<nblk;i++) if((char*)q>=tab[i].p && (char*)q<tab[i].p+tab[i].n){ *size=tab[i].n; return tab[i].p; } return NULL; }
int mw_is_block(const void* p){ return find_idx(p)>=0; }
void* mw_user_malloc(size_t n){ long f=mw_fail_at; mw_fail_at=0; void* p=alloc_tracked(n); mw_fail_at=f; return p; }
void mw_free(void* p){ if(p && !free_tracked(p)) __real_free(p); }
void* __wrap_malloc(size_t n){ return mw_inlib?alloc_tracked(n):__real_malloc(n); }
void __wrap_free(void* p){ if(p && !free_tracked(p)) __real_free(p); }
void* __wrap_calloc(size_t a,size_t b){ if(!mw_inlib) return __real_calloc(a,b);
	if(b && a>((size_t)1<<31)/b) return NULL; void* p=alloc_tracked(a*b); if(p) memset(p,0,a*b); return p; }
void* __wrap_realloc(void* q,size_t n){
	if(!q) return __wrap_malloc(n);
	long i=find_idx(q); if(i<0) return __real_realloc(q,n);
	size_t old=tab[i].n; void* p=alloc_tracked(n); if(!p) return NULL;
	memcpy(p,q,old<n?old:n); free_tracked(q); return p; }
void* __wrap__Znwm(size_t n){ return mw_inlib?alloc_tracked(n):__real__Znwm(n); }
void* __wrap__Znam(size_t n){ return mw_inlib?alloc_tracked(n):__real__Znam(n); }
void __wrap__ZdlPv(void* p){ if(p && !free_tracked(p)) __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p){ if(p && !free_tracked(p)) __real__ZdaPv(p); }
void __wrap__ZdlPvm(void* p,size_t n){ (void)n; __wrap__ZdlPv(p); }
void __wrap__ZdaPvm(void* p,size_t n){ (void)n; __wrap__ZdaPv(p); }
