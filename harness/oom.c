// Allocation-failure injector: interposes malloc, calloc, realloc and their kin for the program and every library it uses; the k-th
// request after the start of the run (or every request from the k-th on) is refused. With bit 2 of the mode the requests are instead
// the writes and truncations of output files (no space left); with bit 3 the refused write is cut in the middle.
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
#include <stddef.h>
#include <errno.h>
extern void*__libc_malloc(size_t); extern void*__libc_calloc(size_t,size_t); extern void*__libc_realloc(void*,size_t); extern void*__libc_memalign(size_t,size_t);
int mc_oom_off=1; long mc_oom_k=0,mc_oom_n=0,mc_oom_last=0; int mc_oom_all=0;
static int refuse(void){ if(mc_oom_off || mc_oom_all&4) return 0; long n=__sync_add_and_fetch(&mc_oom_n,1); if(mc_oom_k && (n==mc_oom_k || (mc_oom_all&1) && n>mc_oom_k)) { errno=ENOMEM; return 1; } return 0; }
void*malloc(size_t n){ return refuse()?NULL:__libc_malloc(n); }
void*calloc(size_t a,size_t b){ return refuse()?NULL:__libc_calloc(a,b); }
void*realloc(void*p,size_t n){ return refuse()?NULL:__libc_realloc(p,n); }
void*memalign(size_t a,size_t n){ return refuse()?NULL:__libc_memalign(a,n); }
void*aligned_alloc(size_t a,size_t n){ return refuse()?NULL:__libc_memalign(a,n); }
int posix_memalign(void**p,size_t a,size_t n){ if(refuse()) return ENOMEM; *p=__libc_memalign(a,n); return *p?0:ENOMEM; }
static int full(void){ if(mc_oom_off || !(mc_oom_all&4)) return 0; long n=__sync_add_and_fetch(&mc_oom_n,1); if(!mc_oom_k) return 0; if(n==mc_oom_k) return mc_oom_all&8?2:1; return (mc_oom_all&1) && n>mc_oom_k; }
ssize_t pwrite(int f,const void*b,size_t n,off_t o){ int q=full(); if(q==1||q==2&&n<2) { errno=ENOSPC; return -1; } return syscall(SYS_pwrite64,f,b,q?n/2:n,o); }
int ftruncate(int f,off_t n){ if(full()) { errno=ENOSPC; return -1; } return syscall(SYS_ftruncate,f,n); }
