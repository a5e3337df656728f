// Controlled OpenMP runtime: the virtual threads of a parallel region are coroutines on separate stacks, run in a chosen order between
// barriers, and every memory access of the instrumented code (compiled with -fsanitize=thread, linked against this file instead of the
// sanitizer runtime) is recorded per virtual thread.  A location written by one thread and touched by another between two barriers is a
// conflict: without conflicts all interleavings of the region have the same effect as the executed one.
// env: VOMP_N threads, VOMP_ORDER permutation (e.g. 2,0,1)
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#define MAXT 32
#define STK (16u<<20)
static int N=1, order[MAXT], inited;
static int cur=-1;               // virtual thread executing, -1 outside
static int inreg, locked;
static uint32_t epoch=1;
static ucontext_t sched, ctx[MAXT]; static char*stk[MAXT]; static int done[MAXT];
static void (*rfn)(void*); static void*rdata;
static long st_regions, st_acc, st_conf, st_phases, st_conflines;
static int single_seen[MAXT], single_done, loop_gen[MAXT], loop_cur;
static struct { long start,end,incr,next; unsigned long long ns,ne,ni; int dyn; } L[64];
static void init(void){ if(inited) return; inited=1; const char*s=getenv("VOMP_N"); N=s?atoi(s):1; if(N<1)N=1; if(N>MAXT)N=MAXT; for(int i=0;i<MAXT;i++) order[i]=i; s=getenv("VOMP_ORDER"); if(s&&*s){ int i=0; while(*s&&i<N){ order[i++]=strtol(s,(char**)&s,10); if(*s==',') s++; } } }
//------------------------------------------------------------ access sets
typedef struct { uintptr_t key; uint32_t ep; uint8_t w[8], r[8]; void*wpc; } rec;
#define HB 20
static rec*H; static long hused; static uint32_t regep;
static rec*look(uintptr_t k){ uintptr_t h=(k*0x9E3779B97F4A7C15ull)>>(64-HB); for(;;){ rec*x=&H[h]; if(x->ep<regep||!x->ep){ x->key=k; x->ep=epoch; memset(x->w,0,16); x->wpc=0; hused++; return x; } if(x->key==k){ if(x->ep!=epoch){ x->ep=epoch; memset(x->w,0,16); x->wpc=0; } return x; } h=(h+1)&((1u<<HB)-1); } }
static struct { void*a,*b; int kind; } seen[4096]; static int nseen;
static void conflict(uintptr_t a,void*p1,void*p2,int t1,int t2,int kind){ st_conf++; for(int i=0;i<nseen;i++) if(seen[i].a==p1&&seen[i].b==p2&&seen[i].kind==kind) return; if(nseen<4096){ seen[nseen].a=p1;seen[nseen].b=p2;seen[nseen].kind=kind;nseen++; }
  int fd=open("conflicts",O_CREAT|O_WRONLY|O_APPEND,0600); if(fd>=0){ char b[256]; extern char __executable_start; int n=snprintf(b,256,"%s %lx %lx fn %lx\n",kind==0?"write/write":kind==1?"write/read":"read/write",(long)((char*)p1-&__executable_start),(long)((char*)p2-&__executable_start),(long)((char*)(void*)rfn-&__executable_start)); if(write(fd,b,n)){} close(fd);} st_conflines++; }
// writes of the same value by several threads (num = omp_get_num_threads() and the like) are no conflict: the value found before the second
// write is compared with the one found at the next event
static struct { uintptr_t a; uint64_t v; int n; void*p1,*p2; } pend[16]; static int npend;
static uint64_t val(uintptr_t a,int n){ uint64_t v=0; for(int i=0;i<n;i++) v|=(uint64_t)*(volatile uint8_t*)(a+i)<<(8*i); return v; }
static void flush_pend(void){ int n=npend; npend=0; for(int i=0;i<n;i++) if(val(pend[i].a,pend[i].n)!=pend[i].v) conflict(pend[i].a,pend[i].p1,pend[i].p2,0,0,0); }
static inline void acc(uintptr_t a,int n,int wr,void*pc){ if(cur<0) return; st_acc++; 
  if(a>=(uintptr_t)stk[cur]&&a<(uintptr_t)stk[cur]+STK) return;
  if(npend) flush_pend();
  if(locked) wr=0;
  int ww=0; uintptr_t a0=a; int n0=n; void*wp=0;
  uint8_t me=cur+1;
  while(n>0){ uintptr_t k=a>>3; int o=a&7, m=8-o; if(m>n) m=n; rec*x=look(k);
    for(int i=o;i<o+m;i++){
      if(x->w[i]&&x->w[i]!=me) { if(wr&&n0<=8){ ww=1; wp=x->wpc; } else conflict(a,x->wpc,pc,x->w[i]-1,cur,wr?0:1); }
      if(wr){ if(x->r[i]&&x->r[i]!=me) conflict(a,x->wpc,pc,x->r[i]-1,cur,2); x->w[i]=me; x->wpc=pc; }
      else if(!x->r[i]) x->r[i]=me; else if(x->r[i]!=me) x->r[i]=0xff; }
    a+=m; n-=m; }
  if(ww&&npend<16){ pend[npend].a=a0; pend[npend].n=n0; pend[npend].v=val(a0,n0); pend[npend].p1=wp; pend[npend].p2=pc; npend++; } }
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void*a){acc((uintptr_t)a,n,0,PC);} void __tsan_write##n(void*a){acc((uintptr_t)a,n,1,PC);} void __tsan_unaligned_read##n(void*a){acc((uintptr_t)a,n,0,PC);} void __tsan_unaligned_write##n(void*a){acc((uintptr_t)a,n,1,PC);} \
 void __tsan_volatile_read##n(void*a){acc((uintptr_t)a,n,0,PC);} void __tsan_volatile_write##n(void*a){acc((uintptr_t)a,n,1,PC);} void __tsan_unaligned_volatile_read##n(void*a){acc((uintptr_t)a,n,0,PC);} void __tsan_unaligned_volatile_write##n(void*a){acc((uintptr_t)a,n,1,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,unsigned long n){acc((uintptr_t)a,n,0,PC);} void __tsan_write_range(void*a,unsigned long n){acc((uintptr_t)a,n,1,PC);}
void __tsan_init(void){} void __tsan_func_entry(void*p){} void __tsan_func_exit(void){} void __tsan_vptr_update(void**a,void*b){} void __tsan_vptr_read(void**a){}
#define AT(b,T) T __tsan_atomic##b##_load(const volatile T*a,int m){return *a;} void __tsan_atomic##b##_store(volatile T*a,T v,int m){*a=v;} T __tsan_atomic##b##_exchange(volatile T*a,T v,int m){T o=*a;*a=v;return o;} \
 T __tsan_atomic##b##_fetch_add(volatile T*a,T v,int m){T o=*a;*a=o+v;return o;} T __tsan_atomic##b##_fetch_sub(volatile T*a,T v,int m){T o=*a;*a=o-v;return o;} T __tsan_atomic##b##_fetch_and(volatile T*a,T v,int m){T o=*a;*a=o&v;return o;} T __tsan_atomic##b##_fetch_or(volatile T*a,T v,int m){T o=*a;*a=o|v;return o;} T __tsan_atomic##b##_fetch_xor(volatile T*a,T v,int m){T o=*a;*a=o^v;return o;} \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T*a,T*c,T v,int m,int n){ if(*a==*c){*a=v;return 1;} *c=*a;return 0;} int __tsan_atomic##b##_compare_exchange_weak(volatile T*a,T*c,T v,int m,int n){ if(*a==*c){*a=v;return 1;} *c=*a;return 0;} T __tsan_atomic##b##_compare_exchange_val(volatile T*a,T c,T v,int m,int n){ T o=*a; if(o==c)*a=v; return o;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int m){} void __tsan_atomic_signal_fence(int m){}
//------------------------------------------------------------ library calls inside regions
void*__real_memset(void*,int,size_t); void*__real_memcpy(void*,const void*,size_t); void*__real_memmove(void*,const void*,size_t);
void*__wrap_memset(void*a,int c,size_t n){ if(cur>=0) acc((uintptr_t)a,n,1,PC); return __real_memset(a,c,n);} 
void*__wrap_memcpy(void*a,const void*b,size_t n){ if(cur>=0){ acc((uintptr_t)b,n,0,PC); acc((uintptr_t)a,n,1,PC);} return __real_memcpy(a,b,n);} 
void*__wrap_memmove(void*a,const void*b,size_t n){ if(cur>=0){ acc((uintptr_t)b,n,0,PC); acc((uintptr_t)a,n,1,PC);} return __real_memmove(a,b,n);} 
void __real_free(void*); static void**quar; static long nq,cq;
void __wrap_free(void*p){ if(!inreg){ __real_free(p); return; } if(nq==cq){ cq=cq?2*cq:1024; quar=realloc(quar,cq*sizeof(void*)); } quar[nq++]=p; }
//------------------------------------------------------------ regions
static void*fns[1024]; static int nfn;
static void yield_(void){ if(npend) flush_pend(); int me=cur; cur=-1; swapcontext(&ctx[me],&sched); cur=me; }
static void entry(int i){ cur=i; rfn(rdata); if(npend) flush_pend(); done[i]=1; cur=-1; swapcontext(&ctx[i],&sched); }
void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned flags){ init();
  if(inreg||cur>=0){ fn(data); return; }
  int nt = n? (int)n : N; if(nt>MAXT) nt=MAXT; int sN=N; 
  if(!H) { H=mmap(0,sizeof(rec)<<HB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); }
  if(hused>(1l<<HB)*3/4||1){ }
  { int i; for(i=0;i<nfn&&fns[i]!=(void*)fn;i++); if(i==nfn&&nfn<1024) fns[nfn++]=(void*)fn; }
  st_regions++; inreg=nt; rfn=fn; rdata=data; epoch++; regep=epoch; hused=0; loop_cur=0; single_done=0; locked=0;
  for(int i=0;i<nt;i++){ done[i]=0; loop_gen[i]=0; single_seen[i]=0; if(!stk[i]) stk[i]=mmap(0,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp=stk[i]; ctx[i].uc_stack.ss_size=STK; ctx[i].uc_link=0; makecontext(&ctx[i],(void(*)(void))entry,1,i); }
  memset(L,0,sizeof L);
  for(int left=nt;left;){ st_phases++; for(int q=0;q<nt;q++){ int i= nt==N? order[q]: q; if(done[i]) continue; swapcontext(&sched,&ctx[i]); if(done[i]) left--; } epoch++; regep=epoch; }
  cur=-1; inreg=0; N=sN; for(long i=0;i<nq;i++) __real_free(quar[i]); nq=0;
}
void GOMP_barrier(void){ if(cur>=0) yield_(); }
bool GOMP_barrier_cancel(void){ GOMP_barrier(); return false; }
static void lock_(void){ if(cur>=0) locked++; } static void unlock_(void){ if(cur>=0) locked--; }
void GOMP_critical_start(void){lock_();} void GOMP_critical_end(void){unlock_();} void GOMP_critical_name_start(void**p){lock_();} void GOMP_critical_name_end(void**p){unlock_();} void GOMP_atomic_start(void){lock_();} void GOMP_atomic_end(void){unlock_();}
bool GOMP_single_start(void){ if(cur<0) return true; single_seen[cur]++; if(single_seen[cur]>single_done){ single_done=single_seen[cur]; return true; } return false; }
// work sharing with runtime scheduling: chunks go to the threads in the order they ask
static int loop_enter(long s,long e,long in){ if(cur<0){ loop_cur=0; L[0].start=s;L[0].end=e;L[0].incr=in;L[0].next=s;L[0].dyn=1; return 0; } int g=loop_gen[cur]; if(g>=64) abort(); if(!L[g].dyn){ L[g].dyn=1; L[g].start=s;L[g].end=e;L[g].incr=in;L[g].next=s; } return g; }
static bool loop_take(int g,long chunk,long*a,long*b){ if(chunk<1) chunk=1; long in=L[g].incr; if(in>0? L[g].next>=L[g].end : L[g].next<=L[g].end) return false; *a=L[g].next; *b=*a+chunk*in; if(in>0? *b>L[g].end : *b<L[g].end) *b=L[g].end; L[g].next=*b; if(cur>=0){ } return true; }
static long lchunk[MAXT+1];
#define LOOP(nm) bool GOMP_loop_##nm##_start(long s,long e,long in,long ch,long*a,long*b){ int g=loop_enter(s,e,in); lchunk[cur+1]=ch; return loop_take(g,ch,a,b);} bool GOMP_loop_##nm##_next(long*a,long*b){ bool r=loop_take(cur<0?0:loop_gen[cur],lchunk[cur+1],a,b); return r;} \
 struct pl_##nm{int x;}; void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long in,long ch,unsigned fl){ pre(s,e,in,ch); GOMP_parallel2(fn,d,n,fl,s,e,in,ch);} 
#define LOOPR(nm) bool GOMP_loop_##nm##_start(long s,long e,long in,long*a,long*b){ int g=loop_enter(s,e,in); lchunk[cur+1]=1; return loop_take(g,1,a,b);} bool GOMP_loop_##nm##_next(long*a,long*b){ return loop_take(cur<0?0:loop_gen[cur],lchunk[cur+1],a,b);} \
 void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long in,unsigned fl){ pre(s,e,in,1); GOMP_parallel2(fn,d,n,fl,s,e,in,1);} 
static int pre_on; static long pre_s,pre_e,pre_i,pre_c;
static void pre(long s,long e,long in,long c){ pre_on=1;pre_s=s;pre_e=e;pre_i=in;pre_c=c; }
static void (*pl_fn)(void*); static void pl_tramp(void*d){ if(cur>=0){ loop_enter(pre_s,pre_e,pre_i); } lchunk[cur+1]=pre_c; pl_fn(d); }
static void GOMP_parallel2(void(*fn)(void*),void*d,unsigned n,unsigned fl,long s,long e,long in,long c){ if(inreg){ loop_enter(s,e,in); fn(d); return; } pl_fn=fn; GOMP_parallel(pl_tramp,d,n,fl); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void){ if(cur>=0){ loop_gen[cur]++; yield_(); } } void GOMP_loop_end_nowait(void){ if(cur>=0) loop_gen[cur]++; }
// sections
static unsigned sec_n[MAXT+1];
unsigned GOMP_sections_start(unsigned n){ long a,b; int g=loop_enter(1,(long)n+1,1); return loop_take(g,1,&a,&b)?(unsigned)a:0; }
unsigned GOMP_sections_next(void){ long a,b; return loop_take(cur<0?0:loop_gen[cur],1,&a,&b)?(unsigned)a:0; }
void GOMP_sections_end(void){GOMP_loop_end();} void GOMP_sections_end_nowait(void){GOMP_loop_end_nowait();}
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned c,unsigned fl){ pre(1,(long)c+1,1,1); GOMP_parallel2(fn,d,n,fl,1,(long)c+1,1,1); }
void GOMP_ordered_start(void){} void GOMP_ordered_end(void){}
int omp_get_thread_num(void){ return cur<0?0:cur; } int omp_get_num_threads(void){ return inreg?inreg:1; } int omp_get_max_threads(void){ init(); return N; } int omp_get_num_procs(void){ init(); return N; } int omp_in_parallel(void){ return inreg>1; } void omp_set_num_threads(int n){ init(); if(n>=1) N=n; } int omp_get_thread_limit(void){return MAXT;} void omp_set_dynamic(int d){} void omp_set_nested(int d){} int omp_get_dynamic(void){return 0;} int omp_get_nested(void){return 0;} int omp_get_level(void){return inreg?1:0;}
double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
typedef struct{int x;} lk; void omp_init_lock(void*l){} void omp_destroy_lock(void*l){} void omp_set_lock(void*l){lock_();} void omp_unset_lock(void*l){unlock_();} int omp_test_lock(void*l){lock_();return 1;}
void vomp_report(void){ int fd=open("vomp",O_CREAT|O_WRONLY|O_TRUNC,0600); char b[200]; int n=snprintf(b,200,"%d %ld %ld %ld %ld %ld\n",N,st_regions,st_phases,st_acc,st_conf,st_conflines); if(write(fd,b,n)){} extern char __executable_start; for(int i=0;i<nfn;i++){ n=snprintf(b,200,"%lx\n",(long)((char*)fns[i]-&__executable_start)); if(write(fd,b,n)){} } close(fd); }
