// Deterministic scheduler: the bodies run on real threads (so thread-local state is really per caller), but only the holder of
// the baton runs; the baton moves only inside the hooks the compiler inserts before every memory access of library code, inside
// wrapped libc memory and string calls, and at allocations, and only where the plan says so.
#include "sim.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <errno.h>
void step_tick(); void fiber_rand_reset(); void stack_garbage(u8*base,size_t sz,u64 salt); extern u8* g_shadow;
static const int MAXF=4; static u8* const FST=(u8*)0x500000000000ull; static const size_t FSZ=512u<<10, FGAP=64u<<10;
struct Fiber { const std::function<void()>*body; Out out{O_RET,0}; bool done=false; u64 acc=0; sem_t sem; pthread_t th; std::vector<SwitchPt> sw; size_t nsw=0; std::vector<Hot>*hot=nullptr; };
static Fiber* F[MAXF]; static int NF=0; static sem_t g_main; static __thread int t_id=-1; static int g_holder=-1; static u64 g_switches,g_total; static u64 g_quantum; static Rng g_qr(1);
static std::vector<std::pair<uintptr_t,uintptr_t>> g_watch; static u64 g_maxsw;
int sched_current(){ return t_id; }
static void handover(int to){ g_holder=to; sem_post(&F[to]->sem); }
static void await(int me){ while(sem_wait(&F[me]->sem)) {} }
static void switch_to(int to){ int me=t_id; if(to==me||to<0||to>=NF||F[to]->done||!F[to]->body) return; g_switches++; S->switches++; fault(F_CTX_SWITCH); ev(0xD1,(u64)to,F[me]->acc); tracef("caller %d stops at access %llu, caller %d goes on",me,(unsigned long long)F[me]->acc,to); int lib=g_in_lib,e=errno; handover(to); await(me); g_in_lib=lib; errno=e; }
static int next_alive(int from){ for(int k=1;k<=NF;k++){ int i=(from+k)%NF; if(!F[i]->done) return i; } return -1; }
static void finish(){ int me=t_id; F[me]->done=true; tracef("caller %d is done after %llu accesses",me,(unsigned long long)F[me]->acc); int n=next_alive(me); if(n<0) sem_post(&g_main); else handover(n); }
bool sched_exit(Out o){ F[t_id]->out=o; g_in_lib=0; finish(); for(;;) pause(); }
static void* thread_main(void*a){ t_id=(int)(intptr_t)a; await(t_id); Fiber&f=*F[t_id]; try { g_in_lib=1; (*f.body)(); g_in_lib=0; f.out=Out{O_RET,0}; } catch(std::bad_alloc&){ g_in_lib=0; f.out=Out{O_EXC,1}; } catch(std::exception&){ g_in_lib=0; f.out=Out{O_EXC,2}; } finish(); return nullptr; }
extern char __data_start,_end;
static inline bool is_static(uintptr_t a){ if(a<(uintptr_t)&__data_start||a>=(uintptr_t)&_end) return false; return a!=(uintptr_t)&stdout&&a!=(uintptr_t)&stderr&&a!=(uintptr_t)&stdin; }
static void point(){ Fiber&f=*F[t_id]; S->accesses++; g_total++; while(f.nsw<f.sw.size()&&f.sw[f.nsw].at<=f.acc){ int to=f.sw[f.nsw++].to; if(to!=t_id&&to<NF&&!F[to]->done){ fault(F_PREEMPT_POINT); switch_to(to); } } if(g_quantum&&g_switches<g_maxsw&&g_qr.below(g_quantum)==0){ int to=(t_id+1+(int)g_qr.below(NF>1?NF-1:1))%NF; if(to!=t_id&&!F[to]->done){ fault(F_PREEMPT_POINT); switch_to(to); } } f.acc++; }
static void hot(u64 at,int kind){ Fiber&f=*F[t_id]; if(f.hot&&f.hot->size()<4096) f.hot->push_back({at,kind}); }
static inline void touch(const void*p,size_t n,bool wr){ if(!g_in_lib||t_id<0) return; uintptr_t a=(uintptr_t)p; uintptr_t lo=(uintptr_t)FST+t_id*(FSZ+FGAP); if(a-lo<FSZ) return; step_tick();
  if(in_arena(p)){ const u8*s=g_shadow+(a-0x200000000000ull); for(size_t i=0;i<n;i++) if(s[i]) { violate("memory:C11:"+std::string(g_where),"%s of memory that no longer belongs to anybody or never did, while callers run side by side",wr?"write":"read"); } if(wr) for(auto&w:g_watch) if(a<w.second&&a+n>w.first){ hot(F[t_id]->acc,2); break; } }
  else if(is_static(a)) hot(F[t_id]->acc,wr?1:0);
  point(); }
void sched_run(const std::vector<std::function<void()>>&bodies,const SchedCfg&c,SchedResult&r){
  NF=(int)std::min<size_t>(bodies.size(),MAXF); g_switches=0; g_total=0; g_quantum=c.quantum; g_qr=Rng(c.qseed); g_maxsw=c.maxsw; g_watch=c.watch; r.out.assign(NF,Out{O_RET,0}); r.acc.assign(NF,0); r.hot.assign(NF,{}); fiber_rand_reset(); sem_init(&g_main,0,0);
  static bool mapped=false; if(!mapped){ mapped=true; void*m=mmap(FST-FGAP,(FSZ+FGAP)*MAXF+FGAP,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(m==MAP_FAILED){ perror("fiber stacks"); _exit(2); } for(int i=0;i<MAXF;i++) mprotect(FST+i*(FSZ+FGAP),FSZ,PROT_READ|PROT_WRITE); }
  std::vector<Fiber> fs(NF); for(int i=0;i<NF;i++){ F[i]=&fs[i]; fs[i].body=&bodies[i]; sem_init(&fs[i].sem,0,0); fs[i].hot=&r.hot[i]; for(auto&s:c.sw) if(s.fiber==i) fs[i].sw.push_back(s); std::stable_sort(fs[i].sw.begin(),fs[i].sw.end(),[](const SwitchPt&a,const SwitchPt&b){ return a.at<b.at; }); u8*st=FST+i*(FSZ+FGAP); stack_garbage(st,FSZ,900+i);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,st,FSZ); if(pthread_create(&fs[i].th,&at,thread_main,(void*)(intptr_t)i)){ dprintf(2,"simulator: no thread\n"); _exit(2); } pthread_attr_destroy(&at); }
  handover(((c.first%NF)+NF)%NF); while(sem_wait(&g_main)) {}
  bool stuck=false; for(int i=0;i<NF;i++){ if(fs[i].out.kind==O_RET||fs[i].out.kind==O_EXC) pthread_join(fs[i].th,nullptr); else stuck=true; r.out[i]=fs[i].out; r.acc[i]=fs[i].acc; ev(0xD2,fs[i].acc,fs[i].out.kind); } r.switches=g_switches; r.total=g_total; S->ops+=NF; if(stuck){ static std::vector<Fiber> keep; keep.swap(fs); for(int i=0;i<NF;i++) F[i]=&keep[i]; } g_in_lib=0; }
// ------------------------------------------------------------------ hooks the compiler inserts
extern "C" {
#define RW(n) void __tsan_read##n(void*p){ touch(p,n,false); } void __tsan_write##n(void*p){ touch(p,n,true); } void __tsan_unaligned_read##n(void*p){ touch(p,n,false); } void __tsan_unaligned_write##n(void*p){ touch(p,n,true); } void __tsan_read_write##n(void*p){ touch(p,n,false); touch(p,n,true); } void __tsan_unaligned_read_write##n(void*p){ touch(p,n,false); touch(p,n,true); } void __tsan_volatile_read##n(void*p){ touch(p,n,false); } void __tsan_volatile_write##n(void*p){ touch(p,n,true); } void __tsan_unaligned_volatile_read##n(void*p){ touch(p,n,false); } void __tsan_unaligned_volatile_write##n(void*p){ touch(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){ touch(p,n,false); } void __tsan_write_range(void*p,unsigned long n){ touch(p,n,true); }
void __tsan_init(void){} void __tsan_func_entry(void*){ if(g_in_lib&&t_id>=0) step_tick(); } void __tsan_func_exit(void){} void __tsan_vptr_update(void**p,void*){ touch(p,8,true); } void __tsan_vptr_read(void**p){ touch(p,8,false); }
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){} void __tsan_acquire(void*){} void __tsan_release(void*){}
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
#define AT(b,T) T __tsan_atomic##b##_load(const volatile T*p,int){ touch((void*)p,sizeof(T),false); return *p; } void __tsan_atomic##b##_store(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); *p=v; } T __tsan_atomic##b##_exchange(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=v; return o; } T __tsan_atomic##b##_fetch_add(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=(T)(o+v); return o; } T __tsan_atomic##b##_fetch_sub(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=(T)(o-v); return o; } T __tsan_atomic##b##_fetch_or(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=(T)(o|v); return o; } T __tsan_atomic##b##_fetch_and(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=(T)(o&v); return o; } T __tsan_atomic##b##_fetch_xor(volatile T*p,T v,int){ touch((void*)p,sizeof(T),true); T o=*p; *p=(T)(o^v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ touch((void*)p,sizeof(T),true); if(*p==*e){ *p=v; return 1; } *e=*p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T*p,T*e,T v,int,int){ return __tsan_atomic##b##_compare_exchange_strong(p,e,v,0,0); } T __tsan_atomic##b##_compare_exchange_val(volatile T*p,T e,T v,int,int){ touch((void*)p,sizeof(T),true); T o=*p; if(o==e) *p=v; return o; }
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned) AT(64,unsigned long)
// libc calls of library code: shown to the scheduler piece by piece
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t); char* __real_strtok(char*,const char*);
static size_t piece(size_t n){ return std::max<size_t>(16,n/24+1); }
void* __wrap_memcpy(void*d,const void*s,size_t n){ if(!g_in_lib||t_id<0) return __real_memcpy(d,s,n); size_t k=piece(n); for(size_t i=0;i<n;i+=k){ size_t m=std::min(k,n-i); touch((const u8*)s+i,m,false); touch((u8*)d+i,m,true); __real_memcpy((u8*)d+i,(const u8*)s+i,m); } return d; }
void* __wrap_memmove(void*d,const void*s,size_t n){ if(!g_in_lib||t_id<0) return __real_memmove(d,s,n); touch(s,n,false); touch(d,n,true); return __real_memmove(d,s,n); }
void* __wrap_memset(void*d,int c,size_t n){ if(!g_in_lib||t_id<0) return __real_memset(d,c,n); size_t k=piece(n); for(size_t i=0;i<n;i+=k){ size_t m=std::min(k,n-i); touch((u8*)d+i,m,true); __real_memset((u8*)d+i,c,m); } return d; }
char* __wrap_strtok(char*a,const char*b){ if(g_in_lib&&t_id>=0){ hot(F[t_id]->acc,1); point(); } return __real_strtok(a,b); }
int __real_pthread_mutex_lock(pthread_mutex_t*); 
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(!g_in_lib||t_id<0) return __real_pthread_mutex_lock(m); for(u64 n=0;;n++){ step_tick(); int e=pthread_mutex_trylock(m); if(e!=EBUSY) return e; if(n>100000) violate("C11:deadlock","a caller waits for a lock that is never given back"); int t=next_alive(t_id); if(t==t_id) violate("C11:deadlock","a caller waits for a lock nobody will give back"); switch_to(t); } }
}
