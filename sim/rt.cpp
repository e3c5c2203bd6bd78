// Runtime seams: memory allocator, process exit, randomness, clock, simulated stack, lives.
#include "sim.hpp"
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <exception>
#include <algorithm>
#include <execinfo.h>
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
char* __real_strdup(const char*); char* __real_strndup(const char*,size_t);
[[noreturn]] void __real_exit(int); [[noreturn]] void __real_abort(void);
time_t __real_time(time_t*); int __real_rand(void); void __real_srand(unsigned); clock_t __real_clock(void);
}
#ifndef SIM_SCHED
extern "C" {
void __asan_poison_memory_region(void const volatile*,size_t); void __asan_unpoison_memory_region(void const volatile*,size_t);
void __sanitizer_start_switch_fiber(void**,const void*,size_t); void __sanitizer_finish_switch_fiber(void*,const void**,size_t*);
void __asan_set_error_report_callback(void(*)(const char*)); void __asan_handle_no_return(void);
}
const bool SCHED_BUILD=false;
#else
const bool SCHED_BUILD=true;
#endif
const char* g_where="?";
Shm* S; volatile int g_in_lib=0;
bool g_child=false;
const char* FAULT_NAMES[F_N]={"open_fail","read_eio","read_eintr","read_short","write_eio","write_enospc","write_short","close_fail",
 "unlink_fail","rename_fail","seek_fail","disk_full","crash","torn_write","alloc_fail_nth","alloc_fail_nth_and_later","alloc_capacity","corrupt_bytes",
 "truncate_file","garbage_heap","garbage_stack","block_reuse","block_move","context_switch","preemption_point","sdl_init_fail","sdl_surface_fail","sdl_video_fail","sdl_videook_0",
 "sdl_depth_8","sdl_event","sdl_idle_gap","rand_extreme","clock_jump","restart","stale_file","device_stall","huge_block"};

// ------------------------------------------------------------------ events, probes
void ev(u64 tag,u64 a,u64 b){ S->hash=mix64(S->hash^mix64(tag*0x100000001b3ull+a)^(mix64(b+77)<<1)); S->nevents++; }
void tracef(const char*fmt,...){ if(!S->trace_on) return; va_list ap; va_start(ap,fmt); size_t room=sizeof(S->trace)-S->trace_len; if(room<300){va_end(ap);return;}
  int n=vsnprintf(S->trace+S->trace_len,room-2,fmt,ap); va_end(ap); if(n>0){ S->trace_len+=std::min<size_t>(n,room-2); S->trace[S->trace_len++]='\n'; } }
void probe(const char*name,u64 n){ for(int i=0;i<S->nprobes;i++) if(!strcmp(S->probe_names[i],name)){ S->probes[i]+=n; return; }
  if(S->nprobes<NPROBE){ strncpy(S->probe_names[S->nprobes],name,39); S->probes[S->nprobes++]+=n; } }
void fault(FaultKind k,u64 n){ S->faults[k]+=n; }

// ------------------------------------------------------------------ allocator
static u8* const ARENA=(u8*)0x200000000000ull; static const size_t ARENA_SZ=64u<<20;
u8* g_shadow=nullptr;          // sched build: 1 = not addressable
bool in_arena(const void*p){ return (size_t)((u8*)p-ARENA)<ARENA_SZ; }
void mem_poison(void*p,size_t n){ if(!n) return;
#ifndef SIM_SCHED
  __asan_poison_memory_region(p,n);
#else
  memset(g_shadow+((u8*)p-ARENA),1,n);
#endif
}
void mem_unpoison(void*p,size_t n){ if(!n) return;
#ifndef SIM_SCHED
  __asan_unpoison_memory_region(p,n);
#else
  memset(g_shadow+((u8*)p-ARENA),0,n);
#endif
}
struct Block { size_t size,cap; u64 seq; bool live; };
static std::map<uintptr_t,Block>* g_blocks; static std::vector<uintptr_t>* g_freed;
static uintptr_t g_bump; static MemEnv g_me; static Rng g_mr(1); static MemStat g_ms; static u64 g_seq;
static i64 g_armn=-1; static int g_armfrom=0; static i64 g_cap=-1; static u64 g_armcnt=0;
static void arena_init(){
  void*r=mmap(ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r!=(void*)ARENA){ perror("arena"); _exit(2);} 
#ifdef SIM_SCHED
  g_shadow=(u8*)mmap(nullptr,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
#endif
  mem_poison(ARENA,ARENA_SZ);
  g_blocks=new std::map<uintptr_t,Block>; g_freed=new std::vector<uintptr_t>; g_bump=(uintptr_t)ARENA+4096;
}
void mem_config(const MemEnv&e){ g_me=e; g_mr=Rng(e.seed^0x5151); if(e.fill) fault(F_GARBAGE_HEAP); if(e.stackfill) fault(F_GARBAGE_STACK); }
MemEnv mem_from_plan(const Plan&p,u64 salt){ MemEnv e; e.seed=(u64)p.e("mseed",1)^mix64(salt); e.fill=(int)(((u64)p.e("mfill")+salt)%6); e.place=(int)(((u64)p.e("mplace")+salt)%4); e.move=(int)p.e("mmove",1)&1; e.stackfill=(int)(((u64)p.e("mstack")+salt)%4); return e; }
static void fill_pattern(u8*p,size_t n,int mode,Rng&r){
  switch(mode){ case 0: memset(p,0,n); break; case 1: memset(p,0xff,n); break;
    case 2: { size_t i=0; for(;i+8<=n;i+=8){ u64 x=r.next(); memcpy(p+i,&x,8);} u64 x=r.next(); memcpy(p+i,&x,n-i); break; }
    case 3: { size_t i=0; for(;i+4<=n;i+=4){ u32 x=1+(u32)r.below(3); memcpy(p+i,&x,4);} u64 x=1; memcpy(p+i,&x,n-i); break; }
    case 4: { size_t i=0; float f[2]={1e30f,-3.5f}; for(;i+4<=n;i+=4) memcpy(p+i,&f[r.below(2)],4); u64 x=0x55; memcpy(p+i,&x,n-i); break; }
    default: { static const char t[]="b=1,2}samples = 7\n{3.5,"; for(size_t i=0;i<n;i++) p[i]=t[(i+r.below(2))%(sizeof t-1)]; } } }
static void* place(size_t size){
  size_t need=size?size:1;
  if(g_me.place==1||g_me.place==2){
    size_t n=g_freed->size(); size_t start=g_me.place==1? 0: (n? g_mr.below(n):0);
    for(size_t k=0;k<n;k++){ size_t i=g_me.place==1? n-1-k: (start+k)%n; Block&b=(*g_blocks)[(*g_freed)[i]];
      if(b.cap>=need&&b.cap<=need*4+256){ uintptr_t a=(*g_freed)[i]; g_freed->erase(g_freed->begin()+i); b.size=size; b.live=true; fault(F_BLOCK_REUSE); return (void*)a; } } }
  size_t gap=32; if(g_me.place==2) gap=32+16*g_mr.below(40); if(g_me.place==3) gap=32+16*g_mr.below(5);
  uintptr_t a=(g_bump+gap+15)&~(uintptr_t)15; size_t cap=(need+15)&~(size_t)15;
  if(a+cap+64>(uintptr_t)ARENA+ARENA_SZ) return nullptr;
  g_bump=a+cap; Block b; b.size=size; b.cap=cap; b.live=true; b.seq=0; (*g_blocks)[a]=b; return (void*)a;
}
void* (*g_big_alloc)(size_t)=nullptr; int (*g_big_free)(void*)=nullptr; // huge blocks of C19
static void* arena_alloc(size_t size,bool zero){
  LibPause lp; g_ms.attempts++; g_armcnt++;
  ev(0xA1,size);
  bool fail=false;
  if(g_armn>=0){ if((i64)g_armcnt==g_armn) { fail=true; fault(F_ALLOC_NTH); } else if(g_armfrom&&(i64)g_armcnt>g_armn){ fail=true; fault(F_ALLOC_FROM);} }
  if(g_cap>=0&&(i64)(g_ms.bytes+size)>g_cap){ fail=true; fault(F_ALLOC_CAP); }
  if(size>ARENA_SZ/2){ void*q= !fail&&g_big_alloc? g_big_alloc(size):nullptr; if(q) return q; fail=true; }
  void*p=fail?nullptr:place(size);
  if(!p){ g_ms.failed++; ev(0xA2); tracef("alloc %zu -> NULL",size); errno=ENOMEM; return nullptr; }
  Block&b=(*g_blocks)[(uintptr_t)p]; b.seq=++g_seq; g_ms.live++; g_ms.bytes+=size; g_ms.total++; if(g_ms.bytes>g_ms.peak) g_ms.peak=g_ms.bytes;
  mem_unpoison(p,size); if(zero) memset(p,0,size); else if(g_me.fill<5||true){ int m=g_me.fill; if(size>(4u<<20)) m=0; fill_pattern((u8*)p,size,m,g_mr); }
  return p;
}
void* sim_malloc(size_t n){ int s=g_in_lib; g_in_lib=0; i64 a=g_armn,c=g_cap; g_armn=-1; g_cap=-1; void*p=arena_alloc(n,false); g_armn=a; g_cap=c; g_in_lib=s; return p; }
static void arena_free(void*p){
  LibPause lp; auto it=g_blocks->find((uintptr_t)p);
  if(it==g_blocks->end()) violate("memory:invalid-free","free() of a pointer that is not the start of a block");
  Block&b=it->second; if(!b.live) violate("memory:double-free","free() of a block of %zu bytes that is already free",b.size);
  b.live=false; g_ms.live--; g_ms.bytes-=b.size; ev(0xA3,b.size);
  mem_poison(p,b.cap); g_freed->push_back((uintptr_t)p);
}
void sim_free(void*p){ if(p) arena_free(p); }
MemStat mem_stat(){ return g_ms; }
void mem_arm(i64 nth,int from,i64 cap){ g_armn=nth; g_armfrom=from; g_cap=cap; g_armcnt=0; }
size_t block_size(const void*p){ auto it=g_blocks->find((uintptr_t)p); return it==g_blocks->end()||!it->second.live?0:it->second.size; }
bool block_of(const void*p,u8**start,size_t*size){ auto it=g_blocks->upper_bound((uintptr_t)p); if(it==g_blocks->begin()) return false; --it; if(!it->second.live||(uintptr_t)p>it->first+it->second.size) return false; *start=(u8*)it->first; *size=it->second.size; return true; }
std::vector<std::pair<u64,u64>> mem_live(){ std::vector<std::pair<u64,u64>> v; for(auto&k:*g_blocks) if(k.second.live) v.push_back({k.second.seq,k.second.size}); std::sort(v.begin(),v.end()); return v; }
void mem_scribble_free(){ for(uintptr_t a:*g_freed){ Block&b=(*g_blocks)[a]; mem_unpoison((void*)a,b.cap); fill_pattern((u8*)a,b.cap,2,g_mr); mem_poison((void*)a,b.cap);} }
// Poisons everything of the object's own block(s) that belongs neither to the header nor to a data area.
void mem_guard_object(void*obj,size_t objsize,void*d1,size_t n1,void*d2,size_t n2){
  if(!obj||!in_arena(obj)) return; u8*st;size_t sz; if(!block_of(obj,&st,&sz)||st!=obj) return;
  std::vector<std::pair<u8*,u8*>> keep; keep.push_back({st,st+objsize});
  if(d1&&(u8*)d1>=st&&(u8*)d1<st+sz) keep.push_back({(u8*)d1,(u8*)d1+n1});
  if(d2&&(u8*)d2>=st&&(u8*)d2<st+sz) keep.push_back({(u8*)d2,(u8*)d2+n2});
  if(keep.size()<2) return;
  std::sort(keep.begin(),keep.end()); for(auto&k:keep) if(k.second>st+sz) return;   // not the layout we know
  for(size_t i=1;i<keep.size();i++) if(keep[i].first<keep[i-1].second) return;
  mem_poison(st,sz); for(auto&k:keep) mem_unpoison(k.first,k.second-k.first);
}
// ------------------------------------------------------------------ inputs that must not be stored into
struct NoStore { uintptr_t a,b; const char*what; }; NoStore g_ns[64]; int g_nns=0; uintptr_t g_nslo=~0ull,g_nshi=0;
void nostore_add(const void*p,size_t n,const char*w){ if(g_nns<64&&n){ g_ns[g_nns++]={(uintptr_t)p,(uintptr_t)p+n,w}; g_nslo=std::min(g_nslo,(uintptr_t)p); g_nshi=std::max(g_nshi,(uintptr_t)p+n);} }
void nostore_clear(){ g_nns=0; g_nslo=~0ull; g_nshi=0; }

extern "C" {
void* __wrap_malloc(size_t n){ return g_in_lib? arena_alloc(n,false): __real_malloc(n); }
void* __wrap_calloc(size_t a,size_t b){ if(!g_in_lib) return __real_calloc(a,b); size_t n; if(__builtin_mul_overflow(a,b,&n)){ LibPause lp; g_ms.attempts++; g_ms.failed++; return nullptr; } return arena_alloc(n,true); }
void __wrap_free(void*p){ if(!p) return; if(in_arena(p)) arena_free(p); else { LibPause lp; if(g_big_free&&g_big_free(p)) return; __real_free(p);} }
void* __wrap_realloc(void*p,size_t n){
  if(!g_in_lib&&!in_arena(p)) return __real_realloc(p,n);
  if(!p) return arena_alloc(n,false);
  if(!in_arena(p)){ LibPause lp; return __real_realloc(p,n);} 
  auto it=g_blocks->find((uintptr_t)p); if(it==g_blocks->end()||!it->second.live) { LibPause lp; violate("memory:bad-realloc","realloc() of a pointer that is not a live block"); }
  size_t old=it->second.size; size_t cap=it->second.cap;
  if(!g_me.move){ LibPause lp; // try in place
    if(n<=cap||((uintptr_t)p+cap==g_bump&&n<(1u<<20))){ g_ms.attempts++; g_armcnt++; bool fail=g_armn>=0&&((i64)g_armcnt==g_armn||(g_armfrom&&(i64)g_armcnt>g_armn)); if(g_cap>=0&&(i64)(g_ms.bytes+n-old)>g_cap) { fail=true; fault(F_ALLOC_CAP);} 
      ev(0xA4,n); if(fail){ fault(F_ALLOC_NTH); g_ms.failed++; return nullptr; }
      Block&b=it->second; if(n>cap){ b.cap=(n+15)&~(size_t)15; g_bump=(uintptr_t)p+b.cap; } if(n>old){ mem_unpoison(p,n); fill_pattern((u8*)p+old,n-old,g_me.fill,g_mr);} else { mem_poison(p,b.cap); mem_unpoison(p,n);} g_ms.bytes+=n; g_ms.bytes-=old; b.size=n; return p; } }
  fault(F_BLOCK_MOVE);
  void*q=arena_alloc(n,false); if(!q) return nullptr; { LibPause lp; memcpy(q,p,std::min(old,n)); } arena_free(p); return q; }
char* __wrap_strdup(const char*s){ if(!g_in_lib) return __real_strdup(s); size_t n=strlen(s)+1; char*p=(char*)arena_alloc(n,false); if(p) memcpy(p,s,n); return p; }
char* __wrap_strndup(const char*s,size_t m){ if(!g_in_lib) return __real_strndup(s,m); size_t n=strnlen(s,m); char*p=(char*)arena_alloc(n+1,false); if(p){ memcpy(p,s,n); p[n]=0;} return p; }
void* __wrap_aligned_alloc(size_t al,size_t n){ (void)al; return __wrap_malloc(n);} 
}
static void* op_new(size_t n){ void*p=g_in_lib? arena_alloc(n?n:1,false): __real_malloc(n?n:1); if(!p){ if(!g_in_lib) _exit(2); throw std::bad_alloc(); } return p; }
void* operator new(size_t n){ return op_new(n);} void* operator new[](size_t n){ return op_new(n);} 
void* operator new(size_t n,const std::nothrow_t&) noexcept { return g_in_lib? arena_alloc(n?n:1,false): __real_malloc(n?n:1);} 
void* operator new[](size_t n,const std::nothrow_t&) noexcept { return g_in_lib? arena_alloc(n?n:1,false): __real_malloc(n?n:1);} 
static void op_del(void*p){ if(!p) return; if(in_arena(p)) arena_free(p); else __real_free(p);} 
void operator delete(void*p) noexcept{ op_del(p);} void operator delete[](void*p) noexcept{ op_del(p);} void operator delete(void*p,size_t) noexcept{ op_del(p);} void operator delete[](void*p,size_t) noexcept{ op_del(p);} 

// ------------------------------------------------------------------ randomness and clock seen by the library
static u64 g_rseed=1; static int g_rmode=0; static u64 g_rcalls=0; static Rng g_rr(1); static i64 g_clock=1600000000;
void rand_config(u64 s,int m){ g_rseed=s; g_rmode=m; g_rcalls=0; g_rr=Rng(s); } u64 rand_calls(){ return g_rcalls; }
void clock_config(i64 t){ g_clock=t; }
static u64 g_fiber_rand[16]; 
extern "C" {
int __wrap_rand(void){ if(!g_in_lib) return __real_rand(); g_rcalls++; u64 c=g_rcalls; int f=sched_current(); u64 x; if(f>=0){ x=mix64(g_rseed+g_fiber_rand[f&15]++*977); c=g_fiber_rand[f&15]; } else x=g_rr.next();
  switch(g_rmode){ case 1: fault(F_RAND_EXTREME); return 0; case 2: fault(F_RAND_EXTREME); return 0x7fffffff; case 3: fault(F_RAND_EXTREME); return (c&1)?0:0x7fffffff; case 4: fault(F_RAND_EXTREME); return (int)(c*3); case 5: fault(F_RAND_EXTREME); return (int)(mix64(g_rseed+c%3)&0x7fffffff); default: return (int)(x&0x7fffffff);} }
long __wrap_random(void){ return __wrap_rand(); }
void __wrap_srand(unsigned s){ if(!g_in_lib) __real_srand(s); else ev(0xC3,0); }
void __wrap_srandom(unsigned s){ __wrap_srand(s);} 
time_t __wrap_time(time_t*t){ if(!g_in_lib) return __real_time(t); if(t)*t=g_clock; return g_clock; }
clock_t __wrap_clock(void){ return g_in_lib? (clock_t)(g_clock*1000): __real_clock(); }
unsigned __wrap_sleep(unsigned s){ S->simtime_us+=s*1000000ull; return 0; } int __wrap_usleep(useconds_t u){ S->simtime_us+=u; return 0; }
}
void fiber_rand_reset(){ memset(g_fiber_rand,0,sizeof g_fiber_rand);} 

// ------------------------------------------------------------------ step counting and coverage
static u64 g_steps=0,g_limit=50000000;
u64 step_count(){ return g_steps; } void step_limit(u64 n){ g_limit=n; }
void step_tick(){ if(++g_steps>g_limit){ g_in_lib=0; violate("hang","no return after %llu steps of library code",(unsigned long long)g_limit);} }
#ifndef SIM_SCHED
extern "C" void __sanitizer_cov_trace_pc(void){ if(!g_in_lib) return; u32 h=(u32)((u64)__builtin_return_address(0)*0x9E3779B1u>>4); S->cov[(h^(S->covprev>>1))&(COVN-1)]=1; S->covprev=h&(COVN-1); if(__builtin_expect(++g_steps>g_limit,0)){ g_in_lib=0; violate("hang","no return after %llu basic blocks of library code",(unsigned long long)g_limit);} }
#endif

// ------------------------------------------------------------------ lives
void life_end(int kind){ S->life_kind=kind; S->steps+=g_steps; _exit(0); }
static void vset(const std::string&cls,const char*fmt,va_list ap){ snprintf(S->viol_class,sizeof S->viol_class,"%s",cls.c_str()); vsnprintf(S->viol_msg,sizeof S->viol_msg,fmt,ap); }
void violate(const std::string&cls,const char*fmt,...){ g_in_lib=0; va_list ap; va_start(ap,fmt); vset(cls,fmt,ap); va_end(ap); if(g_child) life_end(L_VIOL); throw Violation{S->viol_class,S->viol_msg}; }
void pviol(const std::string&cls,const char*fmt,...){ va_list ap; va_start(ap,fmt); vset(cls,fmt,ap); va_end(ap); if(g_child) life_end(L_VIOL); throw Violation{S->viol_class,S->viol_msg}; }
static void on_alarm(int);
Life life(const std::function<void()>& body){
  S->life_kind=L_NONE; S->life_code=0; S->viol_class[0]=0; S->lives++; fs_new_life();
  fflush(stdout); pid_t pid=fork(); if(pid<0){ perror("fork"); _exit(2);} 
  if(pid==0){ g_child=true; signal(SIGALRM,on_alarm); alarm(getenv("SIM_DEBUG")?4:120); body(); life_end(L_DONE); }
  int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR){} 
  if(S->life_kind==L_NONE||!WIFEXITED(st)){ dprintf(2,"simulator: life ended unexpectedly (status %x)\n",st); throw std::string("life ended unexpectedly"); }
  ev(0x11,S->life_kind,S->life_code);
  if(S->life_kind==L_VIOL){ std::string c=S->viol_class,m=S->viol_msg; throw Violation{c,m}; }
  return Life{S->life_kind,S->life_code};
}
const char* (*g_segv_hook)(void*)=nullptr;
static void on_sig(int sig,siginfo_t*si,void*uc){ tracef("signal %d at pc 0x%llx, address %p",sig,(unsigned long long)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP],si->si_addr); if(sig==SIGSEGV&&g_segv_hook&&g_child){ const char*c=g_segv_hook(si->si_addr); if(c){ g_in_lib=0; violate(c,"%s",strncmp(c,"C12",3)?"library code accessed memory outside an input":"library code stored into an input while it worked"); } }
  bool was=g_in_lib; g_in_lib=0; if(!was&&g_child&&!getenv("SIM_DEBUG")){ dprintf(2,"simulator: signal %d outside library code\n",sig); _exit(99);} 
  if(!g_child) { dprintf(2,"simulator: signal %d in worker\n",sig); _exit(99);} 
  const char*n=sig==SIGSEGV?"SIGSEGV":sig==SIGFPE?"SIGFPE":sig==SIGBUS?"SIGBUS":"SIGILL"; (void)si;
  violate(std::string("crash:")+n+":"+g_where,"library code raised %s",n); }
static void on_alarm(int){ void*b[40]; int n=backtrace(b,40); if(getenv("SIM_DEBUG")) backtrace_symbols_fd(b,n,2); dprintf(2,"simulator: life exceeded its real-time limit\n"); _exit(93); }
#ifndef SIM_SCHED
extern "C" __attribute__((visibility("default"))) void __asan_on_error(){ g_in_lib=0; } // the report is written by the sanitizer, not by the library
static void on_asan(const char*rep){ g_in_lib=0; // class: kind + first library function
  std::string r(rep); std::string kind="asan"; size_t p=r.find("AddressSanitizer: "); if(p!=std::string::npos){ size_t e=r.find_first_of(" \n",p+18); kind=r.substr(p+18,e-p-18);} 
  std::string fn=g_where; size_t q=p==std::string::npos?0:p; int depth=0; while((q=r.find(" in ",q))!=std::string::npos&&depth<4){ size_t e=r.find_first_of(" (\n",q+4); std::string f=r.substr(q+4,e-q-4); q=e; depth++; 
    if(f.find("__interceptor")==0||f.find("memcpy")!=std::string::npos||f.find("memset")!=std::string::npos||f.find("strlen")!=std::string::npos||f.find("printf")!=std::string::npos||f.find("scanf")!=std::string::npos||f.find("fread")!=std::string::npos||f.find("fwrite")!=std::string::npos) continue; fn=f; break; }
  size_t l1=r.find("ERROR: "); std::string first=l1==std::string::npos?r.substr(0,200):r.substr(l1,r.find('\n',l1)-l1);
  // strip addresses and process ids so that reports repeat exactly
  for(size_t i=0;(i=first.find("0x",i))!=std::string::npos;){ size_t e=i+2; while(e<first.size()&&isxdigit(first[e])) e++; first.replace(i,e-i,"ADDR"); }
  std::string acc; size_t w=r.find("WRITE of size"); if(w==std::string::npos) w=r.find("READ of size"); if(w!=std::string::npos){ acc=r.substr(w,r.find(" at ",w)-w);} 
  violate("memory:"+kind+":"+fn,"%s; %s in %s",first.c_str(),acc.c_str(),fn.c_str()); }
#endif
// ------------------------------------------------------------------ simulated stack
static u8* const LSTACK=(u8*)0x300000000000ull; static const size_t LSTACK_SZ=1u<<20;
static ucontext_t g_hctx,g_lctx; static const std::function<void()>* g_call; static Out g_out; static bool g_dead=false; static bool g_on_lib_stack=false;
void fs_flush_all();
static MemEnv& me(){ return g_me; }
void stack_garbage(u8*base,size_t sz,u64 salt){ Rng r(me().seed^0x77^salt); int m=me().stackfill==0?0: me().stackfill==1?1: me().stackfill==2?2:3; size_t n=std::min<size_t>(sz,64<<10); fill_pattern(base+sz-n,n,m,r); }
static void lib_entry(){
#ifndef SIM_SCHED
  __sanitizer_finish_switch_fiber(nullptr,nullptr,nullptr);
#endif
  g_out=Out{O_RET,0};
  { static const int E[]={0,ENOENT,EIO,ENOSPC,EINTR,EACCES,ENOMEM,ERANGE,EINVAL,EAGAIN,EEXIST,EBADF}; errno=E[mix64(me().seed^(g_seq*7+S->ops))%12]; } // what an earlier call may have left in errno
  try { g_in_lib=1; (*g_call)(); g_in_lib=0; } catch(std::bad_alloc&){ g_in_lib=0; g_out=Out{O_EXC,1}; } catch(std::exception&){ g_in_lib=0; g_out=Out{O_EXC,2}; }
#ifndef SIM_SCHED
  __sanitizer_start_switch_fiber(nullptr,(void*)0,0);
#endif
  setcontext(&g_hctx); abort();
}
static const void*g_hbot; static size_t g_hsz;
Out lib(const std::function<void()>& call){
  if(g_dead){ dprintf(2,"simulator: lib() after exit\n"); _exit(98);} 
  static bool mapped=false; if(!mapped){ mapped=true; void*r=mmap(LSTACK-65536,LSTACK_SZ+65536,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r==MAP_FAILED){ perror("stack"); _exit(2);} mprotect(LSTACK,LSTACK_SZ,PROT_READ|PROT_WRITE);} 
#ifndef SIM_SCHED
  // frames unpoison themselves on return; after an exit no library code runs again in this life
#endif
  stack_garbage(LSTACK,LSTACK_SZ,g_seq);
  g_call=&call; getcontext(&g_lctx); g_lctx.uc_stack.ss_sp=LSTACK; g_lctx.uc_stack.ss_size=LSTACK_SZ; g_lctx.uc_link=nullptr; makecontext(&g_lctx,lib_entry,0);
  g_on_lib_stack=true;
#ifndef SIM_SCHED
  void*fs=nullptr; if(!g_hbot){ static u8*top; top=(u8*)__builtin_frame_address(0); g_hbot=top-(7u<<20); g_hsz=(8u<<20);} 
  __sanitizer_start_switch_fiber(&fs,LSTACK,LSTACK_SZ);
  swapcontext(&g_hctx,&g_lctx);
  __sanitizer_finish_switch_fiber(fs,nullptr,nullptr);
#else
  swapcontext(&g_hctx,&g_lctx);
#endif
  g_on_lib_stack=false; g_in_lib=0; ev(0x12,g_out.kind,g_out.code); S->ops++;
  return g_out;
}
bool sched_exit(Out o);  // sched.cpp: true if a fiber was ended
[[noreturn]] static void leave(Out o){
  g_in_lib=0; if(o.kind==O_EXIT) fs_flush_all();
  if(sched_current()>=0) sched_exit(o);
  if(!g_on_lib_stack){ dprintf(2,"simulator: exit outside library code\n"); _exit(97);} 
  g_out=o; g_dead=true;
#ifndef SIM_SCHED
  __asan_handle_no_return(); __sanitizer_start_switch_fiber(nullptr,(void*)0,0);
#endif
  setcontext(&g_hctx); __builtin_unreachable();
}
extern "C" {
void __wrap_exit(int c){ if(!g_in_lib) __real_exit(c); tracef("exit(%d)",c); leave(Out{O_EXIT,c&0xff}); }
void __wrap__exit(int c){ if(!g_in_lib) _Exit(c); leave(Out{O_ABORT,c}); }
void __wrap_abort(void){ if(!g_in_lib) __real_abort(); tracef("abort()"); leave(Out{O_ABORT,134}); }
void __wrap___assert_fail(const char*,const char*,unsigned,const char*){ tracef("assert failed"); leave(Out{O_ABORT,134}); }
}
bool lib_dead(){ return g_dead; }
// ------------------------------------------------------------------ blob
void blob_reset(){ S->blob_len=0; }
void blob_put(const void*p,size_t n){ if(S->blob_len+n>sizeof S->blob){ dprintf(2,"blob overflow\n"); _exit(96);} memcpy(S->blob+S->blob_len,p,n); S->blob_len+=n; }
void blob_str(const std::string&s){ blob_u(s.size()); blob_put(s.data(),s.size()); }
void BlobReader::get(void*d,size_t n){ if(p+n>S->blob_len){ throw std::string("blob underrun"); } memcpy(d,S->blob+p,n); p+=n; }
std::string BlobReader::str(){ u64 n=u(); std::string s(n,0); get(&s[0],n); return s; }
void rt_init(){
  arena_init();
  stack_t ss; memset(&ss,0,sizeof ss); ss.ss_size=256<<10; ss.ss_sp=__real_malloc(ss.ss_size); sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_sig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGFPE,SIGBUS,SIGILL}) sigaction(s,&sa,nullptr);
#ifndef SIM_SCHED
  __asan_set_error_report_callback(on_asan);
#endif
}
std::string hexdump(const std::string&s,size_t max){ std::string o; char b[4]; for(size_t i=0;i<s.size()&&i<max;i++){ snprintf(b,4,"%02x",(u8)s[i]); o+=b;} if(s.size()>max) o+="..."; return o; }
