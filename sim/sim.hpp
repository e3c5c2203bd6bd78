// Deterministic simulator for HYPERCV: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef unsigned char u8;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
struct Rng {
  u64 s; explicit Rng(u64 seed=1):s(mix64(seed)){}
  u64 next(){ s+=0x9e3779b97f4a7c15ull; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return b<=a? a: a+(i64)below((u64)(b-a+1)); }
  bool chance(int num,int den){ return (int)below(den)<num; }
  template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
struct Step { std::string op; std::vector<i64> a;
  i64 g(size_t i,i64 d=0) const { return i<a.size()? a[i]:d; } };
struct Plan { std::string prop; u64 seed=0; std::map<std::string,i64> env; std::vector<Step> steps;
  i64 e(const char*k,i64 d=0) const { auto it=env.find(k); return it==env.end()? d: it->second; }
  std::string text() const; static bool parse(const std::string&,Plan&); };

// ---------------------------------------------------------------- shared state (one per worker, survives lives)
enum FaultKind { F_OPEN_FAIL, F_READ_EIO, F_READ_EINTR, F_READ_SHORT, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_CLOSE_FAIL,
  F_UNLINK_FAIL, F_RENAME_FAIL, F_SEEK_FAIL, F_DISK_FULL, F_CRASH, F_TORN_WRITE, F_ALLOC_NTH, F_ALLOC_FROM, F_ALLOC_CAP, F_CORRUPT_BYTES,
  F_TRUNCATE, F_GARBAGE_HEAP, F_GARBAGE_STACK, F_BLOCK_REUSE, F_BLOCK_MOVE, F_CTX_SWITCH, F_PREEMPT_POINT, F_SDL_INIT, F_SDL_SURFACE, F_SDL_VIDEO, F_SDL_VIDEOOK0,
  F_SDL_DEPTH8, F_SDL_EVENT, F_SDL_IDLE, F_RAND_EXTREME, F_CLOCK_JUMP, F_RESTART, F_STALE_FILE, F_DEV_STALL, F_BIG, F_N };
extern const char* FAULT_NAMES[F_N];

enum { NPROBE=512, COVN=1<<16 };
struct SimFile { char name[2400]; int used; int big; u64 size; u32 writes; };
enum { NFILES=20, FILECAP=4<<20 };
struct Shm {
  // per life
  int life_kind; int life_code; char viol_class[96]; char viol_msg[1400];
  // accumulated over a run
  u64 hash; u64 nevents; u64 steps; u64 simtime_us; u64 lives;
  u64 opdone;                 // progress mark used by crash checks
  u64 faults[F_N]; u64 probes[NPROBE]; char probe_names[NPROBE][40]; int nprobes;
  u64 ops; u64 accesses; u64 switches;
  u64 fsev[16]; u64 fsmut; u64 fsfired;   // disk events since fs_reset_counters
  u8  cov[COVN]; u32 covprev;
  // results of the life for the parent
  u64 blob_len; u8 blob[24<<20];
  // disk
  SimFile files[NFILES]; u8 content[NFILES][FILECAP]; u64 disk_used_limit; int trace_on; u64 trace_len; char trace[1<<16];
};
extern Shm* S;
void ev(u64 tag,u64 a=0,u64 b=0);           // address-free event into the run hash
void tracef(const char*fmt,...) __attribute__((format(printf,1,2)));
void probe(const char*name,u64 n=1);
void fault(FaultKind k,u64 n=1);

// ---------------------------------------------------------------- lives
enum LifeKind { L_NONE=0, L_DONE, L_CRASH, L_VIOL, L_BAD };
enum OutKind { O_RET=0, O_EXIT, O_ABORT, O_EXC };
struct Out { int kind; int code; bool ret() const { return kind==O_RET; } bool fail() const { return (kind==O_EXIT&&code!=0)||kind==O_ABORT||kind==O_EXC; } };
[[noreturn]] void life_end(int kind);
[[noreturn]] void violate(const std::string&cls,const char*fmt,...) __attribute__((format(printf,2,3)));
struct Violation { std::string cls,msg; };
struct Life { int kind; int code; };
Life life(const std::function<void()>& body);   // forked process; throws Violation if the life reported one
[[noreturn]] void pviol(const std::string&cls,const char*fmt,...) __attribute__((format(printf,2,3))); // violation found in the parent
Out lib(const std::function<void()>& call);     // runs library code on the simulated stack
extern volatile int g_in_lib;
extern const char* g_where;   // operation under way, names memory errors
struct LibPause { int s; LibPause():s(g_in_lib){g_in_lib=0;} ~LibPause(){g_in_lib=s;} };
void blob_reset(); void blob_put(const void*,size_t); struct BlobReader{ size_t p=0; void get(void*,size_t); u64 u(){u64 x;get(&x,8);return x;} i64 i(){return (i64)u();} std::string str(); bool end()const{return p>=S->blob_len;} };
static inline void blob_u(u64 x){ blob_put(&x,8); }
void blob_str(const std::string&);

// ---------------------------------------------------------------- memory
struct MemEnv { u64 seed=1; int fill=0; int place=0; int move=1; i64 fail_nth=-1; int fail_from=0; i64 cap=-1; int stackfill=0; };
void mem_config(const MemEnv&);
MemEnv mem_from_plan(const Plan&,u64 salt=0);
struct MemStat { u64 live,bytes,total; u64 attempts; u64 failed; u64 peak; };
MemStat mem_stat();
void mem_arm(i64 nth,int from,i64 cap);       // counts from now
void* sim_malloc(size_t); void sim_free(void*);
bool in_arena(const void*); size_t block_size(const void*);   // size of live block starting at p, 0 if none
bool block_of(const void*p,u8**start,size_t*size);            // containing live block
std::vector<std::pair<u64,u64>> mem_live();                    // (sequence number, size)
void mem_poison(void*,size_t); void mem_unpoison(void*,size_t);
void mem_guard_object(void*obj,size_t objsize,void*data,size_t dsize,void*d2,size_t d2size);
void mem_scribble_free();                                      // refill free memory with fresh garbage
void nostore_add(const void*,size_t,const char*what); void nostore_clear();
u64 step_count(); void step_limit(u64);
extern const bool SCHED_BUILD;

// ---------------------------------------------------------------- disk
struct IoEnv { u64 seed=1; int rmode=0,wmode=0; int bufmode=0; };
void fs_config(const IoEnv&); IoEnv io_from_plan(const Plan&);
enum FsEv { E_OPEN_R, E_OPEN_W, E_READ, E_WRITE, E_CLOSE, E_UNLINK, E_RENAME, E_SEEK, E_KINDS };
struct FsArm { int kind=-1; i64 nth=0; int how=0; i64 frac=0; int sticky=0; };   // fail the nth event of a kind
void fs_arm(const FsArm&); void fs_disarm();
void fs_crash_at(i64 nth,int tornpermille);     // nth mutating event from now, -1 off
void fs_full_at(i64 bytes);                     // total free bytes from now, -1 unlimited
u64 fs_events(int kind); u64 fs_mut_events(); void fs_reset_counters();
int fs_open_handles();
u64 fs_faults_fired();
struct BigDisk { int on=0; const u8*pat=nullptr; u64 period=1; size_t chunk=0x7ffff000; int bad=0; u64 badpos=0; };   // files larger than the table hold a repeated pattern
void fs_big(const BigDisk&); BigDisk& fs_big_state(); void fs_put_big(const std::string&,u64 size); u64 fs_size(const std::string&);
extern void* (*g_big_alloc)(size_t); extern int (*g_big_free)(void*);
// harness-side view
void fs_wipe(); bool fs_has(const std::string&); std::string fs_get(const std::string&); void fs_put(const std::string&,const std::string&); void fs_del(const std::string&);
std::map<std::string,std::string> fs_all();
void fs_new_life();

// ---------------------------------------------------------------- other stubs
struct SdlEvent { int type; int a; int b; int delay; };
struct SdlEnv { std::vector<SdlEvent> events; int fail_init=0, fail_surface=0, fail_video=0, videook=32, img_palette=0; i64 fail_alloc=0; std::string expect; int rows=0,cols=0; bool rgb=false; };
void sdl_config(const SdlEnv&);
struct SdlLog { std::vector<std::string> ev; int inits=0, quits=0, images_live=0, screens=0, screen_freed=0, blits=0, updates=0, polls=0, delays=0, spins=0, image_freed=0, double_free=0, after_quit=0; u64 time_ms=0;
  int painted_before_wait=0; int blit_full=1; int pending_at_return=0; int polled_events=0; int pal=0; const void*pixels=nullptr; int w=0,h=0,pitch=0,depth=0; int dirty_unpainted=0; int order_bad=0; int shot_bad=0; u64 max_wait=0;};
SdlLog& sdl_log();
void rand_config(u64 seed,int mode); u64 rand_calls();
void clock_config(i64 now); 

// ---------------------------------------------------------------- scheduling (sched build)
struct SwitchPt { int fiber=0; u64 at=0; int to=0; };         // caller `fiber`, before its access number `at`, hands over to `to`
struct Hot { u64 at; int kind; };                              // access to static data (0 read, 1 write) or store into a shared input (2)
struct SchedCfg { std::vector<SwitchPt> sw; int first=0; u64 quantum=0,qseed=1,maxsw=1500; std::vector<std::pair<uintptr_t,uintptr_t>> watch; };
struct SchedResult { std::vector<Out> out; std::vector<u64> acc; std::vector<std::vector<Hot>> hot; u64 switches=0,total=0; };
void sched_run(const std::vector<std::function<void()>>& bodies,const SchedCfg&,SchedResult&);
int sched_current();

// ---------------------------------------------------------------- properties
extern u64 g_run_index; // which run of the search is being generated
struct Prop { const char*id; Plan (*gen)(u64 seed,int tier); void (*run)(const Plan&); u64 quick,thorough; };
extern const Prop PROPS[]; extern const int NPROPS;
bool verbose();
std::string hexdump(const std::string&,size_t max=64);
