// A catalogue of library calls: each entry builds arguments from a small spec, makes one call, and collects everything the call produced.
#pragma once
#include "glue.hpp"
#include <deque>
#include <memory>
enum { OF_DISK=1, OF_CXX=2, OF_RAND=4, OF_NOCONC=8, OF_NOC12=16, OF_SLOW=32, OF_REFUSE=64 };
struct OpSpec { int op=0; int r=1,c=1,b=1,dt=1,il=0,ch=1,vm=0; int p[4]={0,0,0,0}; u64 seed=1; };
struct Region { u8*p; size_t n; const char*what; std::string orig; };
struct Share { std::map<std::string,void*> obj; std::vector<Region> regs; };
struct Ctx {
  int placement=1;            // of inputs: 0 through the library, 1 separate blocks with exact bounds, 2 pages of their own that can be protected
  u64 dstseed=0;              // initial content of results that the call must fill completely
  std::string prefix; Share*share=nullptr; const OpSpec s; Rng r;
  int R,C,B,DT,IL,CH;         // clamped
  std::function<void()> call; bool refused_ok=false;
  explicit Ctx(const OpSpec&sp,int pl=1,u64 ds=0,const std::string&pre="f",Share*sh=nullptr);
  ~Ctx();
  // constant inputs
  hyper_mat cube(int s,int l,int b,int dt,int il,int wmode=-1,int tag=0,int vm=-1); hyper_mat cube(){ return cube(C,R,B,DT,IL); }
  simple_mat img(int r,int c,int dt,int ch,int tag=0,int vm=-1); simple_mat img(){ return img(R,C,DT,CH); }
  void* bytes(const std::string&d,const char*what,const std::string&key); void* arr(int n,int dt,int tag=0,int vm=-1); template<class T> T* arr(const std::vector<T>&v,int tag=0){ return (T*)bytes(std::string((char*)v.data(),v.size()*sizeof(T)),"array","v"+std::to_string(tag)); }
  char* str(const std::string&t){ return (char*)bytes(t+std::string(1,'\0'),"text","t"+t); }
  S_2D kernel(int w,int h,int vm); void* hy(int s,int l,int b,int dt,int il);
  // objects the call may change
  hyper_mat mcube(int s,int l,int b,int dt,int il,bool full,int tag=9,int vm=-1); simple_mat mimg(int r,int c,int dt,int ch,bool full,int tag=9,int vm=-1); void* marr(int n,int dt,bool full,int tag=9,int vm=-1); POINT* mvec(int n); void* mhy(int s,int l,int b,int dt,int il);
  // results
  hyper_mat& rcube(); simple_mat& rimg(); void*& rptr(size_t n); double& rval(); void* rhy(); S_2D& rs2d(); void file(const std::string&name,const std::string&content); std::string path(const std::string&n){ return prefix+n; }
  // after the call
  std::string collect(const char*who,bool&refused); void cleanup(); std::string changed(); void protect(bool on);
  struct MC { hyper_mat m; int pl; }; struct MI { simple_mat m; int pl; }; struct MA { void*p; size_t n; };
  std::deque<MC> mcs; std::deque<MI> mis; std::deque<MA> mas; std::deque<void*> mhs; std::deque<hyper_mat> rcs; std::deque<simple_mat> ris; struct RP{ void*p; size_t n; }; std::deque<RP> rps; std::deque<double> rvs; std::deque<void*> rhs; std::deque<S_2D> rss; bool hasfiles=false;
  std::vector<Region> regs; struct Own { int kind; void*p; int pl; }; std::vector<Own> own; // inputs to give back
  u64 key(int tag) const { return mix64(s.seed*31+tag); }
private:
  void* put(const void*d,size_t n,const char*what);
};
typedef void (*OpBuild)(Ctx&x,const OpSpec&s);
struct OpDef { const char*name; int flags; int cost; OpBuild build; };
const std::vector<OpDef>& ops(); int op_index(const std::string&name);
OpSpec gen_spec(Rng&r,int op); Step step_of(const OpSpec&); bool spec_of(const Step&,OpSpec&);
struct OpRes { Out o{O_RET,0}; bool refused=false; std::string bytes; bool failed() const { return o.kind!=O_RET||refused; } bool operator==(const OpRes&x) const { return o.kind==x.o.kind&&o.code==x.o.code&&refused==x.refused&&bytes==x.bytes; } };
void put_res(const OpRes&); OpRes get_res(BlobReader&); std::string diff_res(const OpRes&,const OpRes&);
OpRes finish_op(Ctx&x,Out o);        // collects after a call made elsewhere
OpRes run_op(Ctx&x);                 // makes the call and collects
void page_pool_reset(); extern const char* (*g_segv_hook)(void*addr);
