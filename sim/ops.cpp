#include <array>
#include "ops.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
static int cl(i64 v,int lo,int hi){ return v<lo?lo: v>hi?hi:(int)v; }
// ------------------------------------------------------------------ pages that can be write-protected
static u8* const POOL=(u8*)0x400000000000ull; static const size_t POOL_SZ=64u<<20; static size_t g_pool=0; static bool g_pool_on=false; static bool g_prot=false; static std::vector<std::pair<u8*,size_t>> g_pages; static const char* g_pool_op="";
static const char* pool_hook(void*a){ static char cls[90]; if((size_t)((u8*)a-POOL)>=POOL_SZ) return nullptr; for(auto&k:g_pages) if((u8*)a>=k.first&&(u8*)a<k.first+k.second){ snprintf(cls,90,"C12:stores-into-input:%s",g_pool_op); return cls; } snprintf(cls,90,"memory:outside-input:%s",g_pool_op); return cls; }
static u8* pool_alloc(size_t n){ if(!g_pool_on){ void*r=mmap(POOL,POOL_SZ,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r!=(void*)POOL){ perror("pool"); _exit(2);} g_pool_on=true; g_segv_hook=pool_hook; }
  size_t pg=(n+4095)&~(size_t)4095; if(!pg) pg=4096; if(g_pool+pg+4096>POOL_SZ){ dprintf(2,"pool full\n"); _exit(95);} u8*p=POOL+g_pool; mprotect(p,pg,PROT_READ|PROT_WRITE); g_pages.push_back({p,pg}); g_pool+=pg+4096; return p+pg-n; }
void page_pool_reset(){ if(g_pool_on) mprotect(POOL,g_pool?g_pool:4096,PROT_NONE); g_pool=0; g_pages.clear(); }
void Ctx::protect(bool on){ if(placement!=2) return; g_pool_op=ops()[s.op].name; for(auto&k:g_pages) mprotect(k.first,k.second,on?PROT_READ:PROT_READ|PROT_WRITE); g_prot=on; }
// ------------------------------------------------------------------ context
Ctx::Ctx(const OpSpec&sp,int pl,u64 ds,const std::string&pre,Share*sh):placement(pl),dstseed(ds),prefix(pre),share(sh),s(sp),r(sp.seed^0x9e37){ R=cl(s.r,1,600); C=cl(s.c,1,600); B=cl(s.b,1,40); DT=DTYPES[(unsigned)s.dt%9]; IL=(unsigned)s.il%3; CH=(s.ch&1)?1:3; const OpDef&d=ops()[s.op]; g_where=d.name;
  int lim=d.cost>=3?100: d.cost==2?400: d.cost==1?3000:20000; if(d.cost>=3){ R=std::min(R,20); C=std::min(C,20); } while((long)R*C*B*CH>lim){ if(B>4) B=(B+1)/2; else if(R>=C&&R>1) R=(R+1)/2; else if(C>1) C=(C+1)/2; else B=std::max(1,B/2); } d.build(*this,s); if(!call){ dprintf(2,"operation %s has no call\n",d.name); _exit(94);} }
Ctx::~Ctx(){ if(lib_dead()) return; for(auto&o:own) switch(o.kind){ case 0: free_cube((hyper_mat)o.p,o.pl); break; case 1: free_img((simple_mat)o.p,o.pl); break; default: sim_free(o.p); }
  for(auto&m:mcs) free_cube(m.m,m.pl); for(auto&m:mis) free_img(m.m,m.pl); for(auto&m:mas) sim_free(m.p); }
void* Ctx::put(const void*d,size_t n,const char*what){ u8*p; if(placement==2) p=pool_alloc(n); else { p=(u8*)sim_malloc(n); if(!share) own.push_back({2,p,0}); } memcpy(p,d,n); Region g{p,n,what,std::string((const char*)d,n)}; (share?share->regs:regs).push_back(g); return p; }
hyper_mat Ctx::cube(int sm,int l,int b,int dt,int il,int wmode,int tag,int vm){ char k[200]; u64 sd=key(tag); if(vm<0) vm=s.vm; if(wmode<0){ u64 h=mix64(sd^77); wmode=h&1?1:(int)((h>>1)%7); } snprintf(k,200,"c%d,%d,%d,%d,%d,%d,%d,%llx",sm,l,b,dt,il,wmode,vm,(unsigned long long)sd); if(share&&share->obj.count(k)) return (hyper_mat)share->obj[k];
  Cube c=gen_cube(sm,l,b,dt,il,vm,wmode,sd); if(!c.hasw) c.w.assign(b,0.f); hyper_mat m;
  if(placement==0&&!share){ c.hasw=true; m=mk_cube(c,0); own.push_back({0,m,0}); regs.push_back({(u8*)m,sizeof*m,"structure",std::string((char*)m,sizeof*m)}); regs.push_back({(u8*)m->data,c.bytes(),"data",c.d}); if(m->wavelength) regs.push_back({(u8*)m->wavelength,4u*b,"wavelength",std::string((char*)m->wavelength,4u*b)}); }
  else { HyperMat h; memset(&h,0,sizeof h); h.samples=sm;h.lines=l;h.bands=b;h.data_type=dt; memcpy(h.interleave,ILN[il],3); h.data=put(c.d.data(),c.bytes(),"data"); h.wavelength=(float*)put(c.w.data(),4u*b,"wavelength"); m=(hyper_mat)put(&h,sizeof h,"structure"); }
  if(share) share->obj[k]=m; return m; }
simple_mat Ctx::img(int rr,int cc,int dt,int ch,int tag,int vm){ char k[200]; u64 sd=key(tag+100); if(vm<0) vm=s.vm; snprintf(k,200,"i%d,%d,%d,%d,%d,%llx",rr,cc,dt,ch,vm,(unsigned long long)sd); if(share&&share->obj.count(k)) return (simple_mat)share->obj[k];
  Img c=gen_img(rr,cc,dt,ch,vm,sd); simple_mat m;
  if(placement==0&&!share){ m=mk_img(c,0); own.push_back({1,m,0}); regs.push_back({(u8*)m,sizeof*m,"structure",std::string((char*)m,sizeof*m)}); regs.push_back({(u8*)m->data,c.bytes(),"data",c.d}); }
  else { SIMPLE_MAT h; memset(&h,0,sizeof h); h.rows=rr;h.cols=cc;h.data_type=dt;h.channels=ch;h.elem_size=dt_size(dt); h.data=put(c.d.data(),c.bytes(),"data"); m=(simple_mat)put(&h,sizeof h,"structure"); }
  if(share) share->obj[k]=m; return m; }
void* Ctx::bytes(const std::string&d,const char*what,const std::string&key0){ std::string k="b"+key0+"/"+d; if(share&&share->obj.count(k)) return share->obj[k]; void*p=put(d.data(),d.size(),what); if(share) share->obj[k]=p; return p; }
void* Ctx::arr(int n,int dt,int tag,int vm){ std::string d((size_t)std::max(n,1)*dt_size(dt),'\0'); Rng q(key(tag+200)); fill_values(d,dt,vm<0?s.vm:vm,q); return bytes(d,"array","a"+std::to_string(dt)); }
S_2D Ctx::kernel(int w,int h,int vm){ std::string d((size_t)w*h,'\1'); Rng q(key(300)); if(vm&1) for(char&x:d) x=(char)q.below(2); STRUCT_2D k; memset(&k,0,sizeof k); k.width=w;k.height=h;k.data=bytes(d,"kernel","k"); return (S_2D)bytes(std::string((char*)&k,sizeof k),"kernel","s"); }
void* Ctx::hy(int sm,int l,int b,int dt,int il){ Cube c=gen_cube(sm,l,b,dt,il,s.vm,1,key(400)); char k[120]; snprintf(k,120,"h%d,%d,%d,%d,%d,%d,%llx",sm,l,b,dt,il,s.vm,(unsigned long long)key(400)); if(share&&share->obj.count(k)) return share->obj[k]; void*d=put(c.d.data(),c.bytes(),"data"); float*w=(float*)put(c.w.data(),4u*b,"wavelength"); std::string tmp(hy_size(),'\0'); void*q=sim_malloc(hy_size()); memset(q,0,hy_size()); Out o=lib([&]{ hy_construct7(q,sm,l,b,dt,hy_fmt(il),d,w); }); if(!o.ret()) violate("setup:hymat","constructing a cube ended the process"); void*h=put(q,hy_size(),"structure"); sim_free(q); if(share) share->obj[k]=h; return h; }
static void fillraw(std::string&d,u64 seed){ Rng q(seed); for(char&c:d) c=(char)q.next(); }
hyper_mat Ctx::mcube(int sm,int l,int b,int dt,int il,bool full,int tag,int vm){ Cube c=gen_cube(sm,l,b,dt,il,vm<0?s.vm:vm,1,key(tag+500)); if(full) fillraw(c.d,dstseed^key(tag)); int pl=placement==0&&!share?0:1; hyper_mat m=mk_cube(c,pl); mcs.push_back({m,pl}); return m; }
simple_mat Ctx::mimg(int rr,int cc,int dt,int ch,bool full,int tag,int vm){ Img c=gen_img(rr,cc,dt,ch,vm<0?s.vm:vm,key(tag+600)); if(full) fillraw(c.d,dstseed^key(tag)); int pl=placement==0&&!share?0:1; simple_mat m=mk_img(c,pl); mis.push_back({m,pl}); return m; }
void* Ctx::marr(int n,int dt,bool full,int tag,int vm){ std::string d((size_t)std::max(n,1)*dt_size(dt),'\0'); Rng q(key(tag+700)); fill_values(d,dt,vm<0?s.vm:vm,q); if(full) fillraw(d,dstseed^key(tag)); void*p=sim_malloc(d.size()); memcpy(p,d.data(),d.size()); mas.push_back({p,d.size()}); return p; }
POINT* Ctx::mvec(int n){ std::string d(16+n*sizeof(POINT),'\0'); fillraw(d,dstseed^key(905)); size_t z[2]={(size_t)n,(size_t)n}; memcpy(&d[0],z,16); u8*p=(u8*)sim_malloc(d.size()); memcpy(p,d.data(),d.size()); mas.push_back({p,d.size()}); return (POINT*)(p+16); }
void* Ctx::mhy(int sm,int l,int b,int dt,int il){ Cube c=gen_cube(sm,l,b,dt,il,s.vm,1,key(410)); void*q=sim_malloc(hy_size()); void*d=sim_malloc(c.bytes()); memcpy(d,c.d.data(),c.bytes()); float*w=(float*)sim_malloc(4u*b); memcpy(w,c.w.data(),4u*b); Out o=lib([&]{ hy_construct7(q,sm,l,b,dt,hy_fmt(il),d,w); }); if(!o.ret()) violate("setup:hymat","constructing a cube ended the process"); mhs.push_back(q); return q; }
hyper_mat& Ctx::rcube(){ rcs.push_back(nullptr); return rcs.back(); } simple_mat& Ctx::rimg(){ ris.push_back(nullptr); return ris.back(); } void*& Ctx::rptr(size_t n){ rps.push_back({nullptr,n}); return rps.back().p; } double& Ctx::rval(){ rvs.push_back(0); return rvs.back(); } void* Ctx::rhy(){ void*q=sim_malloc(hy_size()); rhs.push_back(q); return q; } S_2D& Ctx::rs2d(){ rss.push_back(nullptr); return rss.back(); }
void Ctx::file(const std::string&n,const std::string&c){ fs_put(path(n),c); }
static void add(std::string&o,const void*p,size_t n){ u64 k=n; o.append((char*)&k,8); o.append((const char*)p,n); }
static void addc(std::string&o,const Cube&c){ int h[5]={c.s,c.l,c.b,c.dt,c.il}; add(o,h,sizeof h); add(o,c.d.data(),c.d.size()); add(o,c.w.data(),4*c.w.size()); }
static void addi(std::string&o,const Img&c){ int h[4]={c.r,c.c,c.dt,c.ch}; add(o,h,sizeof h); add(o,c.d.data(),c.d.size()); }
static Cube hy_model(void*h,const char*who){ HyGlue g; hy_view(h,&g); Cube c; c.s=g.samples;c.l=g.lines;c.b=g.bands;c.dt=g.dataType;c.il=g.format; if(c.s<=0||c.l<=0||c.b<=0||!dt_size(c.dt)||c.il<0||(double)c.s*c.l*c.b*dt_size(c.dt)>1e8||!mem_ok(g.data,c.bytes())||(g.wl&&!mem_ok(g.wl,4u*c.b))) violate(std::string("object:")+who,"%s left a C++ cube that is not well formed",who); c.d.assign((char*)g.data,c.bytes()); c.w.assign(c.b,0.f); if(g.wl) memcpy(c.w.data(),g.wl,4u*c.b); return c; }
std::string Ctx::collect(const char*who,bool&refused){ std::string o; refused=false; for(auto&m:mcs) addc(o,rd_cube(m.m,who)); for(auto&m:mis) addi(o,rd_img(m.m,who)); for(auto&m:mas) add(o,m.p,m.n); for(void*h:mhs) addc(o,hy_model(h,who));
  for(auto m:rcs){ if(m) addc(o,rd_cube(m,who)); else { refused=true; add(o,"",0);} } for(auto m:ris){ if(m) addi(o,rd_img(m,who)); else { refused=true; add(o,"",0);} }
  for(auto&p:rps){ if(p.p){ if(!mem_ok(p.p,p.n)) violate(std::string("object:")+who,"%s returned a block shorter than %zu bytes",who,p.n); add(o,p.p,p.n);} else refused=true; } for(double v:rvs){ if(v!=v) v=NAN; add(o,&v,8);} for(void*h:rhs){ int e=1; lib([&]{ e=hy_empty(h); }); if(e) refused=true; else addc(o,hy_model(h,who)); }
  for(S_2D k:rss){ if(!k) refused=true; else { int h[2]={k->width,k->height}; add(o,h,8); if(!mem_ok(k->data,(size_t)k->width*k->height)) violate(std::string("object:")+who,"%s returned a kernel that is too small",who); add(o,k->data,(size_t)k->width*k->height); } }
  if(ops()[s.op].flags&OF_DISK) for(auto&f:fs_all()) if(f.first.compare(0,prefix.size(),prefix)==0){ std::string n=f.first.substr(prefix.size()); add(o,n.data(),n.size()); add(o,f.second.data(),f.second.size()); }
  return o; }
void Ctx::cleanup(){ for(auto m:rcs) if(m) lib([&]{ delete_hyper_mat(m); }); for(auto m:ris) if(m) lib([&]{ delete_simple_mat(m); }); for(auto&p:rps) if(p.p) lib([&]{ free(p.p); }); for(void*h:rhs){ lib([&]{ hy_release(h); hy_destroy(h); }); sim_free(h); } for(void*h:mhs){ lib([&]{ hy_release(h); hy_destroy(h); }); sim_free(h); } for(S_2D k:rss) if(k) lib([&]{ delete_S_2D(k); });
  rcs.clear(); ris.clear(); rps.clear(); rhs.clear(); mhs.clear(); rss.clear(); }
std::string Ctx::changed(){ for(auto*v:{&regs,share?&share->regs:&regs}) for(auto&g:*v) if(memcmp(g.p,g.orig.data(),g.n)){ size_t i=0; while(g.p[i]==(u8)g.orig[i]) i++; char b[120]; snprintf(b,120,"%s byte %zu changed from %02x to %02x",g.what,i,(u8)g.orig[i],g.p[i]); return b; } return ""; }
OpRes finish_op(Ctx&x,Out o){ OpRes q; q.o=o; if(o.ret()) q.bytes=x.collect(ops()[x.s.op].name,q.refused); ev(0xB0,x.s.op,o.kind*2+q.refused); if(!o.ret()&&!(ops()[x.s.op].flags&OF_DISK)){ char b[40]; snprintf(b,40,"stop %s",ops()[x.s.op].name); probe(b); } return q; }
OpRes run_op(Ctx&x){ const OpDef&d=ops()[x.s.op]; g_where=d.name; if(d.flags&OF_RAND) rand_config(x.s.seed,0); x.protect(true); Out o=lib(x.call); x.protect(false); OpRes q=finish_op(x,o); tracef("%s(%d x %d x %d, type %d, %s, channels %d, p %d %d %d %d) -> %s%s",d.name,x.R,x.C,x.B,x.DT,ILN[x.IL],x.CH,x.s.p[0],x.s.p[1],x.s.p[2],x.s.p[3],o.ret()?"returned":o.kind==O_EXIT?"exit":"stopped",q.refused?" nothing":""); return q; }
void put_res(const OpRes&q){ blob_u(q.o.kind); blob_u(q.o.code); blob_u(q.refused); blob_str(q.bytes); } OpRes get_res(BlobReader&b){ OpRes q; q.o.kind=(int)b.u(); q.o.code=(int)b.u(); q.refused=b.u(); q.bytes=b.str(); return q; }
std::string diff_res(const OpRes&a,const OpRes&b){ char t[200]; if(a.o.kind!=b.o.kind||a.o.code!=b.o.code||a.refused!=b.refused){ auto n=[](const OpRes&x){ return x.o.kind==O_RET?(x.refused?"a failure":"a result"):x.o.kind==O_EXIT?"an exit":"an abort"; }; snprintf(t,200,"%s against %s",n(a),n(b)); return t; } size_t i=0; while(i<a.bytes.size()&&i<b.bytes.size()&&a.bytes[i]==b.bytes[i]) i++; snprintf(t,200,"byte %zu of %zu/%zu bytes of results: %02x against %02x",i,a.bytes.size(),b.bytes.size(),i<a.bytes.size()?(u8)a.bytes[i]:0,i<b.bytes.size()?(u8)b.bytes[i]:0); return t; }
// ------------------------------------------------------------------ specs
static int dim(Rng&r){ static const int sp[]={9,16,17,31,33,64,65,100,127,128,129,255,256,257}; u64 k=r.below(20); return k<14?1+(int)r.below(7): k<18?1+(int)r.below(20): sp[r.below(14)]; }
OpSpec gen_spec(Rng&r,int op){ OpSpec s; s.op=op; s.r=dim(r); s.c=dim(r); s.b=1+(int)r.below(r.chance(1,6)?20:5); s.dt=(int)r.below(9); s.il=(int)r.below(3); s.ch=(int)r.below(2); s.vm=(int)r.below(6); for(int&x:s.p) x=(int)r.below(1000); s.seed=r.next()>>24; return s; }
Step step_of(const OpSpec&s){ Step t; t.op=ops()[s.op].name; t.a={s.r,s.c,s.b,s.dt,s.il,s.ch,s.vm,s.p[0],s.p[1],s.p[2],s.p[3],(i64)s.seed}; return t; }
bool spec_of(const Step&t,OpSpec&s){ s.op=op_index(t.op); if(s.op<0) return false; s.r=(int)t.g(0,1);s.c=(int)t.g(1,1);s.b=(int)t.g(2,1);s.dt=(int)t.g(3);s.il=(int)t.g(4);s.ch=(int)t.g(5);s.vm=(int)((u64)t.g(6)%6); for(int i=0;i<4;i++) s.p[i]=(int)((u64)t.g(7+i)%100000); s.seed=(u64)t.g(11); return true; }
static std::vector<OpDef>& table(){ static std::vector<OpDef> t; return t; } const std::vector<OpDef>& ops(){ return table(); }
int op_index(const std::string&n){ for(size_t i=0;i<table().size();i++) if(n==table()[i].name) return (int)i; return -1; }
struct Reg { Reg(const char*n,int f,int c,OpBuild b){ table().push_back({n,f,c,b}); } };
#define OP(name,flags,cost) static void b_##name(Ctx&x,const OpSpec&s); static Reg r_##name(#name,flags,cost,b_##name); static void b_##name(Ctx&x,const OpSpec&s)
#define CALL(code) x.call=[=,&x]() mutable { code; }
#define R_ x.R
#define C_ x.C
#define B_ x.B
#include "ops_list.inc"
