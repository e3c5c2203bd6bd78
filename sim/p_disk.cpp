// C01-C06 and C17: cubes, images, bitmaps and spectra on a simulated disk.
#include "glue.hpp"
#include <algorithm>
#include <set>
const char* const PATHS[]={"img","scene","a.b.c/x.img","scene.v2","d/e/cube_2020.dat","long/a_rather_long_directory_name_with_many_letters/another_one_below_it/and_a_third_one_to_be_sure/file_name_that_goes_on_for_a_while.bsq",
  "ddirectory_directory_directory_directory_directory_directory/ddirectory_directory_directory_directory_directory_directory/ddirectory_directory_directory_directory_directory_directory/ddirectory_directory_directory_directory_directory_directory/scene_with_a_path_of_more_than_255_letters.img","edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/edirectory_directory_directory_directory_directory_directory/deep.img","cube.hdr","sub.hdr/.scan"}; const int NPATHS=10;
const char* const LDN[LD_N]={"hmread_with_hdr","hmread_with_size","smread","smread_bmp","read_spectrum_file","HyMat::open","HyMat::open(size)","hmread","hmread(size)"};
const char* const SVN[SV_N]={"hmsave","HyMat::save","smwrite_bmp"};
std::string hdr_of(const std::string&p){ return p+".hdr"; }
// ------------------------------------------------------------------ operations
Cube rd_hy(void*h,const char*who){ HyGlue g; hy_view(h,&g); Cube c; c.s=g.samples;c.l=g.lines;c.b=g.bands;c.dt=g.dataType;c.il=g.format;
  if(c.s<=0||c.l<=0||c.b<=0||!dt_size(c.dt)||c.il<0) violate(std::string("object:")+who,"%s left a cube with dimensions %d x %d x %d, type %d, format %d",who,c.s,c.l,c.b,c.dt,g.format);
  if(memcmp(g.interleave,ILN[c.il],3)) violate(std::string("object:")+who,"%s left a cube whose interleave text %.3s is not its format %s",who,g.interleave,ILN[c.il]);
  if((double)c.s*c.l*c.b*dt_size(c.dt)>1e8||!mem_ok(g.data,c.bytes())) violate(std::string("object:")+who,"%s left a cube of %s whose data area is too small",who,desc(c).c_str());
  if(g.elemSize!=dt_size(c.dt)||g.dataSize!=(long)c.bytes()) violate(std::string("object:")+who,"%s left a cube of %s with element size %d and data size %ld",who,desc(c).c_str(),g.elemSize,g.dataSize);
  if(g.wl&&!mem_ok(g.wl,4*(size_t)c.b)) violate(std::string("object:")+who,"%s left a cube of %s whose wavelength list is too small",who,desc(c).c_str());
  c.d.assign((char*)g.data,c.bytes()); c.w.assign(c.b,0.f); if(g.wl) memcpy(c.w.data(),g.wl,4*(size_t)c.b); c.hasw=true; return c; }
Loaded do_load(int ld,const LoadArg&a,int prefill){ Loaded L; const char*p=a.path.c_str(),*h=a.hdr.c_str(); char il[4]; strcpy(il,ILN[a.il]);
  if(ld==LD_C||ld==LD_CSIZE){ hyper_mat m=nullptr; L.o=lib([&]{ m= ld==LD_C? hmread_with_hdr(p,h): hmread_with_size(p,a.s,a.l,a.b,a.dt,il); }); if(L.o.ret()&&m){ L.obj=true; L.c=rd_cube(m,LDN[ld]); lib([&]{ delete_hyper_mat(m); }); } }
  else if(ld==LD_SM||ld==LD_BMP){ simple_mat m=nullptr; L.o=lib([&]{ m= ld==LD_SM? smread(p,a.l,a.s,a.dt,a.b): smread_bmp(p); }); if(L.o.ret()&&m){ L.obj=true; L.isimg=true; L.m=rd_img(m,LDN[ld]); lib([&]{ delete_simple_mat(m); }); } }
  else if(ld==LD_SPEC){ float*f=nullptr; L.o=lib([&]{ f=read_spectrum_file(p,a.b); }); if(L.o.ret()&&f){ L.obj=true; if(!mem_ok(f,4*(size_t)a.b)) violate("object:read_spectrum_file","the returned spectrum is shorter than %d values",a.b); L.f.assign(f,f+a.b); lib([&]{ free(f); }); } }
  else { void*q=sim_malloc(hy_size());
    if(ld==LD_HY||ld==LD_HYSIZE){ if(prefill) lib([&]{ hy_construct5(q,2,3,2,2,hy_fmt(1)); }); else lib([&]{ hy_construct(q); });
      L.o=lib([&]{ if(ld==LD_HY) hy_open(q,p,h); else hy_open_size(q,p,a.s,a.l,a.b,a.dt,hy_fmt(a.il)); }); }
    else L.o=lib([&]{ if(ld==LD_HMREAD) hy_hmread(q,p,h); else hy_hmread_size(q,p,a.s,a.l,a.b,a.dt,hy_fmt(a.il)); });
    if(L.o.ret()){ int e=1; lib([&]{ e=hy_empty(q); }); if(!e){ L.obj=true; L.c=rd_hy(q,LDN[ld]); lib([&]{ hy_release(q); hy_destroy(q); }); } sim_free(q); } }
  tracef("%s(%s) -> %s",LDN[ld],p,L.o.kind!=O_RET?"stopped":L.obj?(L.isimg?desc(L.m).c_str():ld==LD_SPEC?"values":desc(L.c).c_str()):"failure"); ev(0x10AD,ld,L.o.kind*2+L.obj); return L; }
Out do_save_cube(int sv,const std::string&path,const Cube&c,int placement){ Out o{O_RET,0};
  if(sv==SV_C){ hyper_mat m=mk_cube(c,placement); o=lib([&]{ hmsave(path.c_str(),m); }); if(o.ret()) free_cube(m,placement); }
  else { void*q=sim_malloc(hy_size()); void*d=sim_malloc(c.bytes()); float*w=(float*)sim_malloc(4*c.b); memcpy(d,c.d.data(),c.bytes()); for(int k=0;k<c.b;k++) w[k]=c.hasw?c.w[k]:0.f; lib([&]{ hy_construct7(q,c.s,c.l,c.b,c.dt,hy_fmt(c.il),d,w); }); o=lib([&]{ hy_save(q,path.c_str()); }); if(o.ret()){ lib([&]{ hy_release(q); hy_destroy(q); }); sim_free(q); } }
  tracef("%s(%s, %s) -> %s %d",SVN[sv],path.c_str(),desc(c).c_str(),o.ret()?"returned":"stopped",o.code); return o; }
Out do_save_bmp(const std::string&path,const Img&m,int placement){ simple_mat x=mk_img(m,placement); Out o=lib([&]{ smwrite_bmp(path.c_str(),x); }); if(o.ret()) free_img(x,placement); tracef("smwrite_bmp(%s, %s) -> %s %d",path.c_str(),desc(m).c_str(),o.ret()?"returned":"stopped",o.code); return o; }
void put_loaded(const Loaded&L){ blob_u(L.o.kind); blob_u(L.o.code); blob_u(L.obj); blob_u(L.isimg); put_cube(L.c); put_img(L.m); blob_u(L.f.size()); blob_put(L.f.data(),4*L.f.size()); }
Loaded get_loaded(BlobReader&b){ Loaded L; L.o.kind=(int)b.u(); L.o.code=(int)b.u(); L.obj=b.u(); L.isimg=b.u(); L.c=get_cube(b); L.m=get_img(b); L.f.resize(b.u()); b.get(L.f.data(),4*L.f.size()); return L; }
// ------------------------------------------------------------------ generation helpers
static void push_cube(Step&st,Rng&r,int big){ // s l b dt il vmode wmode seed
  i64 s,l,b; if(big&&r.chance(1,120)){ static const int L[]={32767,32768,65535,65536,65537,70001}; i64*d[3]={&s,&l,&b}; for(i64*x:d) *x=1; *d[r.below(3)]=L[r.below(6)]; } else switch(r.below(big?9:6)){ case 0: s=1;l=1;b=1+r.below(3); break; case 1: s=1;l=r.range(1,40);b=r.range(1,4); break; case 2: s=r.range(1,6);l=r.range(1,6);b=1; break; case 6: s=r.range(1,2);l=1;b=r.range(200,1500); break; case 7: s=r.range(300,3000);l=r.range(1,3);b=1; break; case 8: s=r.range(8,40);l=r.range(8,40);b=r.range(2,9); break; default: s=r.range(1,7);l=r.range(1,7);b=r.range(1,7); }
  st.a.insert(st.a.end(),{s,l,b,(i64)r.below(9),(i64)r.below(3),(i64)r.below(6),(i64)r.below(7),(i64)(r.next()>>4)}); }
static int clampi(i64 v,int lo,int hi){ if(v<lo) v=lo; if(v>hi) v=hi; return (int)v; }
static Cube cube_at(const Step&s,size_t i){ int sm=clampi(s.g(i,1),1,80000),ln=clampi(s.g(i+1,1),1,std::max(1,320000/sm)),bn=clampi(s.g(i+2,1),1,std::max(1,320000/sm/ln)); return gen_cube(sm,ln,bn,DTYPES[((u64)s.g(i+3))%9],(int)((u64)s.g(i+4)%3),(int)((u64)s.g(i+5)%6),(int)((u64)s.g(i+6)%7),(u64)s.g(i+7)); }
Cube random_cube(Rng&r,int big){ Step s; push_cube(s,r,big); return cube_at(s,0); }
static Cube on_disk(const Cube&c){ Cube o=c; o.hasw=true; o.w.resize(c.b); for(int k=0;k<c.b;k++) o.w[k]=c.hasw?wl_text(c.w[k]):0.f; return o; }
static std::string path_of(i64 k){ return PATHS[(u64)k%NPATHS]; }
static bool known_path(const std::string&n){ for(int i=0;i<NPATHS;i++) if(n==PATHS[i]||n==hdr_of(PATHS[i])) return true; return false; }
// checks that image and header on disk are exactly the cube
static void check_disk(const char*cls,const std::string&path,const Cube&want,const char*who){ std::string why; if(!fs_has(path)) violate(cls,"%s: no image file after a save that returned",who); if(fs_get(path)!=want.d) violate(cls,"%s of %s: the image file holds %zu bytes that are not the %zu bytes of the cube",who,desc(want).c_str(),fs_get(path).size(),want.d.size());
  Cube h; if(!fs_has(hdr_of(path))) violate(cls,"%s: no header file after a save that returned",who); if(!hdr_parse(fs_get(hdr_of(path)),h,why)) violate(cls,"%s: the header is not a complete ENVI header (%s)",who,why.c_str());
  if(h.s!=want.s||h.l!=want.l||h.b!=want.b||h.dt!=want.dt||h.il!=want.il) violate(cls,"%s of %s: the header says %s",who,desc(want).c_str(),desc(h).c_str());
  for(int k=0;k<want.b;k++){ float w=want.hasw?wl_text(want.w[k]):0.f; float g=h.hasw?h.w[k]:0.f; if(memcmp(&w,&g,4)&&!(w==0&&g==0)) violate(cls,"%s: wavelength %d of the header is %.9g, not %.9g",who,k,g,w); } }
static void same_cube(const char*cls,const char*who,const Cube&got,const Cube&want){ std::string why; Cube g=got,w=want; for(float&f:g.w) if(f==0) f=0; for(float&f:w.w) if(f==0) f=0; if(!g.same(w,&why)) violate(cls,"%s: loaded cube differs from the saved one (%s): %s",who,desc(want).c_str(),why.c_str()); }
static bool eq_cube(const Cube&a,const Cube&b){ Cube x=a,y=b; for(float&f:x.w) if(f==0) f=0; for(float&f:y.w) if(f==0) f=0; return x.same(y); }
static void expect_return(const char*prop,const char*who,const Out&o){ if(o.kind==O_EXIT||o.kind==O_ABORT||o.kind==O_EXC) violate(std::string(prop)+":stopped:"+who,"%s ended the process (%s %d) although nothing failed",who,o.kind==O_EXIT?"exit":o.kind==O_ABORT?"abort":"exception",o.code); }
// ================================================================== C01
struct DiskModel { struct F { bool img=false,hdr=false,hdrok=false; Cube c; std::string bytes; }; std::map<std::string,F> f; };
static Plan gen_c01(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C01"; p.seed=seed; env_common(p,r); int np=1+(int)r.below(3); i64 ps[3]={(i64)r.below(NPATHS),(i64)r.below(NPATHS),(i64)r.below(NPATHS)}; int n=(int)r.range(3,tier?18:12); bool big=r.chance(1,4);
  for(int i=0;i<n;i++){ i64 pa=ps[r.below(np)]; Step s; int k=i==0?0:(int)r.below(100);
    if(k<34){ s.op="save"; s.a={pa,(i64)r.below(2),(i64)r.below(2)}; push_cube(s,r,big); if(r.chance(1,12)) s.a[3+7]=0; }
    else if(k<60){ s.op="load"; s.a={pa,(i64)r.below(3)}; } else if(k<72){ s.op="loadsize"; s.a={pa,(i64)r.below(3),(i64)r.below(2)}; } else if(k<82){ s.op="smread"; s.a={pa,(i64)r.below(4)}; }
    else if(k<89){ s.op="junk"; s.a={pa,(i64)r.below(r.chance(1,2)?60:20000),(i64)r.below(2),(i64)(r.next()>>40)}; } else if(k<94){ s.op="writehdr"; s.a={pa,(i64)r.below(2),0}; push_cube(s,r,big); } else { s.op="restart"; }
    p.steps.push_back(s); }
  for(int i=0;i<np;i++){ Step s; s.op="load"; s.a={ps[i],(i64)r.below(3)}; p.steps.push_back(s); } return p; }
static void c01_model(DiskModel&M,const Step&s){ std::string p=path_of(s.g(0)); auto&f=M.f[p];
  if(s.op=="save"){ f.c=on_disk(cube_at(s,3)); f.bytes=f.c.d; f.img=f.hdr=f.hdrok=true; }
  else if(s.op=="writehdr"){ f.c=on_disk(cube_at(s,3)); if(s.g(1)){ f.c.w.assign(f.c.b,0.f); } f.hdr=f.hdrok=true; }
  else if(s.op=="junk"){ std::string j; Rng r((u64)s.g(3)); for(i64 i=0;i<(i64)clampi(s.g(1),0,60000);i++) j+=(char)r.next(); if(s.g(2)){ f.hdr=true; f.hdrok=false; } else { f.img=true; f.bytes=j; } } }
static void c01_do(DiskModel&M,const Step&s){ std::string p=path_of(s.g(0)); auto&f=M.f[p];
  if(s.op=="save"){ Cube c=cube_at(s,3); int pl=(int)(s.g(2)&1); Out o=do_save_cube((int)(s.g(1)&1),p,c,pl); expect_return("C01",SVN[s.g(1)&1],o); check_disk("C01:disk",p,c,SVN[s.g(1)&1]); }
  else if(s.op=="writehdr"){ Cube c=cube_at(s,3); float*w=nullptr; if(!s.g(1)){ w=(float*)sim_malloc(4*c.b); for(int k=0;k<c.b;k++) w[k]=c.hasw?c.w[k]:0.f; } char il[4]; strcpy(il,ILN[c.il]); Out o=lib([&]{ writehdr(p.c_str(),c.s,c.l,c.b,c.dt,il,w); }); expect_return("C01","writehdr",o); if(w) sim_free(w); }
  else if(s.op=="junk"){ std::string j; Rng r((u64)s.g(3)); for(i64 i=0;i<(i64)clampi(s.g(1),0,60000);i++) j+=(char)r.next(); fs_put(s.g(2)?hdr_of(p):p,j); fault(F_STALE_FILE); }
  else if(s.op=="load"){ if(!f.img||!f.hdrok||f.bytes.size()<f.c.bytes()) return; Cube want=f.c; want.d=f.bytes.substr(0,want.bytes()); int ld=s.g(1)%3==0?LD_C:s.g(1)%3==1?LD_HY:LD_HMREAD; LoadArg a; a.path=p; a.hdr=hdr_of(p); Loaded L=do_load(ld,a); expect_return("C01",LDN[ld],L.o); if(!L.obj) violate(std::string("C01:refused:")+LDN[ld],"%s refused the files a save of %s left",LDN[ld],desc(want).c_str()); probe("c01 loads compared"); same_cube("C01:load",LDN[ld],L.c,want); }
  else if(s.op=="loadsize"){ if(!f.img||f.bytes.empty()) return; LoadArg a; a.path=p; int ld=s.g(2)?LD_HYSIZE:LD_CSIZE; if(f.hdrok&&f.bytes.size()>=f.c.bytes()&&s.g(1)%3!=2){ a.s=f.c.s;a.l=f.c.l;a.b=f.c.b;a.dt=f.c.dt;a.il=f.c.il; if(s.g(1)%3==1){ std::swap(a.s,a.b); a.il=(a.il+1)%3; } } else { a.s=(int)std::min<size_t>(f.bytes.size(),1+(u64)s.g(0)%5); a.l=(int)(f.bytes.size()/a.s); a.b=1; a.dt=1; a.il=(int)(s.g(1)%3); }
    Cube want; want.s=a.s;want.l=a.l;want.b=a.b;want.dt=a.dt;want.il=a.il; want.d=f.bytes.substr(0,want.bytes()); want.w.assign(want.b,0.f); Loaded L=do_load(ld,a); expect_return("C01",LDN[ld],L.o); if(!L.obj) violate(std::string("C01:refused:")+LDN[ld],"%s refused a file with enough bytes for %s",LDN[ld],desc(want).c_str()); probe("c01 sized loads compared"); same_cube("C01:loadsize",LDN[ld],L.c,want); }
  else if(s.op=="smread"){ if(!f.img||f.bytes.empty()) return; LoadArg a; a.path=p; a.dt=f.hdrok?f.c.dt:1; size_t n=f.bytes.size()/dt_size(a.dt); if(!n){ a.dt=1; n=f.bytes.size(); } a.b=s.g(1)%2&&n>=3?3:1; n/=a.b; a.s=(int)std::max<size_t>(1,std::min<size_t>(n,s.g(1)>1?7:13)); a.l=(int)(n/a.s); if(a.l<1){ a.l=1; }
    Img want; want.r=a.l;want.c=a.s;want.dt=a.dt;want.ch=a.b; want.d=f.bytes.substr(0,want.bytes()); Loaded L=do_load(LD_SM,a); expect_return("C01","smread",L.o); if(!L.obj) violate("C01:refused:smread","smread refused a file with enough bytes"); std::string why; if(!L.m.same(want,&why)) violate("C01:smread","smread returned other bytes than the file: %s",why.c_str()); probe("c01 raw images compared"); } }
static void run_c01(const Plan&p){ DiskModel M; size_t i=0; u64 lifeno=0; while(i<p.steps.size()){ size_t e=i; while(e<p.steps.size()&&p.steps[e].op!="restart") e++;
    DiskModel C=M; life([&]{ apply_env(p,lifeno); for(size_t k=i;k<e;k++){ c01_do(C,p.steps[k]); c01_model(C,p.steps[k]); } });
    for(size_t k=i;k<e;k++) c01_model(M,p.steps[k]); if(e<p.steps.size()) fault(F_RESTART); i=e+1; lifeno++; } }
// ================================================================== C02
// case: loader defect nth how frac sizemul | cube
static Img img_of(const Cube&c){ Img m; m.r=std::min(c.l,60); m.c=std::min(c.s,60); m.dt=1; m.ch=3; Rng r(c.s*131+c.l*7+c.b+(c.d.empty()?0:(u8)c.d[0])*977); m.d.resize(m.bytes()); for(char&x:m.d) x=(char)r.next(); return m; }
static std::string spec_text(const Cube&c,std::vector<float>&v,int n){ Rng r(c.s*31+c.l+c.b*1009); std::string t; char b[64]; static const char*seps[]={"\n"," ","\t","\r\n","\n\n"}; int sp=(int)r.below(5); for(int i=0;i<n;i++){ float f=(float)(r.range(-100000,100000)/64.0); snprintf(b,64,"%.6f",f); v.push_back((float)atof(b)); t+=b; if(i+1<n||sp%2) t+=seps[sp]; } return t; }
struct Truth { LoadArg a; Cube c; Img m; std::vector<float> f; std::string main; };
// puts intact files on the disk and says what a load of them must give
static Truth put_truth(int ld,const Cube&c,const std::string&path,i64 style){ Truth t; Rng r((u64)style*7919+3); t.a.path=path; t.a.hdr=hdr_of(path); t.a.s=c.s;t.a.l=c.l;t.a.b=c.b;t.a.dt=c.dt;t.a.il=c.il; t.main=path;
  if(ld==LD_BMP){ t.m=img_of(c); fs_put(path,bmp_encode(t.m,(int)(style%2),r)); } else if(ld==LD_SPEC){ int n=1+c.b%50; t.a.b=n; fs_put(path,spec_text(c,t.f,n)); } else { fs_put(path,c.d); t.c=on_disk(c); if(ld==LD_C||ld==LD_HY||ld==LD_HMREAD){ Cube h=t.c; h.hasw=c.hasw; fs_put(t.a.hdr,hdr_text(h,(int)(style&0xcf),r)); } else { t.c.w.assign(c.b,0.f); } if(ld==LD_SM){ t.a.b=1; t.a.l=c.l*c.b; t.m.r=t.a.l; t.m.c=c.s; t.m.dt=c.dt; t.m.ch=1; t.m.d=c.d; } }
  return t; }
static bool is_truth(int ld,const Loaded&L,const Truth&t){ if(ld==LD_BMP||ld==LD_SM) return L.m.same(t.m); if(ld==LD_SPEC) return L.f.size()==t.f.size()&&(L.f.empty()||!memcmp(L.f.data(),t.f.data(),4*L.f.size())); return eq_cube(L.c,t.c); }
static Plan gen_c02(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C02"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?6:4); for(int i=0;i<n;i++){ Step s; s.op="case"; s.a={(i64)r.below(LD_N),(i64)r.below(9),(i64)r.below(1000),(i64)r.below(12),(i64)r.below(1001),(i64)(r.next()>>50),(i64)r.below(NPATHS),(i64)r.below(2)}; push_cube(s,r,r.chance(1,5)); p.steps.push_back(s);} return p; }
static void run_c02(const Plan&p){ u64 salt=0; for(auto&s:p.steps){ fs_wipe(); fs_disarm(); int ld=(int)((u64)s.g(0)%LD_N); int defect=(int)((u64)s.g(1)%9); Cube c=cube_at(s,8); std::string path=path_of(s.g(6)); Truth t=put_truth(ld,c,path,s.g(5)); bool hdr=ld==LD_C||ld==LD_HY||ld==LD_HMREAD; int prefill=(int)(s.g(7)&1); salt++;
    // fault-free reference run: the load must succeed, and tells how many disk events it makes
    fs_reset_counters(); life([&]{ apply_env(p,salt); Loaded L=do_load(ld,t.a,prefill); expect_return("C02",LDN[ld],L.o); if(!L.obj) violate(std::string("C02:refused:")+LDN[ld],"%s refused an intact file (%s)",LDN[ld],desc(c).c_str()); if(!is_truth(ld,L,t)) violate(std::string("C02:wrong:")+LDN[ld],"%s did not return the content of an intact file (%s)",LDN[ld],desc(c).c_str()); });
    u64 nopen=fs_events(E_OPEN_R),nread=fs_events(E_READ),nseek=fs_events(E_SEEK); fs_reset_counters(); FsArm arm; bool must_fail=true; std::string what;
    auto trunc=[&](const std::string&f,i64 at){ std::string x=fs_get(f); x.resize((size_t)at); fs_put(f,x); fault(F_TRUNCATE); };
    switch(defect){ case 0: fs_del(path); what="image missing"; break; case 1: if(!hdr) continue; fs_del(t.a.hdr); what="header missing"; break;
      case 2: if(!nopen) continue; arm.kind=E_OPEN_R; arm.nth=1+(i64)((u64)s.g(2)%nopen); arm.how=(int)s.g(3); what="open fails"; break;
      case 3: case 4: if(!nread) continue; arm.kind=E_READ; arm.nth=1+(i64)((u64)s.g(2)%nread); arm.how=(int)s.g(3); arm.sticky=defect==4; what="read fails"; must_fail=false; break;
      case 5: { std::string x=fs_get(path); if(x.empty()) continue; size_t need=x.size(); if(ld==LD_SPEC){ size_t e=x.find_last_not_of(" \t\r\n"); size_t b=x.find_last_of(" \t\r\n",e); if(b==std::string::npos) b=0; need=b+(b?1:0); if(!need&&t.f.size()>1) continue; trunc(path,need*(u64)s.g(4)/1001); must_fail=true; } else trunc(path,(i64)((need-1)*(u64)s.g(4)/1000)); what="file cut"; break; }
      case 6: { if(hdr||ld==LD_BMP) continue; int m=2+(int)(s.g(3)%5); if(ld==LD_SPEC) t.a.b+=1+(int)(s.g(3)); else if(ld==LD_SM||s.g(3)&1) t.a.l+=1+(int)(s.g(2)%7); else if(c.l*m<100000) t.a.l*=m; else t.a.l+=1; what="larger size asked for"; break; }
      case 7: if(!nseek) continue; arm.kind=E_SEEK; arm.nth=1+(i64)((u64)s.g(2)%nseek); must_fail=false; what="seek fails"; break;
      case 8: { if(!hdr) continue; std::string x=fs_get(t.a.hdr); size_t lastneed=0; for(const char*k:{"samples","lines","bands","data type","interleave"}){ size_t q=x.find(std::string("\n")+k+" = "); if(q==std::string::npos) continue; size_t e=x.find('=',q)+2; lastneed=std::max(lastneed,e); } if(!lastneed) continue; trunc(t.a.hdr,(i64)(lastneed*(u64)s.g(4)/1001)); what="header cut"; break; } }
    auto before=fs_all(); if(arm.kind>=0) fs_arm(arm); Loaded L; blob_reset(); Life lf=life([&]{ apply_env(p,salt); put_loaded(do_load(ld,t.a,prefill)); }); fs_disarm(); (void)lf; BlobReader b; L=get_loaded(b);
    char pn[40]; snprintf(pn,40,"c02 %s",what.c_str()); probe(pn);
    if(L.o.kind==O_EXIT&&L.o.code==0) pviol(std::string("C02:exit0:")+LDN[ld],"%s (%s) ended the process with status 0 although %s",LDN[ld],desc(c).c_str(),what.c_str());
    if(!L.failed()&&(must_fail||(arm.kind>=0&&fs_faults_fired()&&!is_truth(ld,L,t)))) pviol(std::string("C02:made-up:")+LDN[ld],"%s (%s) returned an object although %s%s",LDN[ld],desc(c).c_str(),what.c_str(),is_truth(ld,L,t)?"":", with content that is not in the file");
    if(!L.failed()&&arm.kind>=0&&!is_truth(ld,L,t)) pviol(std::string("C02:wrong:")+LDN[ld],"%s returned wrong content",LDN[ld]);
    if(fs_all()!=before) pviol(std::string("C02:writes:")+LDN[ld],"%s changed files on the disk",LDN[ld]); } }
// ================================================================== C03
// case: saver kind nth frac how path old placement sticky | cube
static Plan gen_c03(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C03"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?6:4); for(int i=0;i<n;i++){ Step s; s.op="case"; s.a={(i64)r.below(SV_N),(i64)r.below(6),(i64)r.below(100000),(i64)(r.chance(1,3)?0:r.below(1001)),(i64)r.below(12),(i64)r.below(NPATHS),(i64)r.below(3),(i64)r.below(2),(i64)r.below(2)}; push_cube(s,r,r.chance(1,4)); p.steps.push_back(s);} return p; }
static Img bmp_img(const Cube&c,i64 how){ Img m=img_of(c); if(how&1){ Img g=m; g.ch=1; g.d.resize(g.bytes()); return g; } return m; }
static Img as_rgb(const Img&m){ if(m.ch==3) return m; Img o=m; o.ch=3; o.d.clear(); for(char x:m.d){ o.d+=x;o.d+=x;o.d+=x; } return o; }
static void check_bmp(const char*cls,const std::string&path,const Img&m,const char*who){ std::string f=fs_get(path),why; Img g; if(!bmp_decode(f,g,why)) violate(cls,"%s of %s: the file is not a standard 24-bit bitmap (%s)",who,desc(m).c_str(),why.c_str()); if(!g.same(as_rgb(m),&why)) violate(cls,"%s of %s: the bitmap holds other pixels: %s",who,desc(m).c_str(),why.c_str()); }
static Out do_save(int sv,const std::string&path,const Cube&c,const Img&m,int placement){ return sv==SV_BMP? do_save_bmp(path,m,placement): do_save_cube(sv,path,c,placement); }
static void put_old(int old,const std::string&path,u64 seed,bool bmp){ if(!old) return; Rng r(seed); Cube o=random_cube(r,old==2); if(bmp){ fs_put(path,bmp_encode(img_of(o),0,r)); return; } fs_put(path,o.d); fs_put(hdr_of(path),hdr_text(on_disk(o),0,r)); }
static void run_c03(const Plan&p){ u64 salt=0; for(auto&s:p.steps){ salt++; fs_wipe(); fs_disarm(); int sv=(int)((u64)s.g(0)%SV_N); int kind=(int)((u64)s.g(1)%6); Cube c=cube_at(s,9); Img m=bmp_img(c,s.g(4)); std::string path=path_of(s.g(5)); int old=(int)((u64)s.g(6)%3); int pl=(int)(s.g(7)&1);
    put_old(old,path,(u64)s.g(2),sv==SV_BMP); fs_reset_counters(); u64 used=0;
    life([&]{ apply_env(p,salt); Out o=do_save(sv,path,c,m,pl); expect_return("C03",SVN[sv],o); if(sv==SV_BMP) check_bmp("C03:incomplete",path,m,SVN[sv]); else check_disk("C03:incomplete",path,c,SVN[sv]); });
    for(auto&k:fs_all()) used+=k.second.size(); u64 ne[E_KINDS]; for(int k=0;k<E_KINDS;k++) ne[k]=fs_events(k);
    fs_wipe(); put_old(old,path,(u64)s.g(2),sv==SV_BMP); fs_reset_counters(); u64 oldused=0; for(auto&k:fs_all()) oldused+=k.second.size();
    FsArm a; a.how=(int)s.g(4); a.frac=s.g(3); a.sticky=(int)(s.g(8)&1); std::string what; i64 full=-1;
    switch(kind){ case 0: a.kind=E_OPEN_W; what="an open fails"; break; case 1: case 2: a.kind=E_WRITE; what="a write fails"; break; case 3: a.kind=E_CLOSE; what="a close fails"; break; case 4: a.kind=E_UNLINK; what="a removal fails"; break; default: what="the disk is full"; full=(i64)((u64)s.g(2)%(used+1)); }
    if(kind<5){ if(!ne[a.kind]) continue; a.nth=1+(i64)((u64)s.g(2)%ne[a.kind]); fs_arm(a); } else fs_full_at(full);
    blob_reset(); life([&]{ apply_env(p,salt); Out o=do_save(sv,path,c,m,pl); blob_u(o.kind); blob_u(o.code);
      if(o.ret()){ if(sv==SV_BMP) check_bmp("C03:lied:smwrite_bmp",path,m,(std::string("smwrite_bmp returned although ")+what).c_str()); else check_disk((std::string("C03:lied:")+SVN[sv]).c_str(),path,c,(std::string(SVN[sv])+" returned although "+what).c_str()); } });
    fs_disarm(); BlobReader b; int k=(int)b.u(),code=(int)b.u(); if(fs_faults_fired()){ char pn[40]; snprintf(pn,40,"c03 %s",what.c_str()); probe(pn); if(k!=O_RET) probe("c03 failure reported"); }
    if(k==O_EXIT&&code==0) pviol(std::string("C03:exit0:")+SVN[sv],"%s ended the process with status 0 although %s",SVN[sv],what.c_str());
    if(k!=O_RET&&!fs_faults_fired()) pviol(std::string("C03:stopped:")+SVN[sv],"%s stopped although nothing failed",SVN[sv]); } }
// ================================================================== C04
// case: saver oldkind crash torn path loader rel | old cube | new seed(8) | failing call: kind nth how frac sticky crash-as-well
static Plan gen_c04(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C04"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?6:4); for(int i=0;i<n;i++){ Step s; s.op="case"; s.a={(i64)r.below(SV_N),(i64)r.below(5),(i64)r.below(100000),(i64)(r.chance(1,4)?0:r.below(1001)),(i64)r.below(NPATHS),(i64)r.below(3),(i64)r.below(7),(i64)r.below(2)}; push_cube(s,r,r.chance(1,4)); push_cube(s,r,r.chance(1,4)); if(r.chance(1,3)) s.a.insert(s.a.end(),{(i64)(1+r.below(6)),(i64)r.below(100000),(i64)r.below(12),(i64)(r.chance(1,3)?0:r.below(1001)),(i64)r.below(2),(i64)r.below(2)}); p.steps.push_back(s);} return p; }
static void run_c04(const Plan&p){ u64 salt=0; for(auto&s:p.steps){ salt++; fs_wipe(); fs_disarm(); int sv=(int)((u64)s.g(0)%SV_N); Cube o=cube_at(s,8),c=cube_at(s,16); int rel=(int)((u64)s.g(6)%7);
    // relations between old and new image that make mixtures look plausible
    auto mk=[&](int S_,int L_,int B_,int dt,int il){ Cube x=gen_cube(S_,L_,B_,dt,il,V_RANDOM,(int)((u64)s.g(22)%7),(u64)s.g(23)^0x77); return x; };
    switch(rel){ case 0: c=mk(o.s,o.l,o.b,o.dt,o.il); break; case 1: c=mk(o.b,o.l,o.s,o.dt,o.il); if(c.b>1500) c=mk(o.s,o.l,o.b,o.dt,o.il); break; case 2: c=mk(o.s,o.l,o.b,o.dt,(o.il+1)%3); break; case 3: { int d2=o.dt==2?12:o.dt==12?2:o.dt==3?4:o.dt==4?13:o.dt==13?3:o.dt==5?14:o.dt==14?15:o.dt==15?5:1; c=mk(o.s,o.l,o.b,d2,o.il); break; } case 4: c=mk(o.s,std::max(1,o.l/2),o.b,o.dt,o.il); break; default: break; }
    Img om=img_of(o),cm=img_of(c); if(sv==SV_BMP&&rel<2){ cm=om; Rng r((u64)s.g(23)); for(char&x:cm.d) x=(char)r.next(); } if(sv==SV_BMP&&(s.g(7)&1)){ cm.ch=1; cm.d.resize(cm.bytes()); }
    std::string path=path_of(s.g(4)); int old=(int)((u64)s.g(1)%5); // 0 none, 1.. saved by the library
    if(old){ life([&]{ apply_env(p,salt); int osv=sv==SV_BMP?SV_BMP:(old&1); Out x=do_save(osv,path,o,om,0); expect_return("C04",SVN[osv],x); }); }
    auto snap=fs_all(); fs_reset_counters(); life([&]{ apply_env(p,salt+100); Out x=do_save(sv,path,c,cm,0); expect_return("C04",SVN[sv],x); }); u64 n=fs_mut_events(); if(!n) pviol("C04:stopped","%s made no disk operation",SVN[sv]); u64 used=0,ne[E_KINDS]; for(int k=0;k<E_KINDS;k++) ne[k]=fs_events(k); for(auto&k:fs_all()) used+=k.second.size();
    fs_wipe(); for(auto&k:snap) fs_put(k.first,k.second); fs_reset_counters(); int ak=(int)((u64)s.g(24)%7); char when[80]; snprintf(when,80,"a crash at disk operation %llu",(unsigned long long)(1+(u64)s.g(2)%n));
    if(ak){ static const char*an[]={"","an open","a write","a write","a close","a removal","a full disk"}; FsArm a; a.how=(int)s.g(26); a.frac=s.g(27); a.sticky=(int)(s.g(28)&1); a.kind=ak==1?E_OPEN_W:ak<=3?E_WRITE:ak==4?E_CLOSE:E_UNLINK; if(ak==6) fs_full_at((i64)((u64)s.g(25)%(used+1))); else if(ne[a.kind]){ a.nth=1+(i64)((u64)s.g(25)%ne[a.kind]); fs_arm(a); } snprintf(when,80,"a failure (%s)%s",an[ak],s.g(29)&1?" and a crash":""); }
    if(!ak||(s.g(29)&1)) fs_crash_at(1+(i64)((u64)s.g(2)%n),(int)((u64)s.g(3)%1001)); Life lf=life([&]{ apply_env(p,salt+100); do_save(sv,path,c,cm,0); }); fs_disarm(); if(ak?!fs_faults_fired():lf.kind!=L_CRASH){ probe(ak?"c04 failure point not reached":"c04 crash point not reached"); continue; } if(ak) probe("c04 saves ended by a failing call"); fault(F_RESTART);
    for(int t=0;t<(sv==SV_BMP?1:2);t++){ int ld=sv==SV_BMP?LD_BMP:(t==0)==((s.g(5)&1)==0)?LD_C:LD_HY; LoadArg a; a.path=path; a.hdr=hdr_of(path); blob_reset(); life([&]{ apply_env(p,salt+200); put_loaded(do_load(ld,a)); }); BlobReader b; Loaded L=get_loaded(b); if(L.failed()){ probe("c04 load after crash refused"); continue; }
      if(sv==SV_BMP){ std::string why; bool isold=old&&L.m.same(as_rgb(om)),isnew=L.m.same(as_rgb(cm)); probe(isnew?"c04 load after crash gives new":"c04 load after crash gives old"); if(!isold&&!isnew) pviol("C04:mixed:smwrite_bmp","after %s of smwrite_bmp(%s) over %s, the bitmap loads as %s with pixels of neither image",when,desc(cm).c_str(),old?desc(om).c_str():"nothing",desc(L.m).c_str()); }
      else { bool isold=old&&eq_cube(L.c,on_disk(o)),isnew=eq_cube(L.c,on_disk(c)); probe(isnew?"c04 load after crash gives new":"c04 load after crash gives old"); if(!isold&&!isnew){ std::string why; L.c.same(on_disk(c),&why); pviol(std::string("C04:mixed:")+SVN[sv],"after %s of %s(%s) over %s, %s returns %s that is neither image (against the new one: %s)",when,SVN[sv],desc(c).c_str(),old?desc(o).c_str():"nothing",LDN[ld],desc(L.c).c_str(),why.c_str()); } } } } }
// ================================================================== C05
static Plan gen_c05(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C05"; p.seed=seed; env_common(p,r); int n=(int)r.range(2,tier?14:9); i64 ps[2]={(i64)r.below(NPATHS),(i64)r.below(NPATHS)}; for(int i=0;i<n;i++){ Step s; int k=i==0?(int)r.below(2)*60:(int)r.below(100); i64 pa=ps[r.below(2)]; auto dim=[&]{ return r.chance(1,8)? r.range(30,90): r.range(1,12); }; static const int L[]={127,128,255,256,257,1000,4095,32767,32768,65535,65536,65537,70001};
    if(k<40){ s.op="write"; s.a={pa,dim(),dim(),(i64)r.below(2),(i64)r.below(6),(i64)(r.next()>>8),(i64)r.below(2)}; } else if(k<65){ s.op="foreign"; s.a={pa,dim(),dim(),(i64)r.below(10),(i64)r.below(6),(i64)(r.next()>>8)}; } else if(k<92){ s.op="read"; s.a={pa,(i64)r.below(2)}; } else if(k<96) s.op="restart"; else { s.op="junk"; s.a={pa,(i64)r.below(4000),(i64)(r.next()>>40)}; }
    if((s.op=="write"||s.op=="foreign")&&r.chance(1,40)){ int w=1+(int)r.below(2); s.a[w]=L[r.below(13)]; s.a[3-w]=r.range(1,3); }
    p.steps.push_back(s); } for(int i=0;i<2;i++){ Step s; s.op="read"; s.a={ps[i],0}; p.steps.push_back(s); } return p; }
struct BmpModel { int state=0; /* 0 none 1 must be readable 2 may be rejected */ Img m; };
static void c05_model(std::map<std::string,BmpModel>&M,const Step&s){ auto&f=M[path_of(s.g(0))]; int rr=clampi(s.g(1),1,80000),cc=clampi(s.g(2),1,std::max(1,240000/rr));
  if(s.op=="write"){ f.m=as_rgb(gen_img(rr,cc,1,s.g(3)&1?3:1,(int)((u64)s.g(4)%6),(u64)s.g(5))); f.state=1; }
  else if(s.op=="foreign"){ int v=(int)((u64)s.g(3)%10); Img m=gen_img(rr,cc,1,3,(int)((u64)s.g(4)%6),(u64)s.g(5)); f.m=m; if(v==2||v==3||v==6||v>=8){ Rng r((u64)s.g(5)); // palette variants: pixels come from the palette the encoder draws
      int n,pal; Rng q((u64)s.g(5)); std::string file=bmp_encode(m,v,q); unsigned clr; memcpy(&clr,&file[46],4); n=clr?(int)clr:256; memcpy(&pal,&file[14],4); pal+=14; for(size_t i=0;i<(size_t)rr*cc;i++){ int ix=(u8)m.d[i*3]%n; const char*e=&file[pal+4*ix]; f.m.d[i*3]=e[2]; f.m.d[i*3+1]=e[1]; f.m.d[i*3+2]=e[0]; } }
    f.state= v==4||v==5||v==6||v>=8?2:1; }
  else if(s.op=="junk") f.state=0; }
static void c05_do(std::map<std::string,BmpModel>&M,const Step&s){ std::string p=path_of(s.g(0)); auto&f=M[p]; int rr=clampi(s.g(1),1,80000),cc=clampi(s.g(2),1,std::max(1,240000/rr));
  if(s.op=="write"){ Img m=gen_img(rr,cc,1,s.g(3)&1?3:1,(int)((u64)s.g(4)%6),(u64)s.g(5)); int pl=(int)(s.g(6)&1); simple_mat x=mk_img(m,pl); Out o=lib([&]{ smwrite_bmp(p.c_str(),x); }); tracef("smwrite_bmp(%s,%s)",p.c_str(),desc(m).c_str()); expect_return("C05","smwrite_bmp",o); Img after=rd_img(x,"smwrite_bmp"); std::string why; if(!after.same(m,&why)) violate("C05:changes-image","smwrite_bmp changed the image it wrote: %s",why.c_str()); free_img(x,pl); check_bmp("C05:file",p,m,"smwrite_bmp"); }
  else if(s.op=="foreign"){ Rng q((u64)s.g(5)); int v=(int)((u64)s.g(3)%10); fs_put(p,bmp_encode(gen_img(rr,cc,1,3,(int)((u64)s.g(4)%6),(u64)s.g(5)),v,q)); static const char*vn[]={"plain24","gap","palette","fewcolours","32bit","topdown","rle","v4","palette-v4","palette-v5"}; char pn[40]; snprintf(pn,40,"c05 foreign %s",vn[v]); probe(pn); }
  else if(s.op=="junk"){ Rng r((u64)s.g(2)); std::string j; for(i64 i=0;i<clampi(s.g(1),0,5000);i++) j+=(char)r.next(); fs_put(p,j); }
  else if(s.op=="read"&&f.state){ if(f.state==2&&lib_dead()) return; LoadArg a; a.path=p; Loaded L=do_load(LD_BMP,a); if(L.failed()){ if(f.state==1) violate("C05:refused","smread_bmp refused a standard bitmap of %s",desc(f.m).c_str()); probe("c05 foreign bitmap rejected"); return; } std::string why; if(!L.m.same(f.m,&why)) violate("C05:read","smread_bmp returned other pixels than the bitmap holds (%s): %s",desc(f.m).c_str(),why.c_str()); probe("c05 bitmaps compared"); } }
static void run_c05(const Plan&p){ std::map<std::string,BmpModel> M; size_t i=0; u64 n=0; while(i<p.steps.size()){ size_t e=i; while(e<p.steps.size()&&p.steps[e].op!="restart") e++; auto C=M; size_t k0=i;
    while(k0<e){ blob_reset(); life([&]{ apply_env(p,n); size_t k=k0; for(;k<e&&!lib_dead();k++){ c05_do(C,p.steps[k]); c05_model(C,p.steps[k]); } blob_u(k); }); BlobReader b; size_t k1=(size_t)b.u(); for(;k0<k1;k0++) c05_model(M,p.steps[k0]); C=M; }
    if(e<p.steps.size()) fault(F_RESTART); i=e+1; n++; } }
// ================================================================== C06
// case: loader path target style placement | cube(8) | corruption ops: kind,pos,val ...
static Plan gen_c06(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C06"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?8:5); for(int i=0;i<n;i++){ Step s; s.op="case"; i64 ld=(i64)r.below(LD_N); s.a={ld,(i64)r.below(NPATHS),(i64)(r.chance(2,3)?1:0),(i64)r.below(512),(i64)r.below(10)}; push_cube(s,r,r.chance(1,8)); int m=(int)r.range(1,5); if(ld==LD_BMP&&r.chance(1,2)) m=1; for(int k=0;k<m;k++){ s.a.push_back((i64)(ld==LD_BMP&&r.chance(1,3)?14:r.below(14))); s.a.push_back((i64)(r.next()>>20)); s.a.push_back((i64)(r.next()>>20)); } p.steps.push_back(s);} return p; }
static void corrupt(std::string&x,int kind,u64 pos,u64 val,const std::string&other,bool text){ static const char* toks[]={"0","-1","2147483647","-2147483648","4294967296","99999999999999999999","1","65536","46341","3037000500","{","}","=","\n",",","samples","interleave = ","wavelength = {","bsq","BIL","nan","1e400","0x10"," ","data type = 6","\t","bands = 2","samples = 3\n","lines = 1\n","wavelength = unknown","%s%s%n"}; size_t n=x.size(); fault(F_CORRUPT_BYTES);
  switch(kind){ case 0: if(n) x[pos%n]^=(char)(1<<(val%8)); break; case 1: if(n) x[pos%n]=(char)val; break; case 2: if(n) x[pos%n]="0123456789-+.,={}\n\r "[val%20]; break; case 3: x.resize(n?pos%(n+1):0); fault(F_TRUNCATE); break; case 4: { size_t a=n?pos%n:0,l=n?1+val%(n-a):0; x.insert(a,x.substr(a,l)); break; } case 5: { size_t a=n?pos%(n+1):0; size_t b=other.empty()?0:val%other.size(); x=x.substr(0,a)+other.substr(b); break; }
    case 6: { size_t a=n?pos%n:0,l=n?1+val%std::min<size_t>(n-a,40):0; x.erase(a,l); break; } case 7: x.insert(n?pos%(n+1):0,toks[val%(sizeof toks/sizeof*toks)]); break;
    case 8: if(text){ // replace a number by another token
        std::vector<std::pair<size_t,size_t>> nums; for(size_t i=0;i<n;){ if(isdigit((u8)x[i])){ size_t e=i; while(e<n&&isdigit((u8)x[e])) e++; nums.push_back({i,e}); i=e; } else i++; } if(!nums.empty()){ auto q=nums[pos%nums.size()]; x.replace(q.first,q.second-q.first,toks[val%10]); } } else if(n>=4){ static const u32 vs[]={0,1,0xffffffffu,0x7fffffff,0x80000000u,0x10000,46341,24,8,54,1078,2,40,108,124,255,256,257,258,300,512,768,1000,1024,1025}; static const size_t off[]={2,10,14,18,22,28,30,34,46,50}; size_t a=val&1024&&n>54?off[pos%10]:(pos%std::min<size_t>(n-3,60)); memcpy(&x[a],&vs[val%1024%25],4); } break;
    case 9: x.insert(n?pos%(n+1):0,std::string(1+val%12000,"0123456789 ,.=a{"[val%16])); break; case 10: if(text){ size_t q=x.find('='); size_t k=pos%8; while(k--&&q!=std::string::npos){ size_t t=x.find('=',q+1); if(t==std::string::npos) break; q=t; } if(q!=std::string::npos){ size_t e=x.find('\n',q); x.erase(q+1,(e==std::string::npos?n:e)-q-1); if(val&1&&q<x.size()) x.insert(q+1,toks[(val>>1)%31]); } } else if(n>30){ static const size_t off[]={2,10,14,18,22,26,28,30,34,46}; size_t o=off[pos%10]; x[o]=(char)val; if(val&256&&o+1<n) x[o+1]=(char)(val>>9); } break;
    case 14: if(n>=54){ static const u32 vs[]={255,256,257,258,320,512,1023,1024,1025,2,1,0x10000,0x80000000u,0xffffffffu,40,108,124,54,1078,0}; static const size_t off[]={46,46,14,10,18,22}; memcpy(&x[off[pos%6]],&vs[val%20],4); } break;
    case 11: { size_t a=n?pos%n:0; for(size_t i=a;i<n&&i<a+16;i++) x[i]=(char)(val>>((i-a)%7)); break; } case 12: if(n) x[pos%n]=0; break; default: x+=std::string(1+val%50,(char)(pos)); } }
static void run_c06(const Plan&p){ u64 salt=0; for(auto&s:p.steps){ salt++; fs_wipe(); int ld=(int)((u64)s.g(0)%LD_N); Cube c=cube_at(s,5); std::string path=path_of(s.g(1)); bool hdr=ld==LD_C||ld==LD_HY||ld==LD_HMREAD; Truth t=put_truth(ld,c,path,s.g(3)); if(ld==LD_BMP){ Rng r((u64)s.g(3)); t.m=img_of(c); fs_put(path,bmp_encode(t.m,(int)(s.g(4)%10),r)); }
    std::string target=hdr&&(s.g(2)&1)?t.a.hdr:path; std::string x=fs_get(target),other=fs_get(hdr?(target==path?t.a.hdr:path):path); { Rng r((u64)s.g(3)+5); if(s.g(4)&1){ Cube o=random_cube(r); other=hdr_text(on_disk(o),(int)s.g(3),r); } } bool text=target!=path||ld==LD_SPEC; for(size_t k=13;k+2<s.a.size();k+=3){ corrupt(x,(int)((u64)s.a[k]%15),(u64)s.a[k+1],(u64)s.a[k+2],other,text); if(x.size()>200000) x.resize(200000); } fs_put(target,x); auto before=fs_all(); tracef("corrupted %s: %zu bytes",target.c_str(),x.size());
    u64 budget=200000+400*(u64)(x.size()+fs_get(path).size()); blob_reset(); life([&]{ apply_env(p,salt); step_limit(step_count()+budget*4+8000000); put_loaded(do_load(ld,t.a,0)); }); BlobReader b; Loaded L=get_loaded(b);
    if(L.o.kind==O_EXIT&&L.o.code==0) pviol(std::string("C06:exit0:")+LDN[ld],"%s ended the process with status 0",LDN[ld]);
    if(fs_all()!=before) pviol(std::string("C06:writes:")+LDN[ld],"%s changed files",LDN[ld]);
    if(L.failed()){ probe("c06 corrupted file rejected"); continue; } probe("c06 corrupted file accepted"); std::string file=fs_get(path);
    if(ld==LD_BMP){ // an uncompressed 24-bit file has one meaning: check it
      std::string f=file; if(f.size()>=54){ u32 off,comp; unsigned short bc; int w,h; memcpy(&off,&f[10],4); memcpy(&w,&f[18],4); memcpy(&h,&f[22],4); memcpy(&bc,&f[28],2); memcpy(&comp,&f[30],4); if(bc==24&&comp==0&&w>0&&h>0){ size_t row=((size_t)w*3+3)/4*4; bool ok=L.m.r==h&&L.m.c==w&&L.m.ch==3&&off+row*h<=f.size(); if(ok) for(int i=0;i<h&&ok;i++) for(int j=0;j<w&&ok;j++) for(int k=0;k<3;k++) if(L.m.d[((size_t)i*w+j)*3+k]!=f[off+(size_t)(h-1-i)*row+j*3+2-k]) ok=false; if(!ok) pviol("C06:made-up:smread_bmp","smread_bmp returned %s whose pixels are not those of the %d x %d bitmap",desc(L.m).c_str(),h,w); } } }
    else if(ld==LD_SPEC){ // every value must be readable somewhere in the file, in order (the spelling of a number may be read in more than one way)
      size_t q=0; for(float v:L.f){ bool ok=false; auto eq=[&](float g){ return !memcmp(&g,&v,4)||(g==v)||(g!=g&&v!=v); }; for(size_t i=q;i<file.size()&&!ok;i++){ const char*st=file.c_str()+i; char*e; float g=strtof(st,&e); if(e==st) continue; int n=0; float h=0; if(eq(g)||eq((float)strtod(st,nullptr))||(sscanf(st,"%f%n",&h,&n)==1&&eq(h))){ ok=true; q=i+1; } } if(!ok){ pviol("C06:made-up:read_spectrum_file","read_spectrum_file returned %.9g, which is not in the file %s",v,hexdump(file,200).c_str()); } } }
    else { const std::string&d=ld==LD_SM?L.m.d:L.c.d; std::string sw; bool skip=hdr&&(fs_get(t.a.hdr).find("header offset")!=std::string::npos||fs_get(t.a.hdr).find("byte order")!=std::string::npos); if(skip){ sw=d; size_t es=L.c.es(); for(size_t i=0;i+es<=sw.size();i+=es) std::reverse(sw.begin()+(i64)i,sw.begin()+(i64)(i+es)); } // the header may say where the data starts and how its bytes are ordered
      if(skip?file.find(d)==std::string::npos&&file.find(sw)==std::string::npos:d.size()>file.size()||memcmp(d.data(),file.data(),d.size())) pviol(std::string("C06:made-up:")+LDN[ld],"%s returned %s whose %zu data bytes are not the start of the %zu byte file",LDN[ld],ld==LD_SM?desc(L.m).c_str():desc(L.c).c_str(),d.size(),file.size());
      if(ld!=LD_C&&ld!=LD_HY&&ld!=LD_HMREAD&&ld!=LD_SM&&(L.c.s!=t.a.s||L.c.l!=t.a.l||L.c.b!=t.a.b||L.c.dt!=t.a.dt||L.c.il!=t.a.il)) pviol(std::string("C06:dims:")+LDN[ld],"%s returned %s, not the size asked for",LDN[ld],desc(L.c).c_str()); } } }
// ================================================================== C17
// faulty phase: ops with faults over several paths, then a calm phase
static Plan gen_c17(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C17"; p.seed=seed; env_common(p,r); int n=(int)r.range(3,tier?20:12); for(int i=0;i<n;i++){ Step s; s.op=r.chance(1,8)?"lose":r.chance(3,5)?"save":"load"; s.a={(i64)r.below(4),(i64)r.below(s.op=="save"?SV_N:LD_N),(i64)(r.chance(1,3)?0:1+r.below(7)),(i64)r.below(200),(i64)(r.chance(1,3)?0:r.below(1001)),(i64)r.below(12),(i64)r.below(2)}; push_cube(s,r,r.chance(1,10)); p.steps.push_back(s);} return p; }
static const char* const P17[]={"scene","scene.v2","a.b.c/x.img","scenehdr"};
static void arm_fault(const Step&s,bool save){ FsArm a; a.nth=1+s.g(3)%(s.g(6)?4:40); a.how=(int)s.g(5); a.frac=s.g(4); a.sticky=(int)(s.g(6)&1); switch((u64)s.g(2)%8){ case 0: return; case 1: a.kind=save?E_OPEN_W:E_OPEN_R; a.nth=1+s.g(3)%2; break; case 2: a.kind=save?E_WRITE:E_READ; break; case 3: a.kind=save?E_CLOSE:E_READ; a.nth=1+s.g(3)%2; break; case 4: a.kind=save?E_UNLINK:E_OPEN_R; a.nth=1; break; case 5: if(save) fs_full_at(s.g(3)*7%3000); return; case 6: case 7: if(save) fs_crash_at(1+s.g(3)%(s.g(6)?6:30),(int)s.g(4)); return; } fs_arm(a); }
static void run_c17(const Plan&p){ std::map<std::string,std::string> decoys={{"scene.bak","decoy one"},{"other.img","decoy two"},{"scene.hd","decoy three"},{"hdr","decoy four"}}; for(auto&k:decoys) fs_put(k.first,k.second);
  u64 salt=0; for(auto&s:p.steps){ salt++; std::string path=P17[(u64)s.g(0)%4]; if(s.op=="lose"){ std::string f=s.g(6)?hdr_of(path):path; tracef("%s is lost",f.c_str()); fs_del(f); probe("c17 files lost"); continue; } Cube c=cube_at(s,7); bool save=s.op=="save"; int sv=(int)((u64)s.g(1)%SV_N),ld=(int)((u64)s.g(1)%LD_N); auto before=fs_all(); fs_disarm(); fs_reset_counters(); Img m=img_of(c); blob_reset();
    // a bystander object lives through the operation, also when it fails
    Life lf=life([&]{ apply_env(p,salt); Rng r(salt); Cube by=random_cube(r); hyper_mat h=mk_cube(by,0); arm_fault(s,save); Out o{O_RET,0}; if(save) o=do_save(sv,path,c,m,0); else { LoadArg a; a.path=path; a.hdr=hdr_of(path); a.s=c.s;a.l=c.l;a.b=c.b;a.dt=c.dt;a.il=c.il; o=do_load(ld,a,0).o; } fs_disarm(); Cube now=rd_cube(h,"bystander"); std::string why; if(!by.hasw) now.w=by.w; if(!now.same(by,&why)) violate("C17:bystander","%s changed a cube in memory it was not given: %s",save?SVN[sv]:LDN[ld],why.c_str()); if(lib_dead()) probe("c17 operation stopped"); else if(o.ret()&&fs_open_handles()) violate("C17:handle","%s left a file open",save?SVN[sv]:LDN[ld]); });
    fs_disarm(); if(lf.kind==L_CRASH) { fault(F_RESTART); probe("c17 crashed"); } auto after=fs_all();
    if(!save){ if(after!=before) pviol(std::string("C17:load-writes:")+LDN[ld],"%s changed a file",LDN[ld]); }
    else { for(auto&k:before){ bool own=k.first==path||k.first==hdr_of(path); if(own) continue; auto it=after.find(k.first); if(it==after.end()||it->second!=k.second) pviol(std::string("C17:other-file:")+SVN[sv],"%s(%s) %s the file %s",SVN[sv],path.c_str(),it==after.end()?"removed":"changed",k.first.c_str()); }
      // a save may keep scratch files of its own beside its target, but no other new name
      for(auto&k:after) if(!before.count(k.first)&&k.first.compare(0,path.size(),path)!=0) pviol(std::string("C17:other-file:")+SVN[sv],"%s(%s) created the file %s",SVN[sv],path.c_str(),k.first.c_str());
      if(sv==SV_BMP&&after.count(hdr_of(path))&&(!before.count(hdr_of(path))||before[hdr_of(path)]!=after[hdr_of(path)])) pviol("C17:other-file:smwrite_bmp","smwrite_bmp changed a header file"); } }
  // calm phase: faults have stopped; every path must work again at the first attempt
  fs_disarm(); std::set<std::string> used; for(auto&s:p.steps) used.insert(P17[(u64)s.g(0)%4]); int k=0; for(auto&path:used){ Rng r(p.seed+77+k); Cube c=random_cube(r); int sv=k++%2; auto before=fs_all(); life([&]{ apply_env(p,1000+k); Out o=do_save_cube(sv,path,c,0); expect_return("C17",SVN[sv],o); check_disk("C17:recovery",path,c,SVN[sv]); LoadArg a; a.path=path; a.hdr=hdr_of(path); for(int ld:{(int)LD_C,(int)LD_HY}){ Loaded L=do_load(ld,a); expect_return("C17",LDN[ld],L.o); if(!L.obj) violate(std::string("C17:recovery:")+LDN[ld],"%s refused the first save after faults stopped",LDN[ld]); same_cube("C17:recovery",LDN[ld],L.c,on_disk(c)); } Img m=img_of(c); std::string bp=path+".bmp"; Out ob=do_save_bmp(bp,m,0); expect_return("C17","smwrite_bmp",ob); LoadArg b; b.path=bp; Loaded B=do_load(LD_BMP,b); expect_return("C17","smread_bmp",B.o); std::string why; if(!B.obj||!B.m.same(m,&why)) violate("C17:recovery:bmp","a bitmap written after faults stopped did not read back: %s",why.c_str()); }); fs_del(path+".bmp"); probe("c17 recoveries"); }
  for(auto&k:decoys) if(fs_get(k.first)!=k.second) pviol("C17:other-file","the file %s was changed",k.first.c_str()); }
// ================================================================== C20
// case: loader path style offset byteorder(0,1,2 absent) defect arg how save-again extra-bytes | cube
static const char* const D20[]={"none","cut image","offset past the end","negative offset","unknown byte order","open fails","read fails","seek fails","unknown data type","header cut","field missing","damaged wavelength list"};
static Plan gen_c20(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C20"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?6:4); for(int i=0;i<n;i++){ Step s; s.op="case"; s.a={(i64)r.below(3),(i64)r.below(NPATHS),(i64)(r.next()>>20),(i64)(r.chance(1,2)?0:r.chance(1,6)?r.range(1,70000):r.range(1,600)),(i64)r.below(3),(i64)(r.chance(3,5)?0:1+r.below(11)),(i64)(r.next()>>40),(i64)r.below(12),(i64)r.below(4),(i64)(r.chance(3,4)?0:r.below(50))}; push_cube(s,r,r.chance(1,6)); p.steps.push_back(s);} return p; }
static void run_c20(const Plan&p){ u64 salt=0; const int LD[3]={LD_C,LD_HY,LD_HMREAD}; for(auto&s:p.steps){ salt++; fs_wipe(); fs_disarm(); int ld=LD[(u64)s.g(0)%3]; Cube c=cube_at(s,10); std::string path=path_of(s.g(1)); long off=clampi(s.g(3),0,100000); int bo=(int)((u64)s.g(4)%3),defect=(int)((u64)s.g(5)%12); Rng r((u64)s.g(2)); u64 arg=(u64)s.g(6);
    std::string text=hdr_foreign(c,off,bo,r),img; for(long i=0;i<off;i++) img+=(char)r.next(); std::string d=c.d; if(bo==1) for(size_t i=0;i+c.es()<=d.size();i+=c.es()) std::reverse(d.begin()+(i64)i,d.begin()+(i64)(i+c.es())); img+=d; for(i64 i=0;i<(i64)clampi(s.g(9),0,1000);i++) img+=(char)r.next();
    Cube want=c; if(!c.hasw) want.w.assign(c.b,0.f); want.hasw=true; bool must_fail=false; FsArm arm;
    auto field=[&](const char*k,const std::string&v){ size_t q=0; bool done=false,in=false; while(q<text.size()&&!done){ size_t e=text.find('\n',q); if(e==std::string::npos) e=text.size(); std::string line=text.substr(q,e-q); bool was=in; if(line.find('{')!=std::string::npos) in=true; if(line.find('}')!=std::string::npos) in=false; if(was){ q=e+1; continue; } size_t f=line.find_first_not_of(" \t"); if(f!=std::string::npos&&!line.compare(f,strlen(k),k)){ size_t g=line.find_first_not_of(" \t",f+strlen(k)); if(g!=std::string::npos&&line[g]=='='){ text.replace(q,e-q,std::string(k)+" = "+v); done=true; } } q=e+1; } if(!done) text+="\n"+std::string(k)+" = "+v+"\n"; };
    LoadArg a; a.path=path; a.hdr=hdr_of(path); fs_put(path,img); fs_put(a.hdr,text); tracef("%s over a foreign header of %zu bytes, offset %ld, byte order %d, %s",LDN[ld],text.size(),off,bo,D20[defect]);
    // in some runs another pair has been read before by the same process; what it said must not show in what follows
    u64 ps=mix64((u64)s.g(2)^0x9e1); bool prior=ps&1; LoadArg pa; pa.path=path+".prior"; pa.hdr=hdr_of(pa.path); int pld=LD[(ps>>1)%3]; if(prior){ Rng q(ps); Cube pc=gen_cube((int)q.range(1,9),(int)q.range(1,9),(int)q.range(1,9),DTYPES[q.below(9)],(int)q.below(3),0,(int)q.below(7),ps); if(q.chance(1,2)){ pc.s=c.s; pc.l=c.l; pc.b=c.b; pc.dt=c.dt; pc.d.assign(pc.bytes(),'p'); pc.w.assign(pc.b,7.f); } long po=q.chance(1,2)?(long)q.below(90):0; int pb=(int)q.below(3); std::string pt=hdr_foreign(pc,po,pb,q); fs_put(pa.hdr,pt); fs_put(pa.path,std::string((size_t)po,'q')+pc.d); }
    auto earlier=[&]{ if(prior){ do_load(pld,pa,(int)(arg&1)); probe("c20 another pair read before"); } };
    // an intact pair first: it must be read right
    bool longline=false; { size_t q=0; while(q<text.size()){ size_t e=text.find('\n',q); if(e==std::string::npos) e=text.size(); if(e-q>9000) longline=true; q=e+1; } } if(longline) probe("c20 headers with lines over 9000 letters");
    blob_reset(); life([&]{ apply_env(p,salt); earlier(); fs_reset_counters(); put_loaded(do_load(ld,a,(int)(arg&1))); }); { BlobReader b; Loaded L=get_loaded(b); if(L.failed()) pviol(std::string("C20:refused:")+LDN[ld],"%s refuses %s described by this header (offset %ld, byte order %d): %s",LDN[ld],desc(c).c_str(),off,bo,hexdump(text,500).c_str()); else { std::string why; Cube g=L.c; for(float&f:g.w) if(f==0) f=0; Cube w=want; for(float&f:w.w) if(f==0) f=0; if(!g.same(w,&why)) pviol(std::string("C20:wrong:")+LDN[ld],"%s reads %s (offset %ld, byte order %d) wrongly: %s; header: %s",LDN[ld],desc(c).c_str(),off,bo,why.c_str(),hexdump(text,500).c_str()); } probe(off?bo==1?"c20 offset and swapped":"c20 offset":bo==1?"c20 swapped":"c20 plain"); }
    u64 nopen=fs_events(E_OPEN_R),nread=fs_events(E_READ),nseek=fs_events(E_SEEK); fs_reset_counters();
    switch(defect){ case 0: break; case 1: fs_put(path,img.substr(0,(size_t)(arg%(off+c.bytes())))); must_fail=true; fault(F_TRUNCATE); break; case 2: field("header offset",std::to_string((u64)img.size()-c.bytes()+1+arg%(arg&64?5000000000ull:c.bytes()*2))); must_fail=true; break; case 3: field("header offset",std::to_string(-(i64)(1+arg%5000))); must_fail=true; break; case 4: field("byte order",arg&1?"2":arg&2?"-1":"17"); must_fail=true; break;
      case 5: if(nopen){ arm.kind=E_OPEN_R; arm.nth=1+(i64)(arg%nopen); arm.how=(int)s.g(7); must_fail=true; } break; case 6: if(nread){ arm.kind=E_READ; arm.nth=1+(i64)(arg%nread); arm.how=(int)s.g(7); arm.sticky=(int)(arg>>20&1); } break; case 7: if(nseek){ arm.kind=E_SEEK; arm.nth=1+(i64)(arg%nseek); } break;
      case 8: { static const char*dt[]={"0","7","8","10","11","16","-4","99","6","9"}; field("data type",dt[arg%10]); must_fail=true; break; } case 9: { size_t q=text.size(); for(const char*k:{"samples","lines","bands","data type","interleave"}){ size_t e=0; while(e<text.size()){ size_t z=text.find('\n',e); if(z==std::string::npos) z=text.size(); size_t f=text.find_first_not_of(" \t",e); if(f<z&&!text.compare(f,strlen(k),k)) q=std::min(q,f); e=z+1; } } text.resize(q?(size_t)(arg%q):0); must_fail=true; fault(F_TRUNCATE); break; }
      case 10: { static const char*K[]={"samples","lines","bands","data type","interleave"}; const char*k=K[arg%5]; size_t q=0; bool in=false; while(q<text.size()){ size_t e=text.find('\n',q); if(e==std::string::npos) e=text.size()-1; std::string line=text.substr(q,e-q+1); bool was=in; if(line.find('{')!=std::string::npos) in=true; if(line.find('}')!=std::string::npos) in=false; size_t f=line.find_first_not_of(" \t"); size_t g=!was&&f!=std::string::npos&&!line.compare(f,strlen(k),k)?line.find_first_not_of(" \t",f+strlen(k)):std::string::npos; if(g!=std::string::npos&&line[g]=='='){ text.erase(q,e-q+1); must_fail=true; continue; } q=e+1; } break; }
      case 11: { size_t q=std::string::npos; bool in=false; for(size_t a=0;a<text.size();){ size_t e=text.find('\n',a); if(e==std::string::npos) e=text.size(); std::string line=text.substr(a,e-a); bool was=in; if(line.find('{')!=std::string::npos) in=true; if(line.find('}')!=std::string::npos) in=false; size_t f=line.find_first_not_of(" \t"); size_t g=!was&&f!=std::string::npos&&!line.compare(f,10,"wavelength")?line.find_first_not_of(" \t",f+10):std::string::npos; if(g!=std::string::npos&&line[g]=='='){ q=text.find('{',a); break; } a=e+1; } if(!c.hasw||q==std::string::npos) break; size_t z=text.find('}',q); must_fail=true;
        switch(arg%6){ case 0: text.insert(z,", 5.5"); break; case 1: { size_t k=text.rfind(',',z); if(k!=std::string::npos&&k>q) text.erase(k,z-k); else text.erase(q+1,z-q-1); break; } case 2: text.insert(q+1,"x"); break; case 3: text.insert(z,","); break; case 4: text.insert(z," nm"); break; default: text.resize(z); fault(F_TRUNCATE); } break; } }
    if(defect){ fs_put(a.hdr,text); auto before=fs_all(); blob_reset(); life([&]{ apply_env(p,salt+50); earlier(); fs_reset_counters(); if(arm.kind>=0) fs_arm(arm); put_loaded(do_load(ld,a,(int)(arg&1))); }); fs_disarm(); BlobReader b; Loaded L=get_loaded(b); char pn[48]; snprintf(pn,48,"c20 %s",D20[defect]); probe(pn); if(arm.kind>=0&&!fs_faults_fired()) must_fail=false;
      if(!L.failed()&&(must_fail||(arm.kind>=0&&!eq_cube(L.c,want)))) pviol(std::string("C20:made-up:")+LDN[ld],"%s returns %s although: %s (offset %ld, %zu image bytes)",LDN[ld],desc(L.c).c_str(),D20[defect],off,fs_get(path).size()); if(L.o.kind==O_EXIT&&L.o.code==0) pviol(std::string("C20:exit0:")+LDN[ld],"%s ends the process with status 0 although: %s",LDN[ld],D20[defect]); if(fs_all()!=before) pviol(std::string("C20:writes:")+LDN[ld],"%s changed files",LDN[ld]); continue; }
    // what was read goes out through the library again, also over the foreign pair, and comes back the same
    int again=(int)((u64)s.g(8)%4); if(again) life([&]{ apply_env(p,salt+70); int sv=again&1; std::string to=again<3?path:path+".copy"; Cube g; if(ld==LD_C){ hyper_mat m=nullptr; Out o=lib([&]{ m=hmread_with_hdr(path.c_str(),a.hdr.c_str()); }); if(!o.ret()||!m) violate("C20:refused:hmread_with_hdr","hmread_with_hdr refuses a pair it read before"); o=lib([&]{ hmsave(to.c_str(),m); }); expect_return("C20","hmsave",o); lib([&]{ delete_hyper_mat(m); }); } else { Out o=do_save_cube(sv,to,want,0); expect_return("C20",SVN[sv],o); }
      check_disk("C20:again",to,want,ld==LD_C?"hmsave":SVN[sv]); LoadArg b=a; b.path=to; b.hdr=hdr_of(to); int l2=LD[(again+(int)(arg%3))%3]; Loaded L=do_load(l2,b); expect_return("C20",LDN[l2],L.o); if(!L.obj) violate(std::string("C20:refused:")+LDN[l2],"%s refuses what a save over a foreign pair left",LDN[l2]); same_cube("C20:again",LDN[l2],L.c,on_disk(want)); probe("c20 saved again"); }); } }
extern const Prop PC01={"C01",gen_c01,run_c01,18000,600000}, PC02={"C02",gen_c02,run_c02,18000,600000}, PC03={"C03",gen_c03,run_c03,14000,500000}, PC04={"C04",gen_c04,run_c04,8000,300000}, PC05={"C05",gen_c05,run_c05,30000,1200000}, PC06={"C06",gen_c06,run_c06,9000,600000}, PC17={"C17",gen_c17,run_c17,6000,250000}, PC20={"C20",gen_c20,run_c20,12000,500000};
