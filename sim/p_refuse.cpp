// C18: requests outside an operation's domain are refused, requests inside are served.
#include "glue.hpp"
#include <algorithm>
extern "C" void matrix_row_multi_scalar_float(float*,int,int,int,float); extern "C" void shear_row(float*,int,int,int,int,float); extern "C" float cal_edge_signal_energy(simple_mat);
struct KX { Rng r; int sel,count=0; bool dry; std::string bad; int R,C,B,DT,IL,CH; u64 p[4]; int place; std::function<void()> call; bool want_files=true;
  KX(u64 seed,int s,bool d):r(seed),sel(s),dry(d){ auto dim=[&]{ return r.chance(1,12)?(int)r.range(17,70):(int)r.range(1,7); }; R=dim(); C=dim(); B=r.chance(1,8)?(int)r.range(9,30):(int)r.range(1,5); DT=DTYPES[r.below(9)]; IL=(int)r.below(3); static const int chs[]={1,3,2,4}; CH=chs[r.below(4)]; for(u64&x:p) x=r.next()>>20; place=(int)r.below(2); vs=r.next(); }
  u64 vs; int nobj=0;
  bool opt(const std::string&what){ bool on=count++==sel; if(on) bad=what; return on; }
  int other(int v,int lo,int hi){ Rng q(vs+count*77+v); int o; do o=(int)q.range(lo,hi); while(o==v); return o; }
  int off(int v){ Rng q(vs+count*31); switch(q.below(5)){ case 0: return v+1; case 1: return v>1?v-1:v+1; case 2: return v+(int)q.range(1,9); case 3: return v>1?1+(int)q.below(v-1):v+2; default: return 2*v; } }
  int type_not(int dt){ Rng q(vs+count*13); int o; do o=DTYPES[q.below(9)]; while(o==dt); return o; }
  // letters: n NULL, r rows, c columns, R fewer rows, C fewer columns, t element type, h channels
  simple_mat img(int rr,int cc,int dt,int ch,const char*muts,const char*who){ std::string w=who; simple_mat nul=nullptr; bool isnull=false; for(const char*m=muts;*m;m++) switch(*m){ case 'n': if(opt(w+" is NULL")) isnull=true; break; case 'r': if(opt(w+" has other rows")) rr=off(rr); break; case 'c': if(opt(w+" has other columns")) cc=off(cc); break; case 'R': if(rr>1&&opt(w+" has too few rows")) rr=1+(int)(vs%(rr-1)); break; case 'C': if(cc>1&&opt(w+" has too few columns")) cc=1+(int)(vs%(cc-1)); break; case 't': if(opt(w+" has another element type")) dt=type_not(dt); break; case 'h': if(opt(w+" has another number of channels")) ch=other(ch,1,4); break; }
    if(strchr(muts,'r')&&strchr(muts,'c')){ if(rr!=cc&&opt(w+" has rows and columns exchanged")) std::swap(rr,cc); if(rr>1&&opt(w+" has the same number of pixels in one row")){ cc*=rr; rr=1; } }
    if(strchr(muts,'h')&&strchr(muts,'c')&&ch>1&&opt(w+" has its channels as columns")){ cc*=ch; ch=1; }
    if(dry||isnull) return nul; Img m=gen_img(rr,cc,dt,ch,(int)(vs%6),vs+nobj++); return mk_img(m,place); }
  // letters: n NULL, s samples, l lines, b bands, t element type, i layout
  hyper_mat cube(int s,int l,int b,int dt,int il,const char*muts,const char*who){ std::string w=who; bool isnull=false; for(const char*m=muts;*m;m++) switch(*m){ case 'n': if(opt(w+" is NULL")) isnull=true; break; case 's': if(opt(w+" has other samples")) s=off(s); break; case 'l': if(opt(w+" has other lines")) l=off(l); break; case 'b': if(opt(w+" has other bands")) b=off(b); break; case 't': if(opt(w+" has another element type")) dt=type_not(dt); break; case 'i': if(opt(w+" has another layout")) il=(il+1+(int)(vs%2))%3; break; }
    if(strchr(muts,'s')&&strchr(muts,'l')){ if(s!=l&&opt(w+" has samples and lines exchanged")) std::swap(s,l); if(strchr(muts,'b')){ if(s!=b&&opt(w+" has samples and bands exchanged")) std::swap(s,b); if(l!=b&&opt(w+" has lines and bands exchanged")) std::swap(l,b); if(s*l>1&&opt(w+" has all elements in its bands")){ b*=s*l; s=l=1; } } }
    if(dry||isnull) return nullptr; Cube c=gen_cube(s,l,b,dt,il,(int)(vs%6),1,vs+nobj++); return mk_cube(c,place); }
  void* hy(int s,int l,int b,int dt,int il,const char*muts){ for(const char*m=muts;*m;m++) switch(*m){ case 'i': if(opt("the cube has another layout")) il=(il+1+(int)(vs%2))%3; break; }
    if(dry) return nullptr; Cube c=gen_cube(s,l,b,dt,il,(int)(vs%6),1,vs+nobj++); void*q=sim_malloc(hy_size()); void*d=sim_malloc(c.bytes()); memcpy(d,c.d.data(),c.bytes()); float*w=(float*)sim_malloc(4u*b); memcpy(w,c.w.data(),4u*b); Out o=lib([&]{ hy_construct7(q,s,l,b,dt,hy_fmt(il),d,w); }); if(!o.ret()) violate("setup:hymat","constructing a cube ended the process"); return q; }
  void* raw(size_t n){ if(dry) return nullptr; void*p=sim_malloc(n); Rng q(vs+nobj++); for(size_t i=0;i<n;i++) ((u8*)p)[i]=(u8)q.next(); return p; }
  float* floats(int n){ float*f=(float*)raw(4*(size_t)n); if(f) for(int i=0;i<n;i++) f[i]=1.f+(float)((vs>>i%40)&15); return f; }
  template<class T> T* maybe(T*v,const std::string&w){ return opt(w+" is NULL")?nullptr:v; }
  int num(int v,const std::string&w,std::initializer_list<int> bads){ for(int b:bads) if(opt(w+" "+std::to_string(b))) v=b; return v; }
  int mode(int v,const std::string&w,std::initializer_list<int> good){ if(opt("unknown "+w)){ Rng q(vs); do v=(int)q.range(-3,40); while(std::find(good.begin(),good.end(),v)!=good.end()); } return v; } };
struct KDef { const char*name; void(*build)(KX&k); };
static std::vector<KDef>& kt(){ static std::vector<KDef> t; return t; }
struct KReg { KReg(const char*n,void(*b)(KX&)){ kt().push_back({n,b}); } };
#define K(name) static void kb_##name(KX&k); static KReg kr_##name(#name,kb_##name); static void kb_##name(KX&k)
#define DO(code) k.call=[=]() mutable { code; }
static void neg(KX&k,int&s,int&l,int&b){ s=k.num(s,"samples",{0,-1,-7}); l=k.num(l,"lines",{0,-1,-7}); b=k.num(b,"bands",{0,-1,-7}); }
static int badtype(KX&k,int dt){ return k.mode(dt,"element type",{1,2,3,4,5,6,9,12,13,14,15,16}); }
static char* il_text(KX&k,int il){ bool u=k.opt("unknown layout"),n=k.opt("the layout is NULL"); char*t=(char*)k.raw(4); static const char*U[]={"","abc","bqs","bis","b","bsp","qsb"}; if(t) strcpy(t,u?U[k.vs%7]:ILN[il]); return n?nullptr:t; }
// creation
K(create_hyper_mat){ int s=k.C,l=k.R,b=k.B; neg(k,s,l,b); int dt=badtype(k,k.DT); char*il=il_text(k,k.IL); DO(create_hyper_mat(s,l,b,dt,il)); }
K(create_hyper_mat_with_data){ int s=k.C,l=k.R,b=k.B; neg(k,s,l,b); int dt=badtype(k,k.DT); char*il=il_text(k,k.IL); void*d=k.raw((size_t)k.C*k.R*k.B*8); DO(create_hyper_mat_with_data(s,l,b,dt,il,d,nullptr)); }
K(create_simple_mat){ int r=k.num(k.R,"rows",{0,-1,-9}),c=k.num(k.C,"columns",{0,-1,-9}),h=k.num(k.CH,"channels",{0,-1}); int dt=badtype(k,k.DT); DO(create_simple_mat(r,c,dt,h)); }
K(create_simple_mat_with_data){ int r=k.num(k.R,"rows",{0,-1,-9}),c=k.num(k.C,"columns",{0,-1,-9}),h=k.num(k.CH,"channels",{0,-1}); int dt=badtype(k,k.DT); void*d=k.p[0]%3?k.raw((size_t)k.R*k.C*k.CH*8):nullptr; DO(create_simple_mat_with_data(r,c,dt,h,d)); }
K(simple_mat_copy){ auto a=k.img(k.R,k.C,k.DT,k.CH,"n","the image"); DO(simple_mat_copy(a)); }
K(create_2D_struct){ int w=k.num(1+k.p[0]%5,"width",{0,-1,-5}),h=k.num(1+k.p[1]%5,"height",{0,-1,-5}); DO(create_2D_struct(w,h)); }
K(create_2D_struct_with_data){ int w=k.num(1+k.p[0]%5,"width",{0,-1,-5}),h=k.num(1+k.p[1]%5,"height",{0,-1,-5}); void*d=k.raw(25); DO(create_2D_struct_with_data(w,h,d)); }
K(hyper_mat_copy_to){ auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the source"),b=k.cube(k.C,k.R,k.B,k.DT,(int)(k.p[0]%3),"nslbt","the target"); DO(hyper_mat_copy_to(a,b)); }
K(hyper_mat_copy_wavelength){ auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the source"),b=k.cube(1+k.p[0]%4,1+k.p[1]%4,k.B,k.DT,(int)(k.p[2]%3),"nb","the target"); DO(hyper_mat_copy_wavelength(a,b)); }
// layouts
// a cube already in the target layout is inside the domain: only the third layout is not
#define LAY(fn,from,to) K(fn){ int il=k.p[0]%4?from:to; if(k.opt("the cube has a layout that is neither the source nor the target")) il=3-from-to; auto a=k.cube(k.C,k.R,k.B,k.DT,il,"n","the cube"); DO(fn(a)); }
LAY(bil2bsq,1,0) LAY(bil2bip,1,2) LAY(bsq2bil,0,1) LAY(bsq2bip,0,2) LAY(bip2bsq,2,0) LAY(bip2bil,2,1)
#define CNV(fn) K(fn){ auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); DO(fn(a)); }
CNV(convert2bsq) CNV(convert2bil) CNV(convert2bip)
// parts
struct Box { int r0,c0,b0,r1,c1,b1; };
static Box box(KX&k){ Box x; x.r0=(int)(k.p[0]%k.R); x.c0=(int)(k.p[1]%k.C); x.b0=(int)(k.p[2]%k.B); x.r1=x.r0+1+(int)(k.p[3]%(k.R-x.r0)); x.c1=x.c0+1+(int)(k.p[3]/7%(k.C-x.c0)); x.b1=x.b0+1+(int)(k.p[3]/3%(k.B-x.b0)); int far=1+(int)(k.vs%3);
  if(k.opt("start row -1")) x.r0=-far; if(k.opt("start column -1")) x.c0=-far; if(k.opt("start band -1")) x.b0=-far; if(k.opt("end row beyond the cube")) x.r1=k.R+far; if(k.opt("end column beyond the cube")) x.c1=k.C+far; if(k.opt("end band beyond the cube")) x.b1=k.B+far; if(k.opt("no rows")) x.r1=x.r0; if(k.opt("no columns")) x.c1=x.c0; if(k.opt("no bands")) x.b1=x.b0; if(k.opt("rows reversed")) x.r1=x.r0-far; if(k.opt("columns reversed")) x.c1=x.c0-far; if(k.opt("bands reversed")) x.b1=x.b0-far;
  if(k.opt("the range lies behind the last row")){ x.r0=k.R; x.r1=k.R+far; } if(k.opt("the range lies behind the last column")){ x.c0=k.C; x.c1=k.C+far; } if(k.opt("the range lies behind the last band")){ x.b0=k.B; x.b1=k.B+far; } return x; }
K(hyper_mat_get_range){ Box x=box(k); auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); DO(hyper_mat_get_range(a,x.r0,x.c0,x.b0,x.r1,x.c1,x.b1)); }
K(reshape_hypermat_2_simplemat){ int n=k.R*k.C*k.B,rows=k.p[0]%2?k.R*k.C:k.R; int cols=n/rows; if(k.opt("one row too many")) rows++; if(k.opt("one column too many")) cols++; if(k.opt("too few rows")) rows=0; if(k.opt("rows and columns negative")){ rows=-rows; cols=-cols; } auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); DO(reshape_hypermat_2_simplemat(a,rows,cols)); }
K(hyper_mat_2_simple_mat){ int band=k.num(1+(int)(k.p[0]%k.B),"band",{0,-1,k.B+1,k.B+5}); auto a=k.cube(k.C,k.R,k.B,k.DT,0,"ni","the cube"); auto d=k.img(k.R,k.C,k.DT,1,"nRC","the image"); DO(hyper_mat_2_simple_mat(a,d,band)); }
K(simple_mat_2_hyper_mat){ int band=k.num(1+(int)(k.p[0]%k.B),"band",{0,-1,k.B+1,k.B+5}); auto a=k.cube(k.C,k.R,k.B,k.DT,0,"ni","the cube"); auto d=k.img(k.R,k.C,k.DT,1,"nrcth","the image"); DO(simple_mat_2_hyper_mat(a,d,band)); }
K(hyper_mat_splicing){ int ps=1+(int)(k.p[0]%k.C),pl=1+(int)(k.p[1]%k.R),pb=1+(int)(k.p[2]%k.B); int free=k.R*k.C*k.B-ps*pl*pb; int st=free?(int)(k.p[3]%(free+1)):0; if(k.opt("the part ends one element behind the cube")) st=free+1; if(k.opt("the part starts behind the cube")) st=k.R*k.C*k.B+(int)(k.vs%5); if(k.opt("the part starts before the cube")) st=-1-(int)(k.vs%4); auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); if(k.opt("the part is larger than the cube")){ ps=k.C+1; pl=k.R; pb=k.B; st=0; } auto b=k.cube(ps,pl,pb,k.DT,k.IL,"nt","the part"); DO(hyper_mat_splicing(a,b,st)); }
K(hyper_mat_transport){ auto a=k.cube(k.C,k.R,k.B,k.DT,0,"nit","the source"); auto d=k.cube(k.R,k.C,k.B,k.DT,0,"nslbt","the target"); DO(hyper_mat_transport(d,a)); }
K(simple_mat_transport){ auto a=k.img(k.R,k.C,k.DT,k.CH,"n","the source"); auto d=k.img(k.C,k.R,k.DT,k.CH,"nrcth","the target"); DO(simple_mat_transport(d,a)); }
#define ADD(fn,dt) K(fn){ auto a=k.img(k.R,k.C,dt,k.CH,"nt","the first image"),b=k.img(k.R+k.p[0]%3,k.C+k.p[1]%3,dt,k.CH,"nht","the second image"); auto d=k.img(k.R,k.C,dt,k.CH,"nRCht","the result"); DO(fn(a,b,d)); }
ADD(simple_mat_addition_uchar,1) ADD(simple_mat_addition_float,4)
K(simple_mat_log){ auto a=k.img(k.R,k.C,4,1,"nt","the source"),d=k.img(k.R,k.C,4,1,"ntrc","the result"); DO(simple_mat_log(a,d)); }
// geometry and filters
#define TWO(fn,dt,ch,m1,m2,...) K(fn){ auto a=k.img(k.R,k.C,dt,ch,m1,"the source"),d=k.img(k.R,k.C,dt,ch,m2,"the result"); int q0=(int)(k.p[0]%256),q1=(int)(k.p[1]%256); (void)q0; (void)q1; DO(fn(__VA_ARGS__)); }
TWO(simple_mat_flip_horizontal,k.DT,k.CH,"n","nrcth",a,d) TWO(simple_mat_flip_vertical,k.DT,k.CH,"n","nrcth",a,d) TWO(simple_mat_flip,k.DT,k.CH,"n","nrcth",a,d,q0%3-1)
K(hypercv_pyramid_down){ int r=std::max(2,k.R),c=std::max(2,k.C); int dr=(r+1)/2,dc=(c+1)/2; if(k.opt("one row")){ r=1; dr=1; } if(k.opt("one column")){ c=1; dc=1; } int ch=k.CH%2?k.CH:1; auto a=k.img(r,c,1,ch,"n","the source"); auto d=k.img(dr,dc,1,ch,"nrcth","the result"); DO(hypercv_pyramid_down(a,d)); }
K(hypercv_pyramid_up){ int r=std::max(2,k.R),c=std::max(2,k.C); if(k.opt("one row")) r=1; if(k.opt("one column")) c=1; int ch=k.CH%2?k.CH:1; auto a=k.img(r,c,1,ch,"n","the source"); auto d=k.img(2*r,2*c,1,ch,"nrcth","the result"); DO(hypercv_pyramid_up(a,d)); }
K(hyper_mat_rotate){ auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); DO(hyper_mat_rotate(a,90)); }
#define BORDERS {0,1,2,3,4}
K(hypercv_copy_make_border){ int t=k.num((int)(k.p[0]%4),"top",{-1,-3}),b=k.num((int)(k.p[1]%4),"bottom",{-1,-3}),l=k.num((int)(k.p[2]%4),"left",{-1,-3}),r=k.num((int)(k.p[3]%4),"right",{-1,-3}); int bt=k.mode((int)(k.p[0]/4%5),"border",BORDERS); auto a=k.img(k.R,k.C,k.DT,k.CH,"n","the source"); DO(hypercv_copy_make_border(a,t,b,l,r,bt,7)); }
K(hypercv_filter2D){ auto a=k.img(k.R,k.C,1,k.CH,"nt","the source"); auto d=k.img(k.R,k.C,4,k.CH,"nrcth","the result"); float*f=k.maybe(k.floats(9),"the kernel"); DO(hypercv_filter2D(a,d,f,3,3,BORDER_REPLICATE)); }
K(gaussian_kernel){ int n=k.num(1+2*(int)(k.p[0]%5),"size",{0,-1,-3}); int t=k.mode(k.p[1]%2?4:5,"kernel type",{4,5}); DO(gaussian_kernel(n,1.5,t)); }
K(hypercv_gaussian_blur){ int w=k.num(1+2*(int)(k.p[0]%3),"width",{0,2,4,-1,-3}),h=k.num(1+2*(int)(k.p[1]%3),"height",{0,2,4,-1,-3}); int bt=k.mode((int)(k.p[2]%5),"border",BORDERS); int ch=k.CH%2?k.CH:3; if(k.opt("two channels")) ch=2; if(k.opt("four channels")) ch=4; auto a=k.img(k.R,k.C,1,ch,"nt","the source"); auto d=k.img(k.R,k.C,1,ch,"nrcth","the result"); DO(hypercv_gaussian_blur(a,d,w,h,1.2,0.8,bt)); }
K(hypercv_gaussian_blur_with_kernel){ int kw=1+2*(int)(k.p[0]%3),kh=1+2*(int)(k.p[1]%3); int bt=k.mode((int)(k.p[2]%5),"border",BORDERS); int ch=k.CH%2?k.CH:3; if(k.opt("two channels")) ch=2; if(k.opt("four channels")) ch=4; auto a=k.img(k.R,k.C,1,ch,"nt","the source"); auto d=k.img(k.R,k.C,1,ch,"nrcth","the result"); auto x=k.img(1,kw,4,1,"nt","the horizontal kernel"),y=k.img(1,kh,4,1,"nt","the vertical kernel"); DO(hypercv_gaussian_blur_with_kernel(a,d,x,y,bt)); }
K(hypercv_integral){ auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,3,1,"nrcth","the result"); DO(hypercv_integral(a,d)); }
K(hypercv_sobel){ int bt=k.mode((int)(k.p[2]%5),"border",BORDERS); auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); DO(hypercv_sobel(a,d,100,bt)); }
K(hypercv_laplacian){ int n=k.num(1+(int)(k.p[0]%3),"size",{0,-1}); auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); DO(hypercv_laplacian(a,d,n,BORDER_REFLECT)); }
#define THR(fn) TWO(fn,1,1,"nth","nrcth",a,d,q0,q1)
THR(hypercv_threshold_binary) THR(hypercv_threshold_binary_inv) THR(hypercv_threshold_trunc) THR(hypercv_threshold_tozero) THR(hypercv_threshold_tozero_inv)
TWO(hypercv_threshold_otsu,1,1,"nth","nrcth",a,d)
K(hypercv_threshold){ static const int T[]={0,1,2,3,4,8}; int t=k.mode(T[k.p[0]%6],"threshold type",{0,1,2,3,4,7,8,16}); auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); DO(hypercv_threshold(a,d,100,200,t)); }
static S_2D kern(KX&k){ int w=1+(int)(k.p[0]%k.C)%3,h=1+(int)(k.p[1]%k.R)%3; w=std::min(w,k.C); h=std::min(h,k.R); int far=1+(int)(k.vs%3); if(k.opt("the kernel is wider than the image")) w=k.C+far; if(k.opt("the kernel is taller than the image")) h=k.R+far; if(k.dry) return nullptr; STRUCT_2D*q=(STRUCT_2D*)k.raw(sizeof(STRUCT_2D)); memset(q,0,sizeof*q); q->width=w; q->height=h; q->data=k.raw(w*h); for(int i=0;i<w*h;i++) ((char*)q->data)[i]&=1; return (S_2D)q; }
#define MOR(fn,...) K(fn){ auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); S_2D q=k.maybe(kern(k),"the kernel"); DO(fn(a,d,q __VA_ARGS__)); }
// smoothing with a window
K(hypercv_medianblur){ int n=k.num(1+2*(int)(k.p[0]%4),"size",{0,2,4,-1,-3}); auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); DO(hypercv_medianblur(a,d,n)); }
K(hypercv_meanblur){ int n=k.num(1+(int)(k.p[0]%7),"size",{0,-1,-3}); auto a=k.img(k.R,k.C,1,1,"nth","the source"); auto d=k.img(k.R,k.C,1,1,"nrcth","the result"); DO(hypercv_meanblur(a,d,n)); }
MOR(hypercv_corrosion) MOR(hypercv_expend) MOR(hypercv_open,,2) MOR(hypercv_close,,2)
// colours and types
#define ONE(fn,dt,ch,m) K(fn){ auto a=k.img(k.R,k.C,dt,ch,m,"the image"); DO(fn(a)); }
ONE(sm_binary2rgb,1,1,"nth") ONE(sm_gray2rgb,1,1,"nth") ONE(simple_mat_float2uchar,4,k.CH,"nt")
K(sm_rgb2gray){ auto a=k.img(k.R,k.C,1,3,"nth","the image"); DO(sm_rgb2gray(a,(int)(k.p[0]%3))); }
K(sm_bgr2rgb){ auto a=k.img(k.R,k.C,1,3,"nth","the source"); auto d=k.img(k.R,k.C,1,3,"nrcth","the result"); DO(sm_bgr2rgb(a,d)); }
extern "C" hyper_mat hyper_mat_float2uint(hyper_mat);
#define TYP(fn,from) K(fn){ auto a=k.cube(k.C,k.R,k.B,from,k.IL,"nt","the cube"); DO(fn(a)); }
TYP(hyper_mat_uchar2short,1) TYP(hyper_mat_uchar2int,1) TYP(hyper_mat_uchar2float,1) TYP(hyper_mat_uchar2ushort,1) TYP(hyper_mat_float2int,4) TYP(hyper_mat_float2char,4) TYP(hyper_mat_float2short,4) TYP(hyper_mat_float2ushort,4) TYP(hyper_mat_float2uchar,4) TYP(hyper_mat_ushort2float,12) TYP(hyper_mat_float2uint,4)
// statistics
#define STA(fn) K(fn){ static const int T[]={1,2,3,4,12},U[]={5,13,14,15}; int t=T[k.p[0]%5]; if(k.opt("unsupported element type")) t=U[k.vs%4]; auto a=k.img(k.R,k.C,t,1,"nh","the image"); DO(fn(a)); }
STA(simple_mat_mean) STA(simple_mat_variance) ONE(simple_mat_contrast_ratio,1,1,"nt") ONE(simple_mat_entropy,1,1,"nt") ONE(cal_edge_signal_energy,1,1,"nht")
K(simple_mat_grayscale_statistics){ auto a=k.img(k.R,k.C,1,1,"nt","the image"); int*g=k.maybe((int*)k.raw(1024),"the result"); DO(simple_mat_grayscale_statistics(a,g)); }
TWO(HisEqualization,1,1,"nth","nrcth",a,d)
K(hyper_mat_linear_tension){ auto a=k.cube(k.C,k.R,k.B,4,0,"nit","the source"); auto d=k.cube(k.C,k.R,k.B,1,0,"nslbt","the result"); DO(hyper_mat_linear_tension(a,d)); }
K(hyper_mat_mean){ auto a=k.cube(k.C,k.R,k.B,4,2,"nit","the cube"); auto d=k.img(k.R,k.C,4,1,"nrcth","the result"); DO(hyper_mat_mean(a,d)); }
K(spectrum_SAM_match){ auto a=k.cube(k.C,k.R,k.B,4,2,"nit","the cube"); float*f=k.maybe(k.floats(k.B),"the spectrum"); DO(spectrum_SAM_match(a,f,0.5f)); }
K(spectral_angle_mapper){ float*f=k.maybe(k.floats(4),"the first spectrum"),*g=k.maybe(k.floats(4),"the second spectrum"); DO(spectral_angle_mapper(f,g,4)); }
K(hyper_mat_cem){ int b=std::min(k.B,5); auto a=k.cube(k.C,k.R,b,4,0,"nt","the cube"); float*f=k.maybe(k.floats(b),"the spectrum"); DO(hyper_mat_cem(a,f)); }
K(hyper_mat_pca){ int b=std::min(k.B,4),r=std::min(k.R,8),c=std::min(k.C,8); auto a=k.cube(c,r,b,4,2,"nti","the cube"); auto d=k.cube(c,r,b,4,2,"nslbt","the result"); DO(hyper_mat_pca(a,d,2)); }
K(calc_hu_moment){ auto a=k.img(k.R,k.C,1,1,"nth","the image"); double*h=k.maybe((double*)k.raw(56),"the result"); DO(calc_hu_moment(h,a)); }
K(hypercv_match_shapes){ auto a=k.img(k.R,k.C,1,1,"nth","the first image"),b=k.img(k.C,k.R,1,1,"nth","the second image"); DO(hypercv_match_shapes(a,b)); }
K(hypercv_k_means){ int n=1+(int)(k.p[0]%4); int kind=k.num(n,"kind",{0,-1,n+1,n-1}); auto a=k.img(k.R,k.C,1,1,"nt","the image"); POINT*v=nullptr; if(!k.dry){ u8*q=(u8*)k.raw(16+n*sizeof(POINT)); size_t z[2]={(size_t)n,(size_t)n}; memcpy(q,z,16); v=(POINT*)(q+16); } DO(hypercv_k_means(a,v,kind,1)); }
#define NRM(fn,dt) K(fn){ static const int T[]={1,2,4,32}; int t=k.mode(T[k.p[1]%4],"norm type",{1,2,4,32}); auto a=k.img(k.R,k.C,dt,1,"nth","the source"); auto d=k.img(k.R,k.C,dt,1,"nrcth","the result"); DO(fn(a,d,0.f,100.f,t)); }
NRM(hypercv_normalize,k.p[0]%2?1:4) NRM(hypercv_normalize_uchar,1) NRM(hypercv_normalize_float,4)
#define SMALLD int r=std::min(k.R,9),c=std::min(k.C,9);
#define DFT(fn,dt) K(fn){ SMALLD int t=dt; if(k.opt("unsupported element type")){ static const int U[]={2,3,4,5,13,14,15}; t=U[k.vs%7]; } auto a=k.img(r,c,t,1,"nh","the source"); auto e=k.img(r,c,4,1,"nrcth","the real part"),f=k.img(r,c,4,1,"nrcth","the imaginary part"); DO(fn(a,e,f)); }
DFT(hypercv_dft,(k.p[0]%2?1:12)) DFT(hypercv_dft_uchar,1) DFT(hypercv_dft_ushort,12)
K(hypercv_dft_frespectrum){ SMALLD auto a=k.img(r,c,1,1,"nth","the source"); auto d=k.img(r,c,1,1,"nrcth","the result"); DO(hypercv_dft_frespectrum(a,d)); }
#define IDF(fn,dt) K(fn){ SMALLD auto e=k.img(r,c,4,1,"nth","the real part"),f=k.img(r,c,4,1,"nrcth","the imaginary part"); auto d=k.img(r,c,dt,1,"nrcth","the result"); DO(fn(e,f,d)); }
K(hypercv_idft){ SMALLD int t=k.p[0]%2?1:12; if(k.opt("unsupported element type of the result")){ static const int U[]={2,3,4,5,13,14,15}; t=U[k.vs%7]; } auto e=k.img(r,c,4,1,"nth","the real part"),f=k.img(r,c,4,1,"nrcth","the imaginary part"); auto d=k.img(r,c,t,1,"nrch","the result"); DO(hypercv_idft(e,f,d)); }
IDF(hypercv_idft_uchar,1) IDF(hypercv_idft_ushort,12) IDF(hypercv_magnitude,4)
// matrices
K(swap_rows_float){ int m=2+(int)(k.p[0]%6),n=1+(int)(k.p[1]%6); int a=(int)(k.p[2]%m),b=(a+1+(int)(k.p[3]%(m-1)))%m; if(k.opt("both rows are the same")) b=a; a=k.num(a,"first row",{-1,m,m+4}); b=k.num(b,"second row",{-1,m,m+4}); float*d=k.floats(m*n); DO(swap_rows_float(d,m,n,a,b)); }
K(matrix_row_multi_scalar_float){ int m=1+(int)(k.p[0]%6),n=1+(int)(k.p[1]%6); int a=k.num((int)(k.p[2]%m),"row",{-1,m,m+4}); float*d=k.floats(m*n); DO(matrix_row_multi_scalar_float(d,m,n,a,2.f)); }
K(shear_row){ int m=2+(int)(k.p[0]%6),n=1+(int)(k.p[1]%6); int a=(int)(k.p[2]%m),b=(a+1+(int)(k.p[3]%(m-1)))%m; if(k.opt("both rows are the same")) b=a; a=k.num(a,"first row",{-1,m,m+4}); b=k.num(b,"second row",{-1,m,m+4}); float*d=k.floats(m*n); DO(shear_row(d,m,n,a,b,2.f)); }
// drawing
K(draw_POINT){ auto a=k.img(k.R,k.C,1,k.CH%2?k.CH:1,"nt","the source"); auto d=k.img(k.R,k.C,1,k.CH%2?k.CH:1,"nrcth","the result"); POINT*v=(POINT*)k.raw(sizeof(POINT)); if(v){ v->x=0; v->y=0; } RGB_data col={1,2,3}; DO(draw_POINT(a,d,v,1,col,1)); }
K(draw_line){ auto a=k.img(k.R,k.C,1,k.CH%2?k.CH:1,"nt","the source"); auto d=k.img(k.R,k.C,1,k.CH%2?k.CH:1,"nrcth","the result"); POINT p={0,0},q={k.C-1,k.R-1}; RGB_data col={1,2,3}; DO(draw_line(a,d,p,q,col,1)); }
K(smshow){ auto a=k.img(k.R,k.C,1,k.CH%2?k.CH:1,"n","the image"); DO(smshow("x",a)); }
// files
static char* pathtext(KX&k,const char*t){ char*s=(char*)k.raw(strlen(t)+1); if(s) strcpy(s,t); return s; }
K(hmsave){ auto a=k.cube(k.C,k.R,k.B,k.DT,k.IL,"n","the cube"); char*t=k.maybe(pathtext(k,"keep"),"the path"); DO(hmsave(t,a)); }
K(smwrite_bmp){ auto a=k.img(k.R,k.C,1,k.p[0]%2?1:3,"nt","the image"); if(a&&k.opt("two channels")) a->channels=2; else if(!a) k.count++; char*t=k.maybe(pathtext(k,"keep"),"the path"); DO(smwrite_bmp(t,a)); }
K(hmread_with_hdr){ char*t=k.maybe(pathtext(k,"keep"),"the image path"),*h=k.maybe(pathtext(k,"keep.hdr"),"the header path"); DO(hmread_with_hdr(t,h)); }
K(hmread_with_size){ int s=1+(int)(k.p[0]%3),l=1+(int)(k.p[1]%3),b=1+(int)(k.p[2]%3); neg(k,s,l,b); int dt=badtype(k,1); char*t=k.maybe(pathtext(k,"keep"),"the path"),*il=il_text(k,k.IL); DO(hmread_with_size(t,s,l,b,dt,il)); }
K(smread){ int r=k.num(1+(int)(k.p[0]%4),"rows",{0,-1,-9}),c=k.num(1+(int)(k.p[1]%4),"columns",{0,-1,-9}),h=k.num(1+(int)(k.p[2]%3),"channels",{0,-1}); int dt=badtype(k,1); char*t=k.maybe(pathtext(k,"keep"),"the path"); DO(smread(t,r,c,dt,h)); }
K(smread_bmp){ char*t=k.maybe(pathtext(k,"pic.bmp"),"the path"); DO(smread_bmp(t)); }
K(read_spectrum_file){ int n=k.num(1+(int)(k.p[0]%3),"length",{0,-1,-9}); char*t=pathtext(k,"spec"); DO(read_spectrum_file(t,n)); }
extern "C" void* set_wavelet_base(int);
K(set_wavelet_base){ int t=k.mode(1+(int)(k.p[0]%2),"wave type",{1,2}); DO(set_wavelet_base(t)); }
// the C++ cube
static int badfmt(KX&k,int f){ if(k.opt("unknown layout")){ Rng q(k.vs); do f=(int)q.range(-3,40); while(f==hy_fmt(0)||f==hy_fmt(1)||f==hy_fmt(2)); return f; } return f; }
K(HyMat_construct){ int s=k.C,l=k.R,b=k.B; neg(k,s,l,b); int dt=badtype(k,k.DT); int f=badfmt(k,hy_fmt(k.IL)); void*q=k.raw(hy_size()); DO(hy_construct5(q,s,l,b,dt,f)); }
K(HyMat_create){ int s=k.C,l=k.R,b=k.B; neg(k,s,l,b); int dt=badtype(k,k.DT); int f=badfmt(k,hy_fmt(k.IL)); void*q=k.hy(2,3,2,k.DT,k.IL,""); DO(hy_create5(q,s,l,b,dt,f)); }
K(HyMat_range){ Box x=box(k); void*h=k.hy(k.C,k.R,k.B,k.DT,k.IL,""); void*q=k.raw(hy_size()); DO(hy_range(h,q,x.r0,x.c0,x.b0,x.r1,x.c1,x.b1)); }
K(HyMat_convertTo){ int f=badfmt(k,hy_fmt((int)(k.p[0]%3))); void*h=k.hy(k.C,k.R,k.B,k.DT,k.IL,""); DO(hy_convert(h,f)); }
K(HyMat_layout){ static const int from[]={1,1,2,2,0,0},to[]={0,2,1,0,2,1}; int w=(int)(k.p[0]%6); int il=w<2||k.p[1]%4?from[w]:to[w]; if(k.opt("the cube has a layout that is neither the source nor the target")) il=3-from[w]-to[w]; void*h=k.hy(k.C,k.R,k.B,k.DT,il,""); void*q=k.raw(hy_size()); DO(hy_conv(w,h,q)); }
K(HyMat_open_size){ int s=1+(int)(k.p[0]%3),l=1+(int)(k.p[1]%3),b=1+(int)(k.p[2]%3); neg(k,s,l,b); int dt=badtype(k,1); int f=badfmt(k,hy_fmt(k.IL)); char*t=pathtext(k,"keep"); void*q=k.hy(2,3,2,k.DT,k.IL,""); DO(hy_open_size(q,t,s,l,b,dt,f)); }
// a cube that stays empty is how HyMat::open reports: the caller sees it and ends
K(HyMat_open){ bool a=k.opt("the image path is NULL"),b=k.opt("the header path is NULL"); void*q=k.p[0]%2?k.hy(2,3,2,k.DT,k.IL,""):nullptr; if(!q) q=k.raw(hy_size()); bool fresh=k.p[0]%2==0; char*t=pathtext(k,"keep"),*h=pathtext(k,"keep.hdr"); DO(if(fresh) hy_construct(q); hy_open(q,a?nullptr:t,b?nullptr:h); if(hy_empty(q)!=0) exit(1)); }
K(HyMat_save){ bool e=k.opt("the cube is empty"); char*t=k.maybe(pathtext(k,"keep"),"the path"); void*q=e?k.raw(hy_size()):k.hy(k.C,k.R,k.B,k.DT,k.IL,""); DO(if(e) hy_construct(q); hy_save(q,t)); }
static Plan gen_c18(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C18"; p.seed=seed; env_common(p,r); int n=(int)r.range(4,tier?16:10); int fav=r.chance(1,3)?(int)r.below(kt().size()):-1; for(int i=0;i<n;i++){ Step s; s.op="ask"; int c=fav>=0&&r.chance(1,2)?fav:(int)r.below(kt().size()); s.a={(i64)c,r.chance(1,6)?-1:(i64)r.below(1000),(i64)(r.next()>>8)}; p.steps.push_back(s); } return p; }
static void put_disk(u64 seed){ Rng r(seed); Cube c=gen_cube(6,6,6,1,0,0,1,seed); fs_put("keep",c.d); fs_put("keep.hdr",hdr_text(c,0,r)); fs_put("pic.bmp",bmp_encode(gen_img(4,5,1,3,0,seed),0,r)); fs_put("spec","1 2 3 4\n"); }
static void run_c18(const Plan&p){ for(size_t i=0;i<p.steps.size();i++){ const Step&st=p.steps[i]; const KDef&d=kt()[(u64)st.g(0)%kt().size()]; u64 seed=(u64)st.g(2); fs_wipe(); put_disk(seed); auto before=fs_all();
    life([&]{ apply_env(p,i); g_where=d.name; int sel=-1; if(st.g(1)>=0){ KX c(seed,-1,true); d.build(c); if(c.count) sel=(int)((u64)st.g(1)%c.count); } KX k(seed,sel,false); d.build(k); if(sel>=0&&k.bad.empty()) return; char pn[40]; snprintf(pn,40,"ask %s",d.name); probe(pn); if(sel>=0) probe("asked outside the domain"); else probe("asked inside the domain"); rand_config(seed,0); if(!strcmp(d.name,"smshow")){ SdlEnv e; e.events.push_back({0,0,0,0}); e.rows=k.R; e.cols=k.C; sdl_config(e); }
      Out o=lib(k.call); tracef("%s with %s -> %s",d.name,sel<0?"valid arguments":k.bad.c_str(),o.ret()?"returned":o.kind==O_EXIT?"exit":"stopped"); ev(0xC18,(u64)st.g(0),o.kind*1000+o.code);
      if(sel<0){ if(!o.ret()) violate(std::string("C18:refused:")+d.name,"%s refuses arguments that are inside its domain (%d x %d x %d, type %d)",d.name,k.R,k.C,k.B,k.DT); }
      else { if(o.ret()) violate(std::string("C18:accepted:")+d.name,"%s returns normally although %s",d.name,k.bad.c_str()); if(o.kind==O_EXIT&&o.code==0) violate(std::string("C18:exit0:")+d.name,"%s ends the process with status 0 although %s",d.name,k.bad.c_str()); if(fs_all()!=before) violate(std::string("C18:files:")+d.name,"%s refuses (%s) but has changed files",d.name,k.bad.c_str()); }
    }); } }
extern const Prop PC18={"C18",gen_c18,run_c18,12000,500000};
