// C07, C15, C16: histories over pools of live objects against plain-array models.
#include "glue.hpp"
#include <algorithm>
#include <set>
static int ci(i64 v,int lo,int hi){ return (int)std::max<i64>(lo,std::min<i64>(hi,v)); }
static void must_return(const char*prop,const char*who,const Out&o){ if(!o.ret()) violate(std::string(prop)+":stopped:"+who,"%s ended the process (%s %d) for arguments in its domain although nothing failed",who,o.kind==O_EXIT?"exit":o.kind==O_ABORT?"abort":"exception",o.code); }
static int long_dim(Rng&r){ static const int L[]={32767,32768,65535,65536,65537,70001}; return L[r.below(6)]; }
static void dims_of(Rng&r,int&s,int&l,int&b){ if(r.chance(1,300)){ int*d[3]={&s,&l,&b}; for(int*x:d) *x=1; *d[r.below(3)]=long_dim(r); probe("a dimension beyond 16 bits"); return; } switch(r.below(12)){ case 0: s=l=b=1; break; case 1: s=(int)r.range(1,300); l=1; b=(int)r.range(1,3); break; case 2: s=1; l=(int)r.range(1,300); b=(int)r.range(1,3); break; case 3: s=(int)r.range(1,3); l=(int)r.range(1,3); b=(int)r.range(1,300); break; case 4: s=(int)r.range(5,24); l=(int)r.range(5,24); b=(int)r.range(1,12); break; default: s=(int)r.range(1,7); l=(int)r.range(1,7); b=(int)r.range(1,7); } }
static Cube new_cube(u64 seed,int dt=-1){ Rng r(seed); int s,l,b; dims_of(r,s,l,b); return gen_cube(s,l,b,dt>0?dt:DTYPES[r.chance(1,3)?0:r.below(9)],(int)r.below(3),(int)r.below(6),(int)r.below(7),r.next()); }
static Img new_img(u64 seed){ Rng r(seed); int s,l,b; dims_of(r,s,l,b); static const int chs[]={1,1,1,3,2,4}; return gen_img(l,s,DTYPES[r.chance(1,3)?0:r.below(9)],chs[r.below(6)],(int)r.below(6),r.next()); }
// ================================================================== C07
enum { H_CREATE,H_CREATE0,H_IMG0,H_IMGDATA,H_COPY,H_IMGCOPY,H_CONVERT,H_CONV2,H_RANGE,H_TOIMG,H_FROMIMG,H_RESHAPE,H_TRANS,H_HTRANS,H_FLIPH,H_FLIPV,H_FLIP,H_BORDER,H_SPLICE,H_WIDEN,H_COPYTO,H_COPYWL,H_SAVE,H_LOAD,H_LOADSIZE,H_SMREAD,H_DELETE,H_INFO,H_BMPW,H_BMPR,H_N };
static const char* const HN[H_N]={"create_hyper_mat_with_data","create_hyper_mat","create_simple_mat","create_simple_mat_with_data","hyper_mat_copy","simple_mat_copy","convert2","layout copy","hyper_mat_get_range","hyper_mat_2_simple_mat","simple_mat_2_hyper_mat","reshape_hypermat_2_simplemat","simple_mat_transport","hyper_mat_transport","simple_mat_flip_horizontal","simple_mat_flip_vertical","simple_mat_flip","hypercv_copy_make_border","hyper_mat_splicing","type widening","hyper_mat_copy_to","hyper_mat_copy_wavelength","hmsave","hmread_with_hdr","hmread_with_size","smread","delete","hyper_mat_showinfo","smwrite_bmp","smread_bmp"};
static const int HW[H_N]={6,3,3,5,5,3,9,9,8,7,7,4,5,4,3,3,4,6,5,5,5,3,6,6,2,2,5,1,2,2};
struct Slot { int kind=0; hyper_mat h=nullptr; simple_mat s=nullptr; Cube c; Img m; };
enum { NSLOT=7 };
struct Pool { Slot v[NSLOT]; std::map<std::string,Cube> files; std::map<std::string,Img> bmps; int rot=0;
  std::vector<int> of(int kind,const std::function<bool(Slot&)>&f=nullptr){ std::vector<int> o; for(int i=0;i<NSLOT;i++) if(v[i].kind==kind&&(!f||f(v[i]))) o.push_back(i); return o; }
  void drop(int i){ Slot&s=v[i]; if(s.kind==1) lib([&]{ delete_hyper_mat(s.h); }); if(s.kind==2) lib([&]{ delete_simple_mat(s.s); }); s=Slot(); }
  int room(int keep1=-1,int keep2=-1){ for(int i=0;i<NSLOT;i++) if(!v[i].kind) return i; do rot=(rot+1)%NSLOT; while(rot==keep1||rot==keep2); drop(rot); return rot; }
  void add(hyper_mat h,const Cube&c,const char*who,int k1=-1,int k2=-1){ if(!h) violate(std::string("C07:nothing:")+who,"%s gave no object for arguments in its domain",who); if(!mem_ok(h,sizeof(HyperMat))) violate(std::string("object:")+who,"%s returned a pointer that is not an object",who); int i=room(k1,k2); v[i].kind=1; v[i].h=h; v[i].c=c; v[i].c.hasw=true; v[i].c.w.resize(c.b); if(!c.hasw) v[i].c.w.assign(c.b,0.f); }
  void add(simple_mat s,const Img&m,const char*who,int k1=-1,int k2=-1){ if(!s) violate(std::string("C07:nothing:")+who,"%s gave no object for arguments in its domain",who); if(!mem_ok(s,sizeof(SIMPLE_MAT))) violate(std::string("object:")+who,"%s returned a pointer that is not an object",who); int i=room(k1,k2); v[i].kind=2; v[i].s=s; v[i].m=m; }
  void check(const char*who,int target){ for(int i=0;i<NSLOT;i++){ Slot&s=v[i]; std::string why; if(s.kind==1){ Cube g=rd_cube(s.h,who); if(!g.same(s.c,&why)) violate(std::string(i==target||target<0?"C07:wrong:":"C07:other:")+who,"after %s object %d (%s) is not what the same history gives on plain arrays: %s",who,i,desc(s.c).c_str(),why.c_str()); } else if(s.kind==2){ Img g=rd_img(s.s,who); if(!g.same(s.m,&why)) violate(std::string(i==target||target<0?"C07:wrong:":"C07:other:")+who,"after %s object %d (%s) is not what the same history gives on plain arrays: %s",who,i,desc(s.m).c_str(),why.c_str()); } } } };
static Cube with_il(const Cube&c,int il){ return relayout(c,il); }
static int bidx(int i,int n,int type){ // own reading of the border modes: 1 aaa|abcd|ddd, 2 cba|abcd|dcb, 3 bcd|abcd|abc, 4 dcb|abcd|cba
  if(i>=0&&i<n) return i; if(type==1) return i<0?0:n-1; if(type==3){ int k=i%n; return k<0?k+n:k; } if(n==1) return 0; if(type==2){ int p=2*n,k=((i%p)+p)%p; return k<n?k:p-1-k; } int p=2*(n-1),k=((i%p)+p)%p; return k<n?k:p-k; }
static Img transposed(const Img&m){ Img o=m; o.r=m.c;o.c=m.r; size_t e=m.es()*m.ch; for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) memcpy(&o.d[((size_t)j*m.r+i)*e],&m.d[((size_t)i*m.c+j)*e],e); return o; }
static Img flipped(const Img&m,bool h,bool v){ Img o=m; size_t e=m.es()*m.ch; for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) memcpy(&o.d[((size_t)i*m.c+j)*e],&m.d[((size_t)(v?m.r-1-i:i)*m.c+(h?m.c-1-j:j))*e],e); return o; }
static Cube widened(const Cube&c,int dt){ Cube o=c; o.dt=dt; o.d.assign(o.bytes(),0); for(size_t i=0;i<c.n();i++){ double v; if(c.dt==1) v=(u8)c.d[i]; else { unsigned short x; memcpy(&x,&c.d[2*i],2); v=x; } switch(dt){ case 2: { short x=(short)v; memcpy(&o.d[2*i],&x,2); break; } case 12: { unsigned short x=(unsigned short)v; memcpy(&o.d[2*i],&x,2); break; } case 3: { int x=(int)v; memcpy(&o.d[4*i],&x,4); break; } default: { float x=(float)v; memcpy(&o.d[4*i],&x,4); } } } return o; }
static const char* const HP[]={"cube","other.v2/scene","x/y/z_long_name_of_an_image_file_directory_directory_directory_directory_directory_directory/directory_directory_directory_directory_directory_directory/directory_directory_directory_directory_directory_directory/directory_directory_directory_directory_directory_directory/scene"};
static simple_mat img_object(const Img&m,int adopt){ simple_mat s=nullptr; if(adopt){ void*d=nullptr; Out o=lib([&]{ d=malloc(m.bytes()); }); (void)o; memcpy(d,m.d.data(),m.bytes()); o=lib([&]{ s=create_simple_mat_with_data(m.r,m.c,m.dt,m.ch,d); }); must_return("C07",HN[H_IMGDATA],o); if(s&&s->data!=d) violate("C07:wrong:create_simple_mat_with_data","the image does not use the data block it was given"); }
  else { Out o=lib([&]{ s=create_simple_mat(m.r,m.c,m.dt,m.ch); }); must_return("C07",HN[H_IMG0],o); } return s; }
static void fill(simple_mat s,const Img&m){ if(!mem_ok(s->data,m.bytes())) violate("object:create_simple_mat","a created %s image is too small",desc(m).c_str()); memcpy(s->data,m.d.data(),m.bytes()); }
static hyper_mat cube_object(const Cube&c,const char*who){ hyper_mat h=nullptr; char il[4]; strcpy(il,ILN[c.il]); std::string d=c.d; std::vector<float> w=c.w; Out o=lib([&]{ h=create_hyper_mat_with_data(c.s,c.l,c.b,c.dt,il,(void*)d.data(),c.hasw?w.data():nullptr); }); must_return("C07",who,o); return h; }
static int pick_cube(Pool&P,i64 a,u64 seed,const std::function<bool(Slot&)>&f,const std::function<Cube()>&mk,int keep=-1){ auto k=P.of(1,f); k.erase(std::remove(k.begin(),k.end(),keep),k.end()); if(!k.empty()&&seed%8) return k[(u64)a%k.size()]; Cube c=mk(); c.hasw=true; c.w.resize(c.b); hyper_mat h=cube_object(c,HN[0]); P.add(h,c,HN[0],keep); for(int i=0;i<NSLOT;i++) if(P.v[i].h==h) return i; return -1; }
static int pick_img(Pool&P,i64 a,u64 seed,const std::function<bool(Slot&)>&f,const std::function<Img()>&mk,int keep=-1){ auto k=P.of(2,f); k.erase(std::remove(k.begin(),k.end(),keep),k.end()); if(!k.empty()&&seed%8) return k[(u64)a%k.size()]; Img m=mk(); simple_mat s=img_object(m,(int)(seed>>3&1)); fill(s,m); P.add(s,m,HN[2],keep); for(int i=0;i<NSLOT;i++) if(P.v[i].s==s) return i; return -1; }
// step: op a b c d e f seed
static void c07_do(Pool&P,const Step&st){ int op=(int)((u64)st.g(0)%H_N); i64 a=st.g(1),b=st.g(2),c=st.g(3),d=st.g(4),e=st.g(5),f=st.g(6); u64 seed=(u64)st.g(7); const char*who=HN[op]; Out o{O_RET,0}; int target=-2; g_where=who; char pn[40]; snprintf(pn,40,"hist %s",who); probe(pn);
  auto anyc=[&]{ return pick_cube(P,a,seed,nullptr,[&]{ return new_cube(seed); }); }; auto anyi=[&]{ return pick_img(P,a,seed,nullptr,[&]{ return new_img(seed); }); };
  auto bsq=[&](int i){ Slot&s=P.v[i]; if(s.c.il){ Out q=lib([&]{ convert2bsq(s.h); }); must_return("C07","convert2bsq",q); s.c=with_il(s.c,0); P.check("convert2bsq",i); } };
  switch(op){
  case H_CREATE: { Cube m=new_cube(seed); P.add(cube_object(m,who),m,who); break; }
  case H_CREATE0: { Cube m=new_cube(seed); m.hasw=false; m.d.assign(m.d.size(),0); char il[4]; strcpy(il,ILN[m.il]); hyper_mat h=nullptr; o=lib([&]{ h=create_hyper_mat(m.s,m.l,m.b,m.dt,il); }); must_return("C07",who,o); P.add(h,m,who); break; }
  case H_IMG0: { Img m=new_img(seed); m.d.assign(m.d.size(),0); P.add(img_object(m,0),m,who); break; }
  case H_IMGDATA: { Img m=new_img(seed); P.add(img_object(m,1),m,who); break; }
  case H_COPY: { int i=anyc(); hyper_mat h=nullptr; o=lib([&]{ h=hyper_mat_copy(P.v[i].h); }); must_return("C07",who,o); P.add(h,P.v[i].c,who,i); break; }
  case H_IMGCOPY: { int i=anyi(); simple_mat s=nullptr; o=lib([&]{ s=simple_mat_copy(P.v[i].s); }); must_return("C07",who,o); P.add(s,P.v[i].m,who,i); break; }
  case H_CONVERT: { int i=anyc(),t=(int)((u64)b%3); o=lib([&]{ if(t==0) convert2bsq(P.v[i].h); else if(t==1) convert2bil(P.v[i].h); else convert2bip(P.v[i].h); }); static const char*const N[]={"convert2bsq","convert2bil","convert2bip"}; who=N[t]; must_return("C07",who,o); P.v[i].c=with_il(P.v[i].c,t); target=i; break; }
  case H_CONV2: { int i=anyc(),t=(int)((u64)b%3),from=P.v[i].c.il; if(from==t&&(c&1)) t=(t+1)%3; hyper_mat h=nullptr; typedef hyper_mat (*CF)(hyper_mat); CF fn; const char*N; int alt=from==t?(int)((u64)c%2):0;
      if(from==t){ static const CF tb[3][2]={{bil2bsq,bip2bsq},{bsq2bil,bip2bil},{bil2bip,bsq2bip}}; static const char*const nb[3][2]={{"bil2bsq","bip2bsq"},{"bsq2bil","bip2bil"},{"bil2bip","bsq2bip"}}; fn=tb[t][alt]; N=nb[t][alt]; }
      else { static const CF tb[3][3]={{nullptr,bsq2bil,bsq2bip},{bil2bsq,nullptr,bil2bip},{bip2bsq,bip2bil,nullptr}}; static const char*const nb[3][3]={{"","bsq2bil","bsq2bip"},{"bil2bsq","","bil2bip"},{"bip2bsq","bip2bil",""}}; fn=tb[from][t]; N=nb[from][t]; }
      who=N; o=lib([&]{ h=fn(P.v[i].h); }); must_return("C07",who,o); P.add(h,with_il(P.v[i].c,t),who,i); break; }
  case H_RANGE: { int i=anyc(); Cube&m=P.v[i].c; int r0=(int)((u64)b%m.l),c0=(int)((u64)c%m.s),b0=(int)((u64)d%m.b); int r1=r0+1+(int)((u64)e%(m.l-r0)),c1=c0+1+(int)((u64)f%(m.s-c0)),b1=b0+1+(int)((seed>>8)%(m.b-b0)); hyper_mat h=nullptr; o=lib([&]{ h=hyper_mat_get_range(P.v[i].h,r0,c0,b0,r1,c1,b1); }); must_return("C07",who,o);
      Cube n; n.s=c1-c0;n.l=r1-r0;n.b=b1-b0;n.dt=m.dt;n.il=m.il;n.d.resize(n.bytes()); for(int y=0;y<n.l;y++) for(int x=0;x<n.s;x++) for(int k=0;k<n.b;k++) memcpy(n.at(y,x,k),m.at(y+r0,x+c0,k+b0),m.es()); n.hasw=true; n.w.assign(m.w.begin()+b0,m.w.begin()+b1); P.add(h,n,who,i); break; }
  case H_TOIMG: { int i=anyc(); bsq(i); Cube m=P.v[i].c; size_t need=(size_t)m.l*m.s*m.es(); int j=pick_img(P,b,seed>>4,[&](Slot&s){ return s.m.bytes()>=need; },[&]{ Img x; x.r=m.l;x.c=m.s;x.dt=m.dt;x.ch=1; if(c%3==1){ x.r=m.s;x.c=m.l; } if(c%3==2) x.dt=5; x.d.assign(x.bytes(),'\x5a'); return x; },i); if(P.v[i].kind!=1||P.v[i].c.il) return; int band=1+(int)((u64)d%m.b); o=lib([&]{ hyper_mat_2_simple_mat(P.v[i].h,P.v[j].s,band); }); must_return("C07",who,o);
      Img&x=P.v[j].m; size_t e2=need; std::string old=x.d; x.r=m.l;x.c=m.s;x.ch=1;x.dt=m.dt; x.d=m.d.substr((band-1)*e2,e2); target=j; break; }
  case H_FROMIMG: { int i=anyc(); bsq(i); Cube m=P.v[i].c; int j=pick_img(P,b,seed>>4,[&](Slot&s){ return s.m.r==m.l&&s.m.c==m.s&&s.m.dt==m.dt&&s.m.ch==1; },[&]{ return gen_img(m.l,m.s,m.dt,1,(int)(seed%6),seed); },i); if(P.v[i].kind!=1) return; int band=1+(int)((u64)d%m.b); o=lib([&]{ simple_mat_2_hyper_mat(P.v[i].h,P.v[j].s,band); }); must_return("C07",who,o); memcpy(&P.v[i].c.d[(size_t)(band-1)*m.l*m.s*m.es()],P.v[j].m.d.data(),P.v[j].m.bytes()); target=i; break; }
  case H_RESHAPE: { int i=anyc(); int n=(int)P.v[i].c.n(); std::vector<int> dv; for(int k=1;k<=n;k++) if(n%k==0) dv.push_back(k); int rows=dv[(u64)b%dv.size()]; simple_mat s=nullptr; o=lib([&]{ s=reshape_hypermat_2_simplemat(P.v[i].h,rows,n/rows); }); must_return("C07",who,o); Img m; m.r=rows;m.c=n/rows;m.dt=P.v[i].c.dt;m.ch=1;m.d=P.v[i].c.d; P.add(s,m,who,i); break; }
  case H_TRANS: { int i=anyi(); Img t=transposed(P.v[i].m); int j=pick_img(P,b,seed>>4,[&](Slot&s){ return s.m.r==t.r&&s.m.c==t.c&&s.m.dt==t.dt&&s.m.ch==t.ch; },[&]{ return gen_img(t.r,t.c,t.dt,t.ch,0,seed); },i); if(i==j||P.v[i].kind!=2) return; o=lib([&]{ simple_mat_transport(P.v[j].s,P.v[i].s); }); must_return("C07",who,o); P.v[j].m=t; target=j; break; }
  case H_HTRANS: { int i=anyc(); bsq(i); Cube m=P.v[i].c; int j=pick_cube(P,b,seed>>4,[&](Slot&s){ return s.c.s==m.l&&s.c.l==m.s&&s.c.b==m.b&&s.c.dt==m.dt&&s.c.il==0; },[&]{ return gen_cube(m.l,m.s,m.b,m.dt,0,0,1,seed); },i); if(i==j||P.v[i].kind!=1) return; o=lib([&]{ hyper_mat_transport(P.v[j].h,P.v[i].h); }); must_return("C07",who,o); Cube&t=P.v[j].c; for(int y=0;y<t.l;y++) for(int x=0;x<t.s;x++) for(int k=0;k<t.b;k++) memcpy(t.at(y,x,k),m.at(x,y,k),m.es()); target=j; break; }
  case H_FLIPH: case H_FLIPV: case H_FLIP: { int i=anyi(); Img m=P.v[i].m; int j=pick_img(P,b,seed>>4,[&](Slot&s){ return s.m.r==m.r&&s.m.c==m.c&&s.m.dt==m.dt&&s.m.ch==m.ch; },[&]{ return gen_img(m.r,m.c,m.dt,m.ch,0,seed); },i); if(i==j||P.v[i].kind!=2) return; int code=op==H_FLIPH?1:op==H_FLIPV?0:(int)((u64)c%3)-1; o=lib([&]{ if(op==H_FLIPH) simple_mat_flip_horizontal(P.v[i].s,P.v[j].s); else if(op==H_FLIPV) simple_mat_flip_vertical(P.v[i].s,P.v[j].s); else simple_mat_flip(P.v[i].s,P.v[j].s,code); }); must_return("C07",who,o); P.v[j].m=flipped(m,code!=0,code!=1); target=j; break; }
  case H_BORDER: { int i=anyi(); Img m=P.v[i].m; if(m.bytes()>20000) return; int t=(int)((u64)b%5),bo=(int)((u64)c%5),le=(int)((u64)d%5),ri=(int)((u64)e%5); if(f%16==0) t=bo=le=ri=0; int type=(int)((u64)f%5); u8 val=(u8)(seed>>20); simple_mat s=nullptr; o=lib([&]{ s=hypercv_copy_make_border(P.v[i].s,t,bo,le,ri,type,val); }); must_return("C07",who,o); Img n=m; n.r=m.r+t+bo; n.c=m.c+le+ri; n.d.assign(n.bytes(),0); size_t es=m.es()*m.ch;
      for(int y=0;y<n.r;y++) for(int x=0;x<n.c;x++){ int sy=y-t,sx=x-le; bool in=sy>=0&&sy<m.r&&sx>=0&&sx<m.c; char*q=&n.d[((size_t)y*n.c+x)*es]; if(type==0&&!in) memset(q,val,es); else memcpy(q,&m.d[((size_t)bidx(sy,m.r,type)*m.c+bidx(sx,m.c,type))*es],es); } P.add(s,n,who,i); break; }
  case H_SPLICE: { int i=anyc(); Cube m=P.v[i].c; int j=pick_cube(P,b,seed>>4,[&](Slot&s){ return s.c.dt==m.dt&&s.c.n()<=m.n(); },[&]{ int ps=1+(int)((u64)c%m.s),pl=1+(int)((u64)d%m.l),pb=1+(int)((u64)e%m.b); return gen_cube(ps,pl,pb,m.dt,m.il,0,1,seed); },i); if(i==j||P.v[i].kind!=1) return; Cube&q=P.v[j].c; size_t free=m.n()-q.n(); int start=(f%4==0)?(int)free:(int)((u64)f%(free+1)); o=lib([&]{ hyper_mat_splicing(P.v[i].h,P.v[j].h,start); }); must_return("C07",who,o); memcpy(&P.v[i].c.d[(size_t)start*m.es()],q.d.data(),q.bytes()); target=i; break; }
  case H_WIDEN: { bool us=b%5==4; int i=pick_cube(P,a,seed,[&](Slot&s){ return s.c.dt==(us?12:1); },[&]{ return new_cube(seed,us?12:1); }); hyper_mat h=nullptr; int to; static const char*const N[]={"hyper_mat_uchar2short","hyper_mat_uchar2int","hyper_mat_uchar2float","hyper_mat_uchar2ushort","hyper_mat_ushort2float"}; int k=us?4:(int)((u64)b%4); who=N[k]; o=lib([&]{ h= k==0?hyper_mat_uchar2short(P.v[i].h):k==1?hyper_mat_uchar2int(P.v[i].h):k==2?hyper_mat_uchar2float(P.v[i].h):k==3?hyper_mat_uchar2ushort(P.v[i].h):hyper_mat_ushort2float(P.v[i].h); }); must_return("C07",who,o); to=k==0?2:k==1?3:k==3?12:4; P.add(h,widened(P.v[i].c,to),who,i); break; }
  case H_COPYTO: { int i=anyc(); Cube m=P.v[i].c; int j=pick_cube(P,b,seed>>4,[&](Slot&s){ return s.c.s==m.s&&s.c.l==m.l&&s.c.b==m.b&&s.c.dt==m.dt; },[&]{ return gen_cube(m.s,m.l,m.b,m.dt,(int)((u64)c%3),0,2,seed); },i); if(i==j||P.v[i].kind!=1) return; o=lib([&]{ hyper_mat_copy_to(P.v[i].h,P.v[j].h); }); must_return("C07",who,o); P.v[j].c=m; target=j; break; }
  case H_COPYWL: { int i=anyc(); Cube m=P.v[i].c; int j=pick_cube(P,b,seed>>4,[&](Slot&s){ return s.c.b==m.b; },[&]{ Rng r(seed); return gen_cube((int)r.range(1,5),(int)r.range(1,5),m.b,DTYPES[r.below(9)],(int)r.below(3),0,2,seed); },i); if(i==j||P.v[i].kind!=1) return; o=lib([&]{ hyper_mat_copy_wavelength(P.v[i].h,P.v[j].h); }); must_return("C07",who,o); P.v[j].c.w=m.w; target=j; break; }
  case H_SAVE: { int i=anyc(); std::string p=HP[(u64)b%3]; o=lib([&]{ hmsave(p.c_str(),P.v[i].h); }); must_return("C07",who,o); Cube m=P.v[i].c; for(float&w:m.w) w=wl_text(w); P.files[p]=m; P.bmps.erase(p); break; }
  case H_LOAD: { if(P.files.empty()) return; auto it=P.files.begin(); std::advance(it,(u64)a%P.files.size()); std::string h=it->first+".hdr"; hyper_mat x=nullptr; o=lib([&]{ x=hmread_with_hdr(it->first.c_str(),h.c_str()); }); must_return("C07",who,o); P.add(x,it->second,who); break; }
  case H_LOADSIZE: { if(P.files.empty()) return; auto it=P.files.begin(); std::advance(it,(u64)a%P.files.size()); Cube m=it->second; if(b%2){ m.s=(int)m.n(); m.l=m.b=1; m.il=(int)((u64)c%3); } m.w.assign(m.b,0.f); m.hasw=false; char il[4]; strcpy(il,ILN[m.il]); hyper_mat x=nullptr; o=lib([&]{ x=hmread_with_size(it->first.c_str(),m.s,m.l,m.b,m.dt,il); }); must_return("C07",who,o); P.add(x,m,who); break; }
  case H_SMREAD: { if(P.files.empty()) return; auto it=P.files.begin(); std::advance(it,(u64)a%P.files.size()); Cube&q=it->second; Img m; m.dt=q.dt; m.r=q.l*q.b; m.c=q.s; m.ch=1; if(b%2&&q.b>1){ m.r=q.l; m.ch=q.b; } m.d=q.d; simple_mat s=nullptr; o=lib([&]{ s=smread(it->first.c_str(),m.r,m.c,m.dt,m.ch); }); must_return("C07",who,o); P.add(s,m,who); break; }
  case H_DELETE: { std::vector<int> k; for(int i=0;i<NSLOT;i++) if(P.v[i].kind) k.push_back(i); if(k.empty()) return; P.drop(k[(u64)a%k.size()]); break; }
  case H_INFO: { int i=anyc(); int em=1; o=lib([&]{ hyper_mat_showinfo(P.v[i].h); em=hyper_mat_empty(P.v[i].h); }); must_return("C07",who,o); if(em) violate("C07:wrong:hyper_mat_empty","a live cube is called empty"); break; }
  case H_BMPW: { int i=pick_img(P,a,seed,[](Slot&s){ return s.m.dt==1&&(s.m.ch==1||s.m.ch==3); },[&]{ Rng r(seed); int s,l,b2; dims_of(r,s,l,b2); return gen_img(l,s,1,r.chance(1,2)?3:1,(int)r.below(6),seed); }); std::string p=std::string(HP[(u64)b%3])+".bmp"; o=lib([&]{ smwrite_bmp(p.c_str(),P.v[i].s); }); must_return("C07",who,o); Img m=P.v[i].m; if(m.ch==1){ Img x=m; x.ch=3; x.d.clear(); for(char q:m.d){ x.d+=q;x.d+=q;x.d+=q; } m=x; } P.bmps[p]=m; break; }
  case H_BMPR: { if(P.bmps.empty()) return; auto it=P.bmps.begin(); std::advance(it,(u64)a%P.bmps.size()); simple_mat s=nullptr; o=lib([&]{ s=smread_bmp(it->first.c_str()); }); must_return("C07",who,o); P.add(s,it->second,who); break; }
  }
  tracef("%s",who); P.check(who,target); }
static Plan gen_c07(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C07"; p.seed=seed; env_common(p,r); int tot=0; for(int w:HW) tot+=w; int n=(int)r.range(4,tier?60:36); std::vector<int> fav; if(r.chance(1,2)) for(int i=0;i<4;i++) fav.push_back((int)r.below(H_N));
  for(int i=0;i<n;i++){ Step s; if(r.chance(1,25)){ s.op="restart"; p.steps.push_back(s); continue; } if(r.chance(1,15)){ s.op="scribble"; p.steps.push_back(s); continue; } s.op="h"; int k; if(!fav.empty()&&r.chance(1,2)) k=r.pick(fav); else { i64 x=(i64)r.below(tot); k=0; while(x>=HW[k]) x-=HW[k++]; } s.a={(i64)k,(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)(r.next()>>4)}; p.steps.push_back(s); } return p; }
static void run_c07(const Plan&p){ std::map<std::string,Cube> files; std::map<std::string,Img> bmps; size_t i=0; u64 lifeno=0; fs_wipe(); while(i<p.steps.size()){ size_t e=i; while(e<p.steps.size()&&p.steps[e].op!="restart") e++; blob_reset();
    life([&]{ apply_env(p,lifeno); Pool P; P.files=files; P.bmps=bmps; for(size_t k=i;k<e;k++){ if(p.steps[k].op=="scribble") mem_scribble_free(); else c07_do(P,p.steps[k]); } for(int k=0;k<NSLOT;k++) if(P.v[k].kind){ P.drop(k); P.check("delete",-2); } blob_u(P.files.size()); for(auto&f:P.files){ blob_str(f.first); put_cube(f.second); } blob_u(P.bmps.size()); for(auto&f:P.bmps){ blob_str(f.first); put_img(f.second); } });
    BlobReader b; files.clear(); bmps.clear(); for(u64 n=b.u();n--;){ std::string k=b.str(); files[k]=get_cube(b); } for(u64 n=b.u();n--;){ std::string k=b.str(); bmps[k]=get_img(b); } if(e<p.steps.size()) fault(F_RESTART); i=e+1; lifeno++; } }
// ================================================================== C15
// step: op slot type value n ; one life per plan, the first failed growth ends it
struct Vec { int t; void*p=nullptr; std::vector<std::string> m; };
static std::string elem(size_t es,i64 v){ std::string o; Rng r((u64)v); for(size_t i=0;i<es;i++) o+=(char)r.next(); return o; }
static void vcheck_one(Vec&v,int i,const char*who){ size_t es=vg_esize(v.t); size_t sz=0,cap=0; int em=0; void*be=nullptr,*en=nullptr; Out o=lib([&]{ sz=vg_size(v.t,&v.p); cap=vg_cap(v.t,&v.p); em=vg_empty(v.t,&v.p); be=vg_begin(v.t,&v.p); en=vg_end(v.t,&v.p); }); (void)o;
  if(sz!=v.m.size()) violate(std::string("C15:size:")+who,"after %s array %d (%zu-byte elements) has size %zu, the list %zu",who,i,es,sz,v.m.size()); if(!!em!=v.m.empty()) violate(std::string("C15:empty:")+who,"after %s array %d says %s with %zu elements",who,i,em?"empty":"not empty",v.m.size()); if(cap<sz) violate(std::string("C15:capacity:")+who,"after %s array %d has capacity %zu below its size %zu",who,i,cap,sz);
  if(be!=v.p||(v.p&&en!=(char*)v.p+sz*es)||(!v.p&&en)) violate(std::string("C15:ends:")+who,"after %s begin and end of array %d do not enclose its %zu elements",who,i,sz);
  if(v.p){ u8*st;size_t n; if(!block_of((char*)v.p-1,&st,&n)) violate(std::string("C15:block:")+who,"after %s array %d does not own its block",who,i); if((u8*)v.p+cap*es>st+n) violate(std::string("C15:capacity:")+who,"after %s array %d says capacity %zu but its block of %zu bytes holds fewer %zu-byte elements",who,i,cap,n,es); }
  for(size_t k=0;k<sz;k++){ std::string got(es,'\0'); memcpy(&got[0],(char*)v.p+k*es,es); if(got!=v.m[k]) violate(std::string("C15:element:")+who,"after %s element %zu of %zu of array %d (%zu-byte elements) is not the list's",who,k,sz,i,es); std::string g2(es,'\0'); if(k==sz-1||k==0){ lib([&]{ vg_get(v.t,&v.p,k,&g2[0]); }); if(g2!=got) violate(std::string("C15:element:")+who,"reading element %zu differs",k); } } }
enum { VO_PUSH,VO_POP,VO_ERASE,VO_INIT,VO_FREE,VO_N }; static const char* const VON[VO_N]={"vector_push_back","vector_pop_back","vector_erase","vector_init","vector_free"};
static Plan gen_c15(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C15"; p.seed=seed; env_common(p,r); if(r.chance(1,2)) p.env["mmove"]=1; int n=(int)r.range(5,tier?400:160),nv=1+(int)r.below(4); int bias=(int)r.below(4); p.env["failat"]=r.chance(1,3)?1+(i64)r.below(14):0; p.env["failcap"]=r.chance(1,8)?(i64)r.range(20,4000):0; p.env["failfrom"]=(i64)r.below(2);
  bool huge=r.chance(1,250); if(huge) n=8; for(int i=0;i<n;i++){ Step s; s.op="v"; int x=(int)r.below(100),k; if(huge){ k=i==0?VO_INIT:x<50?VO_PUSH:x<70?VO_POP:x<85?VO_ERASE:x<95?VO_INIT:VO_FREE; } else if(bias==0) k=x<85?VO_PUSH:x<90?VO_POP:x<95?VO_ERASE:x<98?VO_INIT:VO_FREE; else if(bias==1) k=x<45?VO_PUSH:x<65?VO_POP:x<90?VO_ERASE:x<96?VO_INIT:VO_FREE; else if(bias==2) k=x<55?VO_PUSH:x<60?VO_POP:x<65?VO_ERASE:x<90?VO_INIT:VO_FREE; else k=x<70?VO_PUSH:x<85?VO_POP:x<97?VO_ERASE:x<99?VO_INIT:VO_FREE;
    i64 arg=0; if(k==VO_ERASE) arg=r.chance(1,6)?(i64)-1-(i64)r.below(4):(i64)r.below(1000); if(k==VO_INIT) arg=(i64)(r.chance(1,5)?0:r.chance(1,6)?r.below(200):r.below(12)); if(huge&&k==VO_INIT&&(i==0||r.chance(1,2))) arg=long_dim(r)-(i64)r.below(2); if(huge&&k==VO_ERASE) arg=(i64)r.below(80000); s.a={k,huge?0:(i64)r.below(nv),(i64)r.below(7),(i64)(r.next()>>40),arg}; p.steps.push_back(s); if(r.chance(1,40)){ Step q; q.op="scribble"; p.steps.push_back(q); } } return p; }
static void run_c15(const Plan&p){ life([&]{ apply_env(p); std::vector<Vec> V; u64 grows=0; i64 failat=p.e("failat"); bool armed=false;
    for(size_t k=0;k<p.steps.size();k++){ const Step&s=p.steps[k]; if(s.op=="scribble"){ mem_scribble_free(); for(size_t i=0;i<V.size();i++) vcheck_one(V[i],(int)i,"unrelated memory use"); continue; } int op=(int)((u64)s.g(0)%VO_N); size_t i=(u64)s.g(1)%4; while(V.size()<=i) { Vec v; v.t=-1; V.push_back(v); } Vec&v=V[i]; if(v.t<0) v.t=(int)((u64)s.g(2)%7); size_t es=vg_esize(v.t); std::string e=elem(es,s.g(3)); const char*who=VON[op]; g_where=who; std::vector<std::string> next=v.m; size_t arg=0;
      switch(op){ case VO_PUSH: if(v.m.size()>600&&v.m.size()<30000) continue; next.push_back(e); break; case VO_POP: if(!next.empty()) next.pop_back(); break; case VO_ERASE: { i64 g=s.g(4); arg= g==-1? v.m.size(): g==-2? v.m.size()+5: g==-3? (size_t)-1: g<0? (size_t)1<<40: v.m.empty()?0:(size_t)g%v.m.size(); if(arg<next.size()) next.erase(next.begin()+arg); break; } case VO_INIT: arg=(size_t)ci(s.g(4),0,80000); next.assign(arg,e); break; default: next.clear(); }
      u64 f0=mem_stat().failed; if(failat&&!armed&&(op==VO_PUSH||op==VO_INIT)&&grows>=(u64)failat){ armed=true; if(p.e("failcap")) mem_arm(-1,0,(i64)mem_stat().bytes+p.e("failcap")); else mem_arm(1+(i64)((u64)p.e("failat")%3),(int)(p.e("failfrom")&1),-1); }
      struct Snap{ void*p; std::string d; }; std::vector<Snap> snap; for(auto&x:V) if(x.p&&(&x!=&v||op==VO_PUSH)) snap.push_back({x.p,std::string((char*)x.p,x.m.size()*vg_esize(x.t))});
      void*before=v.p; Out o=lib([&]{ switch(op){ case VO_PUSH: vg_push(v.t,&v.p,e.data()); break; case VO_POP: vg_pop(v.t,&v.p); break; case VO_ERASE: vg_erase(v.t,&v.p,arg); break; case VO_INIT: vg_init(v.t,&v.p,e.data(),arg); break; default: vg_free(v.t,&v.p); } }); bool failed=mem_stat().failed!=f0; if(v.p!=before) grows++; ev(0xC15,op,v.m.size());
      if(!o.ret()){ if(!failed) violate(std::string("C15:stopped:")+who,"%s ended the process although no allocation failed",who); if(o.kind==O_EXIT&&o.code==0) violate(std::string("C15:exit0:")+who,"%s ended the process with status 0 after an allocation failed",who); if(o.kind==O_EXC) violate(std::string("C15:exception:")+who,"an exception left %s",who);
        for(auto&q:snap){ { u8*st; size_t bn; if(!block_of((u8*)q.p-1,&st,&bn)) violate(std::string("C15:freed:")+who,"%s gave back a live array's block although the growth failed",who); } if(memcmp(q.p,q.d.data(),q.d.size())) violate(std::string("C15:corrupt:")+who,"%s changed the old elements although the growth failed",who); } probe("growth failed, process stopped"); return; }
      if(failed) violate(std::string("C15:survived:")+who,"%s went on although the growth failed",who);
      v.m=next; if(op==VO_FREE&&v.p) violate("C15:free","vector_free left the pointer"); tracef("%s(%zu)[%zu] -> size %zu",who,i,arg,next.size()); for(size_t j=0;j<V.size();j++) if(V[j].t>=0) vcheck_one(V[j],(int)j,who); }
    mem_arm(-1,0,-1); u64 l=mem_stat().live; size_t holding=0; for(auto&x:V) if(x.t>=0&&x.p) holding++; for(auto&x:V) if(x.t>=0) lib([&]{ vg_free(x.t,&x.p); }); if(l-mem_stat().live!=holding) violate("C15:blocks","freeing %zu arrays gave back %llu blocks",holding,(unsigned long long)(l-mem_stat().live)); }); }
// ================================================================== C16
enum { Y_CON,Y_CON5,Y_CON6,Y_CON7,Y_CREATE0,Y_CREATE5,Y_CREATE7,Y_COPYDATA,Y_COPYWL,Y_COPY,Y_CONVERT,Y_RANGE,Y_CONV,Y_RELEASE,Y_SAVE,Y_OPEN,Y_OPENSIZE,Y_HMREAD,Y_HMSIZE,Y_CSAVE,Y_CLOAD,Y_SET,Y_N };
static const char* const YN[Y_N]={"HyMat()","HyMat(size)","HyMat(size,data)","HyMat(size,data,wavelength)","HyMat::create()","HyMat::create(size)","HyMat::create(size,data,wavelength)","HyMat::CopyData","HyMat::CopyWaveLength","HyMat::copy","HyMat::convertTo","HyMat::range","layout copy (C++)","HyMat::release","HyMat::save","HyMat::open","HyMat::open(size)","hmread (C++)","hmread(size) (C++)","hmsave","hmread_with_hdr","element store"};
static const int YW[Y_N]={2,5,4,6,2,4,4,4,3,8,10,9,12,4,7,7,3,4,2,4,7,3};
struct YSlot { void*q=nullptr; bool full=false; Cube c; };
enum { YSLOTS=5 };
struct YPool { YSlot v[YSLOTS]; std::map<std::string,Cube> files; int rot=0;
  void clear(int i){ YSlot&s=v[i]; if(!s.q) return; Out o=lib([&]{ hy_release(s.q); hy_destroy(s.q); }); must_return("C16","HyMat::release",o); sim_free(s.q); s=YSlot(); }
  int room(int keep=-1){ for(int i=0;i<YSLOTS;i++) if(!v[i].q) return i; do rot=(rot+1)%YSLOTS; while(rot==keep); clear(rot); return rot; }
  int put(void*q,bool full,const Cube&c,int keep=-1){ int i=room(keep); v[i].q=q; v[i].full=full; v[i].c=c; v[i].c.hasw=true; if(full){ v[i].c.w.resize(c.b); if(!c.hasw) v[i].c.w.assign(c.b,0.f); } return i; }
  void check(const char*who,int target){ for(int i=0;i<YSLOTS;i++){ YSlot&s=v[i]; if(!s.q) continue; int e=0; lib([&]{ e=hy_empty(s.q); }); if(!!e==s.full) violate(std::string("C16:empty:")+who,"after %s cube %d says %s",who,i,e?"empty although it holds data":"it holds data although it is empty"); if(!s.full) continue; Cube g=rd_hy(s.q,who); std::string why; if(!g.same(s.c,&why)) violate(std::string(i==target||target<0?"C16:wrong:":"C16:other:")+who,"after %s cube %d (%s) is not what the same history gives on plain arrays: %s",who,i,desc(s.c).c_str(),why.c_str());
      HyGlue g2; hy_view(s.q,&g2); for(int j=0;j<i;j++) if(v[j].q&&v[j].full){ HyGlue g3; hy_view(v[j].q,&g3); if(g3.data==g2.data||(g2.wl&&g3.wl==g2.wl)) violate(std::string("C16:shared:")+who,"after %s cubes %d and %d share memory",who,i,j); } } } };
static void* lib_block(const void*d,size_t n){ void*p=nullptr; Out o=lib([&]{ p=malloc(n); }); (void)o; memcpy(p,d,n); return p; }
static void c16_do(YPool&P,const Step&st){ int op=(int)((u64)st.g(0)%Y_N); i64 a=st.g(1),b=st.g(2),c=st.g(3),d=st.g(4),e=st.g(5),f=st.g(6); u64 seed=(u64)st.g(7); const char*who=YN[op]; g_where=who; Out o{O_RET,0}; int target=-2; char pn[40]; snprintf(pn,40,"c++ %s",who); probe(pn);
  auto some=[&](bool full,const std::function<bool(Cube&)>&fl=nullptr){ std::vector<int> k; for(int i=0;i<YSLOTS;i++) if(P.v[i].q&&P.v[i].full==full&&(!full||!fl||fl(P.v[i].c))) k.push_back(i); if(!k.empty()&&seed%8) return k[(u64)a%k.size()]; void*q=sim_malloc(hy_size()); if(!full){ Out z=lib([&]{ hy_construct(q); }); must_return("C16","HyMat()",z); return P.put(q,false,Cube()); } Cube m=new_cube(seed); void*dd=lib_block(m.d.data(),m.bytes()); float*w=m.hasw?(float*)lib_block(m.w.data(),4*m.b):nullptr; Out z=lib([&]{ hy_construct7(q,m.s,m.l,m.b,m.dt,hy_fmt(m.il),dd,w); }); must_return("C16",YN[Y_CON7],z); return P.put(q,true,m); };
  auto any=[&]{ std::vector<int> k; for(int i=0;i<YSLOTS;i++) if(P.v[i].q) k.push_back(i); if(k.empty()) return some(false); return k[(u64)a%k.size()]; };
  switch(op){
  case Y_CON: { void*q=sim_malloc(hy_size()); o=lib([&]{ hy_construct(q); }); must_return("C16",who,o); P.put(q,false,Cube()); break; }
  case Y_CON5: case Y_CREATE5: case Y_CREATE0: { Cube m=new_cube(seed); m.hasw=false; m.d.assign(m.d.size(),0); if(op==Y_CON5){ void*q=sim_malloc(hy_size()); o=lib([&]{ hy_construct5(q,m.s,m.l,m.b,m.dt,hy_fmt(m.il)); }); must_return("C16",who,o); target=P.put(q,true,m); } else { int i=op==Y_CREATE0?some(false):any(); o=lib([&]{ if(op==Y_CREATE0) hy_create0(P.v[i].q,m.s,m.l,m.b,m.dt,hy_fmt(m.il)); else hy_create5(P.v[i].q,m.s,m.l,m.b,m.dt,hy_fmt(m.il)); }); must_return("C16",who,o); P.v[i].full=true; P.v[i].c=m; P.v[i].c.hasw=true; P.v[i].c.w.assign(m.b,0.f); target=i; } break; }
  case Y_CON6: case Y_CON7: case Y_CREATE7: { Cube m=new_cube(seed); if(op==Y_CON6||(b&1)) m.hasw=false; void*dd=lib_block(m.d.data(),m.bytes()); float*w=m.hasw?(float*)lib_block(m.w.data(),4*m.b):nullptr; if(op==Y_CREATE7){ int i=any(); bool nodata=c%4==0; if(nodata){ lib([&]{ free(dd); }); dd=nullptr; m.d.assign(m.d.size(),0); } o=lib([&]{ hy_create7(P.v[i].q,m.s,m.l,m.b,m.dt,hy_fmt(m.il),dd,w); }); must_return("C16",who,o); P.v[i].full=true; P.v[i].c=m; if(!m.hasw) P.v[i].c.w.assign(m.b,0.f); P.v[i].c.hasw=true; target=i; }
      else { void*q=sim_malloc(hy_size()); o=lib([&]{ if(op==Y_CON6) hy_construct6(q,m.s,m.l,m.b,m.dt,hy_fmt(m.il),dd); else hy_construct7(q,m.s,m.l,m.b,m.dt,hy_fmt(m.il),dd,w); }); must_return("C16",who,o); HyGlue g; hy_view(q,&g); if(g.data!=dd||(w&&g.wl!=w)) violate(std::string("C16:wrong:")+who,"the constructor does not use the blocks it was given"); target=P.put(q,true,m); } break; }
  case Y_COPYDATA: { int i=some(true); Cube&m=P.v[i].c; Cube n=gen_cube(m.s,m.l,m.b,m.dt,m.il,(int)(seed%6),0,seed); size_t k=b%2?0:1+(u64)c%m.bytes(); std::string src=n.d; o=lib([&]{ hy_copydata(P.v[i].q,(void*)src.data(),(long)k); }); must_return("C16",who,o); memcpy(&m.d[0],n.d.data(),k?k:m.bytes()); target=i; break; }
  case Y_COPYWL: { int i=some(true); Cube&m=P.v[i].c; Cube n=gen_cube(1,1,m.b,1,0,0,1+(int)(seed%5),seed); size_t k=b%2?0:1+(u64)c%m.b; o=lib([&]{ hy_copywl(P.v[i].q,n.w.data(),(long)k); }); must_return("C16",who,o); for(size_t j=0;j<(k?k:(size_t)m.b);j++) m.w[j]=n.w[j]; target=i; break; }
  case Y_COPY: { int i=(b%10==0)?some(false):some(true); void*q=sim_malloc(hy_size()); o=lib([&]{ hy_copy(P.v[i].q,q); }); must_return("C16",who,o); target=P.put(q,P.v[i].full,P.v[i].c,i); break; }
  case Y_CONVERT: { int i=some(true),t=(int)((u64)b%3); o=lib([&]{ hy_convert(P.v[i].q,hy_fmt(t)); }); must_return("C16",who,o); P.v[i].c=relayout(P.v[i].c,t); target=i; break; }
  case Y_RANGE: { int i=some(true); Cube m=P.v[i].c; int r0=(int)((u64)b%m.l),c0=(int)((u64)c%m.s),b0=(int)((u64)d%m.b); int r1=r0+1+(int)((u64)e%(m.l-r0)),c1=c0+1+(int)((u64)f%(m.s-c0)),b1=b0+1+(int)((seed>>8)%(m.b-b0)); void*q=sim_malloc(hy_size()); o=lib([&]{ hy_range(P.v[i].q,q,r0,c0,b0,r1,c1,b1); }); must_return("C16",who,o); Cube n; n.s=c1-c0;n.l=r1-r0;n.b=b1-b0;n.dt=m.dt;n.il=m.il;n.d.resize(n.bytes()); for(int y=0;y<n.l;y++) for(int x=0;x<n.s;x++) for(int k=0;k<n.b;k++) memcpy(n.at(y,x,k),m.at(y+r0,x+c0,k+b0),m.es()); n.hasw=true; n.w.assign(m.w.begin()+b0,m.w.begin()+b1); target=P.put(q,true,n,i); break; }
  case Y_CONV: { int i=some(true); Cube m=P.v[i].c; static const int FR[6]={1,1,2,2,0,0},TO[6]={0,2,1,0,2,1}; std::vector<int> k; for(int w=0;w<6;w++) if(FR[w]==m.il||(w>=2&&TO[w]==m.il)) k.push_back(w); int w=k[(u64)b%k.size()]; static const char*const N[6]={"bil2bsq (C++)","bil2bip (C++)","bip2bil (C++)","bip2bsq (C++)","bsq2bip (C++)","bsq2bil (C++)"}; who=N[w]; void*q=sim_malloc(hy_size()); o=lib([&]{ hy_conv(w,P.v[i].q,q); }); must_return("C16",who,o); target=P.put(q,true,relayout(m,TO[w]),i); break; }
  case Y_RELEASE: { int i=any(); o=lib([&]{ hy_release(P.v[i].q); if(b%4==0) hy_release(P.v[i].q); }); must_return("C16",who,o); P.v[i].full=false; P.v[i].c=Cube(); if(c%2) P.clear(i); break; }
  case Y_SAVE: { int i=some(true); std::string p=HP[(u64)b%3]; o=lib([&]{ hy_save(P.v[i].q,p.c_str()); }); must_return("C16",who,o); Cube m=P.v[i].c; for(float&w:m.w) w=wl_text(w); P.files[p]=m; break; }
  case Y_CSAVE: { Cube m=new_cube(seed); std::string p=HP[(u64)b%3]; hyper_mat h=mk_cube(m,0); o=lib([&]{ hmsave(p.c_str(),h); }); must_return("C16",who,o); free_cube(h,0); if(!m.hasw) m.w.assign(m.b,0.f); m.hasw=true; for(float&w:m.w) w=wl_text(w); P.files[p]=m; break; }
  case Y_OPEN: case Y_OPENSIZE: case Y_HMREAD: case Y_HMSIZE: { if(P.files.empty()) return; auto it=P.files.begin(); std::advance(it,(u64)b%P.files.size()); Cube m=it->second; std::string h=it->first+".hdr"; if(op==Y_OPENSIZE||op==Y_HMSIZE){ if(c%2){ m.l=(int)m.n(); m.s=m.b=1; m.il=(int)((u64)d%3); } m.w.assign(m.b,0.f); }
      if(op==Y_OPEN||op==Y_OPENSIZE){ int i=any(); o=lib([&]{ if(op==Y_OPEN) hy_open(P.v[i].q,it->first.c_str(),h.c_str()); else hy_open_size(P.v[i].q,it->first.c_str(),m.s,m.l,m.b,m.dt,hy_fmt(m.il)); }); must_return("C16",who,o); P.v[i].full=true; P.v[i].c=m; target=i; }
      else { void*q=sim_malloc(hy_size()); o=lib([&]{ if(op==Y_HMREAD) hy_hmread(q,it->first.c_str(),h.c_str()); else hy_hmread_size(q,it->first.c_str(),m.s,m.l,m.b,m.dt,hy_fmt(m.il)); }); must_return("C16",who,o); target=P.put(q,true,m); } break; }
  case Y_CLOAD: { if(P.files.empty()) return; auto it=P.files.begin(); std::advance(it,(u64)b%P.files.size()); std::string h=it->first+".hdr"; hyper_mat x=nullptr; o=lib([&]{ x=hmread_with_hdr(it->first.c_str(),h.c_str()); }); must_return("C16",who,o); if(!x) violate("C16:cross:hmread_with_hdr","the C functions refuse a file the same history can load (%s)",desc(it->second).c_str()); Cube g=rd_cube(x,who); std::string why; if(!g.same(it->second,&why)) violate("C16:cross:hmread_with_hdr","the C functions load %s differently: %s",desc(it->second).c_str(),why.c_str()); lib([&]{ delete_hyper_mat(x); }); break; }
  case Y_SET: { int i=some(true); Cube&m=P.v[i].c; HyGlue g; hy_view(P.v[i].q,&g); size_t k=(u64)b%m.bytes(); ((char*)g.data)[k]=(char)seed; m.d[k]=(char)seed; if(g.wl){ int w=(int)((u64)c%m.b); g.wl[w]=(float)(seed%1000)/8; m.w[w]=g.wl[w]; } target=i; break; }
  }
  tracef("%s",who); P.check(who,target); }
static Plan gen_c16(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C16"; p.seed=seed; env_common(p,r); int tot=0; for(int w:YW) tot+=w; int n=(int)r.range(4,tier?50:30); std::vector<int> fav; if(r.chance(1,2)) for(int i=0;i<3;i++) fav.push_back((int)r.below(Y_N));
  for(int i=0;i<n;i++){ Step s; if(r.chance(1,25)){ s.op="restart"; p.steps.push_back(s); continue; } if(r.chance(1,15)){ s.op="scribble"; p.steps.push_back(s); continue; } s.op="y"; int k; if(!fav.empty()&&r.chance(1,2)) k=r.pick(fav); else { i64 x=(i64)r.below(tot); k=0; while(x>=YW[k]) x-=YW[k++]; } s.a={(i64)k,(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)r.below(1000),(i64)(r.next()>>4)}; p.steps.push_back(s); } return p; }
static void run_c16(const Plan&p){ std::map<std::string,Cube> files; size_t i=0; u64 lifeno=0; fs_wipe(); while(i<p.steps.size()){ size_t e=i; while(e<p.steps.size()&&p.steps[e].op!="restart") e++; blob_reset();
    life([&]{ apply_env(p,lifeno); YPool P; P.files=files; for(size_t k=i;k<e;k++){ if(p.steps[k].op=="scribble") mem_scribble_free(); else c16_do(P,p.steps[k]); } for(int k=0;k<YSLOTS;k++) if(P.v[k].q){ P.clear(k); P.check("HyMat::release",-2); } blob_u(P.files.size()); for(auto&f:P.files){ blob_str(f.first); put_cube(f.second); } });
    BlobReader b; files.clear(); for(u64 n=b.u();n--;){ std::string k=b.str(); files[k]=get_cube(b); } if(e<p.steps.size()) fault(F_RESTART); i=e+1; lifeno++; } }
extern const Prop PC07={"C07",gen_c07,run_c07,40000,1500000}, PC15={"C15",gen_c15,run_c15,12000,800000}, PC16={"C16",gen_c16,run_c16,30000,1200000};
