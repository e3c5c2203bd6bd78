// C13 (clustering) and C14 (image viewer).
#include "glue.hpp"
#include <algorithm>
#include <cstdlib>
#include <SDL.h>
#undef main
// ================================================================== C13
// step km R C CH PATTERN SEED KIND THR RANDMODE RANDSEED PLACE
struct Pt { int x,y; bool operator==(const Pt&o) const { return x==o.x&&y==o.y; } };
static Plan gen_c13(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C13"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?5:4);
  for(int i=0;i<n;i++){ Step s; s.op="km"; int R=(int)(r.chance(1,6)?1:r.range(1,tier?18:12)),C=(int)(r.chance(1,6)?1:r.range(1,tier?18:12)); s.a={R,C,r.chance(1,3)?3:1,(i64)r.below(9),(i64)(r.next()>>30),r.range(1,r.chance(1,4)?9:4),r.chance(1,2)?0:r.range(0,4),(i64)r.below(6),(i64)(r.next()>>24),(i64)r.below(2)}; if(r.chance(1,120)) s.a[5]=r.range(200,600); if(r.chance(1,30)) s.a[6]=r.range(5,40); p.steps.push_back(s); if(r.chance(1,tier?600:300)){ // wide or tall images: sums of positions and squared distances pass 2^31
      Step w=s; i64 l=r.range(30000,r.chance(1,4)?120000:70000),q=r.range(1,2); w.a[0]=l; w.a[1]=q; if(r.chance(1,2)) std::swap(w.a[0],w.a[1]); w.a[5]=r.range(1,3); if(r.chance(1,2)) w.a[3]=1; w.op="kmw"; p.steps.push_back(w); }
    if(r.chance(1,8)){ Step b; b.op="bad"; b.a={(i64)r.below(4)}; p.steps.push_back(b); } }
  p.env["clock"]=(i64)(r.next()>>(r.chance(1,2)?34:20)); p.env["clock2"]=(i64)(r.next()>>34); return p; }
static Img km_img(const Step&s){ i64 mx=s.op=="kmw"?120000:24; int R=std::max<i64>(1,std::min<i64>(mx,s.g(0))),C=std::max<i64>(1,std::min<i64>(mx,s.g(1))); if((i64)R*C>400000){ if(R<C) R=1; else C=1; } int ch=s.g(2)==3?3:1; Img m; m.r=R; m.c=C; m.dt=1; m.ch=ch; m.d.assign((size_t)R*C*ch,'\0'); Rng r((u64)s.g(4)+17); int pat=(int)(s.g(3)%9); if(pat<0) pat=0;
  auto put=[&](int i,int j){ for(int k=0;k<ch;k++) m.d[((size_t)i*C+j)*ch+k]=(char)(u8)(pat==8?1+r.below(3):r.chance(1,2)?255:1+r.below(255)); };
  for(int i=0;i<R;i++) for(int j=0;j<C;j++){ bool on=false; switch(pat){ case 0: on=false; break; case 1: on=true; break; case 2: on=r.chance(1,2); break; case 3: on=r.chance(1,8); break; case 4: on=((i/2+j/2)&1)==0; break; case 5: on=i==0||j==0||i==R-1||j==C-1; break; case 6: on=(i<R/3&&j<C/3)||(i>R*2/3&&j>C*2/3); break; case 7: on=i==(int)(s.g(4)%R)&&j==(int)(s.g(4)/7%C); break; default: on=r.chance(1,3); } if(on) put(i,j); }
  return m; }
static std::vector<Pt> km_pass(const std::vector<u8>&g,int R,int C,const std::vector<Pt>&c){ size_t k=c.size(); std::vector<long> sx(k,0),sy(k,0),n(k,0); for(int i=0;i<R;i++) for(int j=0;j<C;j++) if(g[(size_t)i*C+j]){ size_t best=0; long bd=-1; for(size_t q=0;q<k;q++){ long dx=c[q].x-j,dy=c[q].y-i,d=dx*dx+dy*dy; if(bd<0||d<bd){ bd=d; best=q; } } sx[best]+=j; sy[best]+=i; n[best]++; }
  std::vector<Pt> o(c); for(size_t q=0;q<k;q++) if(n[q]){ o[q].x=(int)(sx[q]/n[q]); o[q].y=(int)(sy[q]/n[q]); } return o; }
static std::string pts(const std::vector<Pt>&v){ std::string s; for(auto&p:v) s+="("+std::to_string(p.x)+","+std::to_string(p.y)+")"; return s; }
struct KmRes { Out o{O_RET,0}; std::vector<Pt> c; std::vector<int> stream; std::vector<u8> gray; u64 randcalls=0; std::string changed; };
static KmRes km_run(const Step&s,int placement,i64 clock,int fillseed){ KmRes res; Img m=km_img(s); int kind=(int)std::max<i64>(1,std::min<i64>(600,s.g(5))),thr=(int)std::max<i64>(0,s.g(6)); clock_config(clock); simple_mat im=mk_img(m,placement);
  // the gray picture the library itself makes of a colour image is the input of the reference
  res.gray.assign((size_t)m.r*m.c,0); if(m.ch==1) memcpy(res.gray.data(),m.d.data(),m.d.size()); else { simple_mat g=nullptr; Out o=lib([&]{ g=sm_rgb2gray(im,0); }); if(!o.ret()||!g) violate("C13:gray","the gray conversion of the test image failed"); Img gi=rd_img(g,"sm_rgb2gray"); memcpy(res.gray.data(),gi.d.data(),res.gray.size()); lib([&]{ delete_simple_mat(g); }); }
  rand_config((u64)s.g(8),(int)(s.g(7)%6)); for(int i=0;i<2*kind;i++){ int x; { int o=g_in_lib; g_in_lib=1; x=rand(); g_in_lib=o; } res.stream.push_back(x); }
  rand_config((u64)s.g(8),(int)(s.g(7)%6)); POINT*v=nullptr; Rng fr((u64)fillseed); { size_t*h=(size_t*)sim_malloc(2*sizeof(size_t)+kind*sizeof(POINT)); h[0]=kind; h[1]=kind; v=(POINT*)(h+2); for(int i=0;i<kind;i++){ v[i].x=(int)fr.next(); v[i].y=(int)fr.next(); } }
  step_limit(step_count()+60000000ull+(u64)m.r*m.c*(kind+2)*6000); g_where="hypercv_k_means"; res.o=lib([&]{ hypercv_k_means(im,v,kind,thr); }); step_limit(~0ull>>1); res.randcalls=rand_calls(); if(res.o.ret()){ for(int i=0;i<kind;i++) res.c.push_back({v[i].x,v[i].y}); Img after=rd_img(im,"hypercv_k_means"); if(after.d!=m.d) violate("C13:image-changed","clustering changed its input image"); size_t*h=(size_t*)v-2; sim_free(h); free_img(im,placement); } return res; }
static void run_c13(const Plan&p){ size_t k=0; u64 lifeno=0; fs_wipe(); std::vector<std::vector<Pt>> first(p.steps.size());
  for(int v=0;v<2;v++){ k=0; while(k<p.steps.size()){ blob_reset(); life([&]{ apply_env(p,lifeno+v*101); for(size_t i=k;i<p.steps.size();i++){ const Step&s=p.steps[i];
        if(s.op=="bad"){ int w=(int)(s.g(0)%4); Img m=gen_img(3,3,1,1,V_CONST,1); simple_mat im=mk_img(m,1); size_t*h=(size_t*)sim_malloc(64); h[0]=2; h[1]=2; Out o=lib([&]{ if(w==0) hypercv_k_means(nullptr,(POINT*)(h+2),2,0); else if(w==1) hypercv_k_means(im,(POINT*)(h+2),0,0); else if(w==2) hypercv_k_means(im,(POINT*)(h+2),3,0); else hypercv_k_means(im,(POINT*)(h+2),-1,0); });
          if(o.ret()||(o.kind==O_EXIT&&o.code==0)) violate("C13:accepts","clustering %s reports no error",w==0?"without an image":w==2?"with a vector of another size":"into no clusters"); probe("k-means refuses"); blob_u(i); blob_u(0); return; }
        KmRes a=km_run(s,(int)((s.g(9)+v)%2),v?p.e("clock2"):p.e("clock"),(int)(i*31+v*7+lifeno)); Img m=km_img(s); int R=m.r,C=m.c,kind=(int)a.stream.size()/2,thr=(int)std::max<i64>(0,s.g(6)); if(kind>255) probe("k-means with more than 255 centres"); char what[120]; snprintf(what,120,"%dx%d image, %d channel(s), %d centres, threshold %d",R,C,m.ch,kind,thr);
        if(!a.o.ret()) violate("C13:stops","clustering ended the process: %s",what);
        for(auto&c:a.c) if(c.x<0||c.y<0||c.x>=C||c.y>=R) violate("C13:outside","centre outside the image: %s gives %s",what,pts(a.c).c_str());
        probe("k-means"); if(s.op=="kmw") probe("k-means of a wide or tall image"); std::vector<Pt> c; for(int q=0;q<kind;q++) c.push_back({a.stream[2*q]%C,a.stream[2*q+1]%R});
        std::vector<std::vector<Pt>> seen{c}; bool conv=false,gaveup=false; int pass=0; size_t cyc=0; for(;pass<5000;pass++){ std::vector<Pt> n=km_pass(a.gray,R,C,c); bool moved=false; for(int q=0;q<kind;q++) if(abs(n[q].x-c[q].x)>thr||abs(n[q].y-c[q].y)>thr) moved=true; c=n; if(!moved){ conv=true; break; } auto it=std::find(seen.begin(),seen.end(),c); if(it!=seen.end()){ cyc=it-seen.begin(); break; } seen.push_back(c); if(s.op=="kmw"&&pass>900){ gaveup=true; break; } }
        if(conv){ probe(pass>3?"k-means converges after many passes":"k-means converges"); if(!(a.c==c)) violate("C13:centres","%s: from the starting points the random numbers select, plain k-means ends at %s, the library gave %s",what,pts(c).c_str(),pts(a.c).c_str()); }
        else if(gaveup) probe("k-means of a wide image, too many passes to compare");
        else { probe("k-means cut off in a cycle"); bool in=false; for(size_t q=cyc;q<seen.size();q++) if(seen[q]==a.c) in=true; if(!in) violate("C13:centres","%s: plain k-means never settles and runs through a cycle, the library gave %s which is no state of that cycle",what,pts(a.c).c_str()); }
        if(thr==0&&conv){ std::vector<Pt> n=km_pass(a.gray,R,C,a.c); if(!(n==a.c)) violate("C13:not-fixed","%s: centres would move from %s to %s",what,pts(a.c).c_str(),pts(n).c_str()); }
        blob_u(i); blob_u(a.c.size()); for(auto&q:a.c){ blob_u((u64)q.x); blob_u((u64)q.y); } } });
      BlobReader b; size_t got=0; while(!b.end()){ size_t i=(size_t)b.u(),n=(size_t)b.u(); std::vector<Pt> c(n); for(auto&q:c){ q.x=(int)b.u(); q.y=(int)b.u(); } got++; if(v==0) first[i]=c; else if(!(first[i]==c)) pviol("C13:differs","the same random sequence gives other centres with another clock or memory"); }
      k+=std::max<size_t>(got,1); lifeno++; } } }
// ================================================================== C14
// steps: show R C DT CH VSEED FAILINIT FAILSURFACE FAILVIDEO VIDEOOK PLACE NAME, followed by its events: ev TYPE A B DELAY
static bool ends(const SdlEvent&e){ return e.type==0||e.type==4||(e.type==1&&e.a==SDLK_ESCAPE); }
static Plan gen_c14(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C14"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?6:4); static const int vok[]={0,8,15,16,24,32};
  for(int i=0;i<n;i++){ Step s; s.op="show"; int ch=(int)r.range(1,4); if(ch==2) ch=1; int dt=r.chance(1,4)?DTYPES[r.below(9)]:1; s.a={r.range(1,r.chance(1,8)?300:16),r.range(1,r.chance(1,8)?300:16),dt,ch,(i64)(r.next()>>30),r.chance(1,10),r.chance(1,10),r.chance(1,10),vok[r.below(6)],(i64)r.below(3),(i64)r.below(3)}; p.steps.push_back(s);
    int m=r.chance(1,5)?0:(int)r.below(tier?40:14); bool quiet=r.chance(1,4); for(int k=0;k<m;k++){ Step e; e.op="ev"; int t=(int)r.below(12); if(r.chance(1,2)) t=3; if(t==0&&r.chance(3,4)) t=9; if(t==4&&r.chance(3,4)) t=8; i64 a=0; if(t==1) a=r.chance(1,4)?27:(i64)r.below(320); if(t==2){ a=(i64)r.below(320); if(a==27) a=28; } if(t==3) a=r.chance(1,2)?1:(i64)r.below(256); if(t==5||t==6) a=1+(i64)r.below(5); e.a={t,a,(i64)r.below(70000),quiet?(i64)r.below(400):r.chance(1,2)?0:(i64)r.below(60)}; p.steps.push_back(e); } }
  return p; }
static void check_show(const Step&s,const std::vector<SdlEvent>&evs,size_t idx){ Img m=gen_img((int)std::max<i64>(1,std::min<i64>(400,s.g(0))),(int)std::max<i64>(1,std::min<i64>(400,s.g(1))),dt_size((int)s.g(2))?(int)s.g(2):1,(int)std::max<i64>(1,std::min<i64>(4,s.g(3))),V_RANDOM,(u64)s.g(4)); int place=(int)(s.g(9)%3); if(place<0) place=0; if(place>1) place=1;
  SdlEnv E; E.events=evs; E.fail_init=(int)s.g(5); E.fail_surface=(int)s.g(6); E.fail_video=(int)s.g(7); E.videook=(int)s.g(8); E.expect=m.d; E.rows=m.r; E.cols=m.c; E.rgb=m.dt==1&&m.ch!=2; sdl_config(E); simple_mat im=mk_img(m,place); u64 live=mem_stat().live; static const char*nm[3]={"view","",nullptr}; const char*name=nm[(u64)s.g(10)%3]; step_limit(80000000); g_where="smshow";
  Out o=lib([&]{ smshow(name,im); }); step_limit(~0ull>>1); SdlLog&L=sdl_log(); char what[160]; snprintf(what,160,"show %zu (%dx%d, %d channel(s), type %d%s%s%s, video answer %d, %zu events)",idx,m.r,m.c,m.ch,m.dt,E.fail_init?", init fails":"",E.fail_surface?", surface fails":"",E.fail_video?", video mode fails":"",E.videook,evs.size());
  if(!o.ret()) violate("C14:ends-process","the viewer ended the process: %s",what);
  if(L.images_live) violate("C14:surface-leak","the image surface was not freed: %s",what); if(L.double_free) violate("C14:double-free","a surface was freed twice: %s",what); if(L.after_quit) violate("C14:after-quit","window system used while it was not running: %s",what); if(L.inits&&!L.quits) violate("C14:no-quit","the window system was not shut down: %s",what); if(L.inits!=L.quits) violate("C14:no-quit","window system started %d times, shut down %d times: %s",L.inits,L.quits,what);
  if(mem_stat().live!=live) violate("C14:leak","the viewer kept %lld memory blocks: %s",(long long)(mem_stat().live-live),what);
  Img a=rd_img(im,"smshow"); if(a.d!=m.d) violate("C14:image-changed","the viewer changed the image: %s",what);
  bool unsup=false; for(auto&e:L.ev) if(e=="surface-unsupported") unsup=true;
  if(E.fail_init||E.fail_surface||E.fail_video||unsup){ probe(E.fail_init?"viewer without window system":E.fail_surface?"viewer without surface":unsup?"viewer with unsupported depth":"viewer without video mode"); if(L.polled_events||L.blits) violate("C14:goes-on","the viewer went on after a failing call: %s",what); }
  else { size_t want=0; bool fin=false; for(auto&e:evs){ want++; if(ends(e)){ fin=true; break; } } if(!fin) want++; probe("viewer shows"); if(fin) probe(evs[want-1].type==0?"viewer quit":evs[want-1].type==4?"viewer resize":"viewer escape");
    if((size_t)L.polled_events<want) violate("C14:returns-early","the viewer returned after event %d although only event %zu ends it: %s",L.polled_events,want,what); if((size_t)L.polled_events>want) violate("C14:returns-late","the viewer took %d events although event %zu ends it: %s",L.polled_events,want,what);
    if(!L.painted_before_wait) violate("C14:not-painted","the image was not painted before the viewer first looked for events: %s",what); if(!L.blit_full) violate("C14:part-painted","only part of the image was painted: %s",what); if(L.order_bad) violate("C14:wrong-surface","wrong surface used (%d): %s",L.order_bad,what);
    if(L.shot_bad) violate("C14:wrong-picture","the painted picture differs from the image at paint %d: %s",L.shot_bad,what);
    if(L.spins) violate("C14:spins","the viewer polled again without waiting although no event was there: %s",what); if(L.max_wait>1000) violate("C14:slow","an event waited %llu ms: %s",(unsigned long long)L.max_wait,what);
    // after a drag: a full paint before the viewer next finds nothing to do
    int need=0; for(auto&e:L.ev){ int t,v; if(sscanf(e.c_str(),"ev:%d:%d",&t,&v)==2){ if(t==3&&(v&1)) need=2; } else if(e=="blit"){ if(need==2) need=1; } else if(e=="update"){ if(need==1) { need=0; probe("repaint after drag"); } } else if(e=="idle"&&need) violate("C14:no-repaint","no repaint after a drag: %s",what); } }
  free_img(im,place); }
static void run_c14(const Plan&p){ fs_wipe(); life([&]{ apply_env(p,0); for(size_t i=0;i<p.steps.size();i++){ const Step&s=p.steps[i]; if(s.op!="show") continue; std::vector<SdlEvent> evs; for(size_t j=i+1;j<p.steps.size()&&p.steps[j].op=="ev";j++){ const Step&e=p.steps[j]; int t=(int)(e.g(0)<0?0:e.g(0)),a=(int)e.g(1); if(t==2&&a==27) a=28; evs.push_back({t,a,(int)e.g(2),(int)std::max<i64>(0,e.g(3))}); } check_show(s,evs,i); } });
  life([&]{ apply_env(p,1); Out o=lib([&]{ smshow("view",nullptr); }); if(o.ret()||(o.kind==O_EXIT&&o.code==0)) violate("C14:accepts","showing no image reports no error"); }); }
extern const Prop PC13={"C13",gen_c13,run_c13,24000,800000}, PC14={"C14",gen_c14,run_c14,28000,1000000};
