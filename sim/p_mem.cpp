// C08, C09, C10, C12: every catalogued operation under changed memory, repeated histories, failing allocations and protected inputs.
#include "ops.hpp"
#include <algorithm>
static int pick_op(Rng&r){ for(;;){ int k=(int)r.below(ops().size()); if((ops()[k].flags&OF_SLOW)&&r.chance(2,3)) continue; return k; } }
static Step noise_step(Rng&r){ Step s=step_of(gen_spec(r,pick_op(r))); return s; }
static void gen_ops(Plan&p,Rng&r,int lo,int hi){ int n=(int)r.range(lo,hi); int same=r.chance(1,4)?pick_op(r):-1; for(int i=0;i<n;i++){ if(i&&r.chance(1,5)){ Step s=p.steps[r.below(p.steps.size())]; if(r.chance(1,2)) s.a[11]=(i64)(r.next()>>24); p.steps.push_back(s); } else p.steps.push_back(step_of(gen_spec(r,same>=0&&r.chance(1,2)?same:pick_op(r)))); } }
static void op_probe(int op){ char b[40]; snprintf(b,40,"op %s",ops()[op].name); probe(b); }
static std::string pre(size_t i){ return "s"+std::to_string(i)+"_"; }
static void expect_no_zero_exit(const char*prop,const OpDef&d,const Out&o){ if(o.kind==O_EXIT&&o.code==0) violate(std::string(prop)+":exit0:"+d.name,"%s ended the process with status 0",d.name); }
// ================================================================== C08
static Plan gen_c08(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C08"; p.seed=seed; env_common(p,r); gen_ops(p,r,1,tier?9:6); p.env["order"]=(i64)r.below(3); p.env["noise"]=(i64)(r.next()>>24); return p; }
static void run_c08(const Plan&p){ std::vector<OpSpec> sp; for(auto&s:p.steps){ OpSpec o; if(spec_of(s,o)) sp.push_back(o); } size_t n=sp.size(); std::vector<OpRes> ref(n);
  for(int v=0;v<3;v++){ std::vector<size_t> ord; for(size_t i=0;i<n;i++) ord.push_back(i); if(v==1&&p.e("order")==1) std::reverse(ord.begin(),ord.end()); if(v>0&&p.e("order")==2&&n>1) std::rotate(ord.begin(),ord.begin()+v%n,ord.end()); if(v==2&&n>1){ Rng r((u64)p.e("noise")); for(size_t i=0;i+1<n;i++) std::swap(ord[i],ord[i+r.below(n-i)]); }
    size_t k=0; u64 lifeno=0; fs_wipe(); while(k<n){ blob_reset(); life([&]{ apply_env(p,v*11+lifeno*3); Rng nr((u64)p.e("noise")+v*77+lifeno);
        for(size_t q=k;q<n;q++){ size_t i=ord[q]; if(v>0&&nr.chance(1,3)){ OpSpec ns; if(spec_of(noise_step(nr),ns)&&!(ops()[ns.op].flags&OF_DISK)){ Ctx y(ns,(int)nr.below(2),nr.next(),"n_"); OpRes z=run_op(y); if(z.o.ret()) y.cleanup(); else { break; } } }
          if(v>0&&nr.chance(1,4)) mem_scribble_free();
          Ctx x(sp[i],v==0?0:(int)((i+v)%2),mix64((u64)v*1000+i),pre(i)); OpRes a=run_op(x); expect_no_zero_exit("C08",ops()[sp[i].op],a.o); op_probe(sp[i].op); blob_u(i); put_res(a); if(!a.o.ret()) break; x.cleanup(); } });
      BlobReader b; size_t got=0; while(!b.end()){ size_t i=(size_t)b.u(); OpRes a=get_res(b); got++; if(v==0) ref[i]=a; else if(!(a==ref[i])) pviol(std::string("C08:differs:")+ops()[sp[i].op].name,"%s gives another result for the same arguments when memory held other values, blocks lay elsewhere or other calls ran before: %s",ops()[sp[i].op].name,diff_res(ref[i],a).c_str()); }
      k+=got; lifeno++; if(lifeno>60) break; } } }
// ================================================================== C09
// step p[3]/... reused by the spec; the armed failure comes from the plan's environment
static Plan gen_c09(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C09"; p.seed=seed; env_common(p,r); gen_ops(p,r,1,tier?10:7); p.env["arms"]=r.chance(1,3)?(i64)(1+(r.next()>>30)):0; p.env["rep"]=1+(i64)r.below(3); return p; }
static void run_c09(const Plan&p){ std::vector<OpSpec> sp; for(auto&s:p.steps){ OpSpec o; if(spec_of(s,o)) sp.push_back(o); } size_t n=sp.size(),k=0; u64 lifeno=0; u64 arms=(u64)p.e("arms"); int rep=std::max(1,std::min(4,(int)p.e("rep",1))); fs_wipe();
  while(k<n){ blob_reset(); life([&]{ apply_env(p,lifeno); fs_disarm(); { Ctx w(sp[k],0,0,"w_"); } u64 live0=mem_stat().live,bytes0=mem_stat().bytes; 
      for(size_t q=k;q<n;q++){ const OpDef&d=ops()[sp[q].op]; bool stop=false; for(int t=0;t<rep&&!stop;t++){ fs_wipe(); { Ctx x(sp[q],(int)((q+t)%2),q,pre(q)); std::string armed; if(arms){ u64 h=mix64(arms+q*131+t); if((d.flags&OF_DISK)&&h%3==0){ static const int kk[]={E_OPEN_R,E_READ,E_WRITE,E_OPEN_W,E_CLOSE,E_SEEK,E_RENAME}; FsArm a; a.kind=kk[h/3%7]; a.nth=1+(i64)(h/21%3); a.how=(int)(h/63%9); a.frac=(i64)(h>>9)&0xffff; a.sticky=h>>40&1; fs_arm(a); armed="disk"; } else if(h%3==1){ mem_arm(1+(i64)(h/3%5),0,-1); armed="memory"; } }
            OpRes a=run_op(x); mem_arm(-1,0,-1); fs_disarm(); expect_no_zero_exit("C09",d,a.o); op_probe(sp[q].op); if(a.refused) probe("failure returned"); if(!a.o.ret()){ blob_u(q); stop=true; break; }
            if(fs_open_handles()) violate(std::string("C09:open-file:")+d.name,"%s left %d file(s) open%s",d.name,fs_open_handles(),a.refused?" after reporting failure":""); x.cleanup(); }
          u64 live=mem_stat().live,bytes=mem_stat().bytes; if(live!=live0||bytes!=bytes0) violate(std::string("C09:held:")+d.name,"after %s and deletion of its results %lld block(s) with %lld bytes are still held",d.name,(long long)(live-live0),(long long)(bytes-bytes0)); }
        if(stop) return; blob_u(q); } });
    BlobReader b; size_t got=0; while(!b.end()){ b.u(); got++; } k+=std::max<size_t>(got,1); lifeno++; } }
// ================================================================== C10
// env mode: 0 one allocation fails, 1 all from one point on, 2 capacity
static Plan gen_c10(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C10"; p.seed=seed; env_common(p,r); int n=(int)r.range(1,tier?4:3); for(int i=0;i<n;i++) p.steps.push_back(step_of(gen_spec(r,pick_op(r)))); p.env["pick"]=(i64)(r.next()>>24); p.env["tries"]=1+(i64)r.below(tier?5:3); return p; }
static void run_c10(const Plan&p){ for(size_t i=0;i<p.steps.size();i++){ OpSpec s; if(!spec_of(p.steps[i],s)) continue; const OpDef&d=ops()[s.op]; fs_wipe(); blob_reset();
    life([&]{ apply_env(p,i); Ctx x(s,(int)(i%2),1,pre(i)); u64 a0=mem_stat().attempts,b0=mem_stat().bytes; if(d.flags&OF_RAND) rand_config(s.seed,0); Out o=lib(x.call); u64 na=mem_stat().attempts-a0,pk=mem_stat().peak>b0?mem_stat().peak-b0:0; OpRes a=finish_op(x,o); expect_no_zero_exit("C10",d,o); blob_u(na); blob_u(pk); put_res(a); });
    BlobReader b; u64 na=b.u(),pk=b.u(); OpRes ref=get_res(b); op_probe(s.op); if(!na) continue; Rng r((u64)p.e("pick")+i*1009); int tries=std::max(1,std::min(12,(int)p.e("tries",1)));
    bool all=na<=(u64)tries; for(int t=0;t<tries*1&&t<(int)std::max<u64>(na*2,1);t++){ i64 nth=all&&t<(int)na?t+1:1+(i64)r.below(na); int mode=(int)r.below(5); int from=mode==1||mode==2; i64 cap=-1; fs_wipe();
      life([&]{ apply_env(p,i+t*7+1); Ctx x(s,(int)((i+t)%2),t+2,pre(i)); if(mode==4){ cap=(i64)mem_stat().bytes+(i64)r.below(pk+1); nth=-1; } u64 f0=mem_stat().failed; mem_arm(nth,from,cap); if(d.flags&OF_RAND) rand_config(s.seed,0); Out o=lib(x.call); mem_arm(-1,0,-1); u64 failed=mem_stat().failed-f0;
        char what[90]; if(mode==4) snprintf(what,90,"memory ran out"); else snprintf(what,90,"allocation %lld of %llu%s failed",(long long)nth,(unsigned long long)na,from?" and all later ones":"");
        tracef("%s with %s: %s",d.name,what,o.ret()?"returned":o.kind==O_EXIT?"exit":"stopped"); expect_no_zero_exit("C10",d,o);
        std::string ch=x.changed(); if(!ch.empty()) violate(std::string("C10:input-changed:")+d.name,"%s: %s when %s",d.name,ch.c_str(),what);
        if(o.ret()){ OpRes a=finish_op(x,o); if(!a.refused&&!(a==ref)) violate(std::string("C10:wrong:")+d.name,"%s returned normally when %s, but its result is not the correct one: %s",d.name,what,diff_res(ref,a).c_str()); if(a.refused) probe("failure returned"); x.cleanup(); } else probe("process stopped");
        (void)failed; }); } } }
// ================================================================== C12
static Plan gen_c12(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C12"; p.seed=seed; env_common(p,r); gen_ops(p,r,2,tier?12:8); p.env["arms"]=r.chance(1,4)?(i64)(1+(r.next()>>30)):0; return p; }
static void run_c12(const Plan&p){ std::vector<OpSpec> sp; for(auto&s:p.steps){ OpSpec o; if(spec_of(s,o)&&!(ops()[o.op].flags&OF_NOC12)) sp.push_back(o); } size_t n=sp.size(),k=0; u64 lifeno=0; u64 arms=(u64)p.e("arms"); fs_wipe();
  while(k<n){ blob_reset(); life([&]{ apply_env(p,lifeno); for(size_t q=k;q<n;q++){ const OpDef&d=ops()[sp[q].op]; page_pool_reset(); fs_wipe(); Ctx x(sp[q],2,q,pre(q)); if(arms){ u64 h=mix64(arms+q*131); if(h%3==1) mem_arm(1+(i64)(h/3%6),(int)(h>>20&1),-1); }
        OpRes a=run_op(x); mem_arm(-1,0,-1); op_probe(sp[q].op); std::string ch=x.changed(); if(!ch.empty()) violate(std::string("C12:changed-input:")+d.name,"%s: %s",d.name,ch.c_str()); blob_u(q); if(!a.o.ret()) return; x.cleanup(); } });
    BlobReader b; size_t got=0; while(!b.end()){ b.u(); got++; } k+=std::max<size_t>(got,1); lifeno++; } }
extern const Prop PC08={"C08",gen_c08,run_c08,25000,900000}, PC09={"C09",gen_c09,run_c09,60000,2500000}, PC10={"C10",gen_c10,run_c10,30000,900000}, PC12={"C12",gen_c12,run_c12,60000,2500000};
