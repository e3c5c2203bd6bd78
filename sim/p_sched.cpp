// C11: several callers inside library code at the same time, every one must get what it gets alone.
// Steps: one per caller (a catalogued call), then switch points: sw CALLER KIND VALUE TO
//   KIND 0: after VALUE millionths of the caller's accesses; 1: before its VALUE-th access to static data or store into a shared input; 2: right after it
#include "ops.hpp"
#include <algorithm>
static int pick_op(Rng&r){ for(;;){ int k=(int)r.below(ops().size()); if(ops()[k].flags&OF_NOCONC) continue; if((ops()[k].flags&OF_SLOW)&&r.chance(2,3)) continue; return k; } }
static Plan gen_c11(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C11"; p.seed=seed; env_common(p,r); int n=r.chance(1,4)?3:2; int op=pick_op(r); OpSpec a=gen_spec(r,op); p.steps.push_back(step_of(a)); int how=(int)r.below(4); // 0 same call, same inputs; 1 same operation, other inputs; 2 same key, other operation; 3 anything
  for(int i=1;i<n;i++){ OpSpec b; switch(how){ case 0: b=a; break; case 1: b=gen_spec(r,op); if(r.chance(1,2)){ b=a; b.seed=r.next()>>24; } else if(r.chance(1,2)) b.dt=a.dt; break; case 2: b=a; b.op=pick_op(r); break; default: b=gen_spec(r,pick_op(r)); } p.steps.push_back(step_of(b)); }
  p.env["first"]=(i64)r.below(n); p.env["quantum"]=r.chance(1,3)?(i64)(1+r.below(r.chance(1,2)?8:400)):0; p.env["qseed"]=(i64)(r.next()>>30);
  int m=1+(int)r.below(tier?12:7); bool hot=r.chance(2,3); for(int i=0;i<m;i++){ Step s; s.op="sw"; int k=hot&&r.chance(3,4)?1+(int)r.below(2):0; i64 f=(i64)r.below(n); s.a={f,k,k?(r.chance(1,2)?(i64)r.below(6):(i64)(r.next()>>40)):(i64)r.below(1000000),(f+1+(i64)r.below(n-1))%n}; p.steps.push_back(s); }
  return p; }
static std::string pre(int i){ return "k"+std::to_string(i)+"_"; }
static void run_c11(const Plan&p){ std::vector<OpSpec> sp; std::vector<Step> sw; for(auto&s:p.steps){ OpSpec o; if(s.op=="sw") sw.push_back(s); else if(sp.size()<4&&spec_of(s,o)&&!(ops()[o.op].flags&OF_NOCONC)) sp.push_back(o); } int n=(int)sp.size(); if(n<1) return; fs_wipe();
  struct Solo { OpRes r; u64 acc=0; std::vector<Hot> hot; }; std::vector<Solo> so(n); bool allret=true;
  for(int i=0;i<n;i++){ blob_reset(); life([&]{ apply_env(p,i*3); step_limit(30000000); Share sh; Ctx x(sp[i],1,7,pre(i),&sh); SchedCfg c; for(auto&g:sh.regs) c.watch.push_back({(uintptr_t)g.p,(uintptr_t)g.p+g.n}); rand_config((u64)p.e("qseed"),0); SchedResult r; g_where=ops()[sp[i].op].name; sched_run({x.call},c,r); OpRes q=finish_op(x,r.out[0]); put_res(q); blob_u(r.acc[0]); blob_u(r.hot[0].size()); for(auto&h:r.hot[0]){ blob_u(h.at); blob_u(h.kind); } });
    BlobReader b; so[i].r=get_res(b); so[i].acc=b.u(); size_t k=(size_t)b.u(); for(size_t j=0;j<k;j++){ u64 a=b.u(); so[i].hot.push_back({a,(int)b.u()}); } if(!so[i].r.o.ret()) allret=false; }
  if(!allret){ probe("a caller stops alone"); return; } fs_wipe();
  life([&]{ apply_env(p,99); step_limit(60000000); Share sh; std::vector<std::unique_ptr<Ctx>> x; std::vector<std::function<void()>> bodies; for(int i=0;i<n;i++) x.emplace_back(new Ctx(sp[i],1,7,pre(i),&sh)); for(int i=0;i<n;i++) bodies.push_back(x[i]->call); SchedCfg c; for(auto&g:sh.regs) c.watch.push_back({(uintptr_t)g.p,(uintptr_t)g.p+g.n}); c.first=(int)p.e("first"); c.quantum=(u64)std::max<i64>(0,p.e("quantum")); c.qseed=(u64)p.e("qseed");
    for(auto&s:sw){ SwitchPt w; w.fiber=(int)((u64)s.g(0)%n); w.to=(int)((u64)s.g(3)%n); int k=(int)s.g(1); const Solo&o=so[w.fiber]; if(k==0) w.at=o.acc*(u64)std::min<i64>(1000000,std::max<i64>(0,s.g(2)))/1000000; else if(o.hot.empty()) continue; else { w.at=o.hot[(u64)s.g(2)%o.hot.size()].at+(k==2); probe("switch at static data or shared store"); } c.sw.push_back(w); }
    rand_config((u64)p.e("qseed"),0); SchedResult r; g_where=ops()[sp[0].op].name; std::string names; for(int i=0;i<n;i++) names+=(i?" + ":"")+std::string(ops()[sp[i].op].name); tracef("callers: %s",names.c_str()); sched_run(bodies,c,r);
    for(int i=0;i<n;i++){ OpRes q=finish_op(*x[i],r.out[i]); char b[40]; snprintf(b,40,"op %s",ops()[sp[i].op].name); probe(b); if(!(q==so[i].r)) violate(std::string("C11:differs:")+ops()[sp[i].op].name,"%s gives another result with %d other caller(s) at work (%s): %s",ops()[sp[i].op].name,n-1,names.c_str(),diff_res(so[i].r,q).c_str()); }
    std::string ch=x[0]->changed(); if(!ch.empty()) violate("C11:shared-input-changed","a shared input changed under %s: %s",names.c_str(),ch.c_str());
    if(r.switches) probe("schedules with a switch"); }); }
extern const Prop PC11={"C11",gen_c11,run_c11,30000,1200000};
