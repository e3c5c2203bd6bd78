// Driver: plans, runs, parallel seeded search, minimisation, replay.
#include "sim.hpp"
#include <unistd.h>
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
void rt_init(); static bool g_verbose=false; bool verbose(){ return g_verbose; }
std::string Plan::text() const { std::ostringstream o; o<<"prop "<<prop<<"\nseed "<<seed<<"\n"; for(auto&k:env) o<<"env "<<k.first<<" "<<k.second<<"\n"; for(auto&s:steps){ o<<"step "<<s.op; for(i64 x:s.a) o<<" "<<x; o<<"\n"; } return o.str(); }
bool Plan::parse(const std::string&t,Plan&p){ std::istringstream in(t); std::string l; p=Plan(); while(std::getline(in,l)){ if(l.empty()||l[0]=='#') continue; std::istringstream s(l); std::string k; s>>k; if(k=="prop") s>>p.prop; else if(k=="seed") s>>p.seed; else if(k=="env"){ std::string n; i64 v; s>>n>>v; p.env[n]=v; } else if(k=="step"){ Step st; s>>st.op; i64 x; while(s>>x) st.a.push_back(x); p.steps.push_back(st);} else return false; } return !p.prop.empty(); }
static const Prop* find_prop(const std::string&n){ for(int i=0;i<NPROPS;i++) if(n==PROPS[i].id) return &PROPS[i]; fprintf(stderr,"unknown property %s\n",n.c_str()); exit(2); }
struct RunResult { bool viol=false; std::string cls,msg; u64 hash=0; bool error=false; };
static RunResult run_plan(const Prop*pr,const Plan&p){
  S->hash=0x1234; S->nevents=0; S->trace_len=0; S->covprev=0; fs_wipe(); fs_disarm(); fs_reset_counters(); blob_reset();
  RunResult r; try { pr->run(p); } catch(Violation&v){ r.viol=true; r.cls=v.cls; r.msg=v.msg; } catch(std::string&e){ r.error=true; r.msg=e; }
  r.hash=S->hash; return r;
}
static u64 run_seed(u64 seed,const std::string&prop,u64 i){ u64 h=0; for(char c:prop) h=mix64(h^(u8)c); return mix64(mix64(seed*1000003ull+i)^h)>>1; }
u64 g_run_index=0;
static Plan gen_run(const Prop*pr,u64 seed,u64 i,int tier){ g_run_index=i; return pr->gen(run_seed(seed,pr->id,i),tier); }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Global { std::atomic<u64> next,done,lowest,xorhash,known,nontrivial; std::atomic<int> error; char errmsg[400]; std::atomic<u64> table[1<<20]; std::atomic<u64> distinct; struct V{ std::atomic<int> set; u64 idx; char cls[96]; char msg[1400]; } v[64]; u64 known_idx[64]; std::atomic<u64> known_n; char known_cls[16][96]; std::atomic<u64> known_cnt[16]; char known_msg[16][300]; };
static Shm* new_shm(){ void*p=mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("shm"); exit(2);} return (Shm*)p; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static Plan minimise(const Prop*pr,Plan p,const std::string&cls,double budget,u64&evals){
  double t0=now(); evals=0;
  auto bad=[&](const Plan&q){ if(now()-t0>budget||evals>6000) return false; evals++; RunResult r=run_plan(pr,q); return r.viol&&r.cls==cls; };
  bool progress=true; int rounds=0;
  while(progress&&now()-t0<budget&&rounds++<12){ progress=false;
    for(size_t chunk=std::max<size_t>(1,p.steps.size()/2);;chunk/=2){ for(size_t i=0;i+chunk<=p.steps.size();){ Plan q=p; q.steps.erase(q.steps.begin()+i,q.steps.begin()+i+chunk); if(bad(q)){ p=q; progress=true; } else i+=chunk; } if(chunk<=1) break; }
    for(auto&k:std::map<std::string,i64>(p.env)){ if(k.first.compare(0,4,"keep")==0) continue; for(i64 v:{(i64)0,(i64)1,k.second/2}) if(v!=p.e(k.first.c_str())&&std::llabs(v)<std::llabs(p.e(k.first.c_str()))){ Plan q=p; q.env[k.first]=v; if(bad(q)){ p=q; progress=true; break; } } }
    for(size_t i=0;i<p.steps.size();i++) for(size_t j=0;j<p.steps[i].a.size();j++){ i64 c=p.steps[i].a[j]; for(i64 v:{(i64)0,(i64)1,(i64)2,c/2,c-1,c>0?c%16:0}) if(std::llabs(v)<std::llabs(c)&&v!=p.steps[i].a[j]&&std::llabs(v)<std::llabs(p.steps[i].a[j])){ Plan q=p; q.steps[i].a[j]=v; if(bad(q)){ p=q; progress=true; break; } } }
  }
  return p;
}
static std::string self_exe(){ char b[4096]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-1); b[n>0?n:0]=0; return b; }
int main(int argc,char**argv){
  // fixed addresses where the system allows it; nothing below depends on them
  if(!getenv("SIM_NOASLR")){ int pe=personality(0xffffffff); if(pe!=-1&&!(pe&ADDR_NO_RANDOMIZE)&&personality(pe|ADDR_NO_RANDOMIZE)!=-1){ setenv("SIM_NOASLR","1",1); execv("/proc/self/exe",argv); } }
  std::map<std::string,std::string> o; std::vector<std::string> pos; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a.compare(0,2,"--")==0){ std::string v="1"; if(i+1<argc&&strncmp(argv[i+1],"--",2)) v=argv[++i]; o[a.substr(2)]=v; } }
  auto num=[&](const char*k,u64 d){ return o.count(k)? strtoull(o[k].c_str(),nullptr,10):d; };
  g_verbose=o.count("verbose"); S=new_shm(); rt_init(); int out=dup(1);
  if(!g_verbose){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!o.count("stderr")) { dup2(dn,2);} }
  auto say=[&](const std::string&s){ std::string l=s+"\n"; if(write(out,l.data(),l.size())<0){} };
  if(o.count("bench")){ double t=now(); for(int i=0;i<1000;i++) life([]{}); double t1=now(); for(int i=0;i<1000;i++) life([]{ lib([]{}); }); double t2=now(); for(int i=0;i<1000;i++) life([]{ for(int k=0;k<10;k++) lib([]{}); }); double t3=now(); for(int i=0;i<1000;i++) life([]{ for(int k=0;k<10;k++) sim_malloc(1000); }); double t4=now(); char b[200]; snprintf(b,200,"empty life %.3f ms, one call %.3f ms, ten calls %.3f, ten mallocs %.3f ms",t1-t,t2-t1,t3-t2,t4-t3); say(b); return 0; }
  if(o.count("replay")){ std::ifstream f(o["replay"]); std::stringstream ss; ss<<f.rdbuf(); Plan p; if(!Plan::parse(ss.str(),p)){ say("cannot parse replay file"); return 2; }
    S->trace_on=o.count("trace"); RunResult r=run_plan(find_prop(p.prop),p); if(S->trace_on) say(std::string(S->trace,S->trace_len)); if(r.error){ say("ERROR "+r.msg); return 2; }
    char b[64]; snprintf(b,64,"%016llx",(unsigned long long)r.hash); say(std::string(r.viol?"VIOLATED ":"OK ")+b+" "+r.cls); if(r.viol) say(r.msg); return r.viol?1:0; }
  const Prop*pr=find_prop(o["prop"]); u64 seed=num("seed",1); int tier=o["tier"]=="thorough"; u64 runs=num("runs",tier?pr->thorough:pr->quick); int W=(int)num("workers",8); double cap=(double)num("cap",tier?3000:400); u64 from=num("from",0);
  if(o.count("gen")){ say(gen_run(pr,seed,num("gen",0),tier).text()); return 0; }
  if(o.count("one")){ Plan p=gen_run(pr,seed,num("one",0),tier); S->trace_on=1; RunResult r=run_plan(pr,p); say(p.text()); say(std::string(S->trace,S->trace_len)); say(r.viol?"VIOLATED "+r.cls+"\n"+r.msg: r.error? "ERROR "+r.msg:"OK"); return r.viol; }
  std::vector<std::string> known; { std::ifstream f(o.count("known")?o["known"]:"/dev/null"); std::string l; while(std::getline(f,l)){ std::istringstream s(l); std::string a,b,c; s>>a>>b>>c; if(a=="known:"&&b==std::string("property=")+pr->id&&c.compare(0,4,"sig=")==0&&known.size()<16) known.push_back(c.substr(4)); } }
  Global*G=(Global*)mmap(nullptr,sizeof(Global),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); G->next=from; G->lowest=~0ull;
  u64 end=from+runs; double t0=now(); bool hashes=o.count("hashes"); u64* hl=nullptr; if(hashes) hl=(u64*)mmap(nullptr,runs*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  std::vector<Shm*> shms; std::vector<pid_t> pids;
  for(int w=0;w<W;w++){ Shm*sh=new_shm(); shms.push_back(sh); pid_t pid=fork(); if(pid==0){ S=sh;
      for(;;){ u64 i=G->next++; if(i>=end||i>G->lowest||G->error||now()-t0>cap) break; Plan p=gen_run(pr,seed,i,tier); u64 f0=0; for(u64 x:S->faults) f0+=x; RunResult r=run_plan(pr,p);
        if(r.error){ if(!G->error.exchange(1)) snprintf(G->errmsg,400,"run %llu: %s",(unsigned long long)i,r.msg.c_str()); break; }
        G->xorhash^=mix64(r.hash+i*7919); if(hl) hl[i-from]=r.hash; u64 f1=0; for(u64 x:S->faults) f1+=x; if(f1>f0) G->nontrivial++;
        if(f1>f0){ u64 k=r.hash|1; for(u64 h=k,n=0;n<64;n++,h++){ u64 e=0; auto&sl=G->table[h&((1<<20)-1)]; if(sl.compare_exchange_strong(e,k)){ G->distinct++; break;} if(e==k) break; } }
        G->done++;
        if(r.viol){ int kn=-1; for(size_t k=0;k<known.size();k++) if(known[k]==r.cls) kn=(int)k; if(kn>=0){ G->known_cnt[kn]++; snprintf(G->known_msg[kn],300,"%s",r.msg.c_str()); continue; }
          auto&v=G->v[w]; if(!v.set||i<v.idx){ v.idx=i; snprintf(v.cls,96,"%s",r.cls.c_str()); snprintf(v.msg,1400,"%s",r.msg.c_str()); v.set=1; } u64 lo=G->lowest; while(i<lo&&!G->lowest.compare_exchange_weak(lo,i)){} } }
      _exit(0); } pids.push_back(pid); }
  for(pid_t p:pids){ int st; waitpid(p,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)&&!G->error){ G->error=1; snprintf(G->errmsg,400,"worker died, status %x",st); } }
  double wall=now()-t0;
  // aggregate
  u64 faults[F_N]={0}; std::map<std::string,u64> probes; u64 steps=0,simt=0,lives=0,ops=0,acc=0,sw=0; u64 cov=0; std::vector<u8> cv(COVN,0);
  for(Shm*s:shms){ for(int i=0;i<F_N;i++) faults[i]+=s->faults[i]; for(int i=0;i<s->nprobes;i++) probes[s->probe_names[i]]+=s->probes[i]; steps+=s->steps; simt+=s->simtime_us; lives+=s->lives; ops+=s->ops; acc+=s->accesses; sw+=s->switches; for(int i=0;i<COVN;i++) cv[i]|=s->cov[i]; } for(u8 c:cv) cov+=c;
  std::ostringstream j; j<<"{\"property\":\""<<pr->id<<"\",\"seed\":"<<seed<<",\"runs\":"<<(u64)G->done<<",\"wall_s\":"<<wall<<",\"nontrivial\":"<<(u64)G->nontrivial<<",\"distinct\":"<<(u64)G->distinct<<",\"steps\":"<<steps<<",\"sim_time_us\":"<<simt<<",\"lives\":"<<lives<<",\"ops\":"<<ops<<",\"accesses\":"<<acc<<",\"switches\":"<<sw<<",\"coverage_edges\":"<<cov<<",\"workers\":"<<W<<",\"total_hash\":\""; { char b[32]; snprintf(b,32,"%016llx",(unsigned long long)(u64)G->xorhash); j<<b; } j<<"\",\"faults\":{"; bool first=true; for(int i=0;i<F_N;i++) if(faults[i]){ j<<(first?"":",")<<"\""<<FAULT_NAMES[i]<<"\":"<<faults[i]; first=false; } j<<"},\"probes\":{"; first=true; for(auto&k:probes){ j<<(first?"":",")<<"\""<<jesc(k.first)<<"\":"<<k.second; first=false; } j<<"},\"known\":["; first=true; for(size_t k=0;k<known.size();k++){ j<<(first?"":",")<<"{\"sig\":\""<<jesc(known[k])<<"\",\"count\":"<<(u64)G->known_cnt[k]<<",\"msg\":\""<<jesc(G->known_msg[k])<<"\"}"; first=false; }
  j<<"],\"samples\":["; for(int i=0;i<3;i++){ Plan p=gen_run(pr,seed,i,tier); j<<(i?",":"")<<"\""<<jesc(p.text())<<"\""; } j<<"]";
  if(hashes) for(u64 i=0;i<runs;i++){ char b[48]; snprintf(b,48,"%llu %016llx",(unsigned long long)(from+i),(unsigned long long)hl[i]); say(b); }
  int rc=0;
  if(G->error){ say(std::string("ERROR ")+G->errmsg); j<<",\"error\":\""<<jesc(G->errmsg)<<"\""; rc=2; }
  else if(G->lowest!=~0ull&&!o.count("nomin")){
    u64 idx=G->lowest; std::string cls; for(auto&v:G->v) if(v.set&&v.idx==idx) cls=v.cls;
    Plan p=gen_run(pr,seed,idx,tier); RunResult a=run_plan(pr,p),b=run_plan(pr,p);
    if(!a.viol||a.cls!=cls||b.cls!=cls){ say("ERROR run "+std::to_string(idx)+" ("+cls+") does not repeat: "+a.cls+" / "+b.cls); rc=2; }
    else { bool exact=a.hash==b.hash; u64 evals; Plan m=minimise(pr,p,cls,tier?180:60,evals); S->trace_on=1; RunResult c=run_plan(pr,m); std::string tr(S->trace,S->trace_len); S->trace_on=0; if(!c.viol||c.cls!=cls){ m=p; c=run_plan(pr,m); }
      std::string path=o.count("replayfile")?o["replayfile"]:std::string("/tmp/")+pr->id+".replay"; { std::ofstream f(path); f<<"# property "<<pr->id<<" violated: "<<c.cls<<"\n# "<<c.msg<<"\n# VERIF_SEED="<<seed<<" run "<<idx<<", minimised in "<<evals<<" evaluations from "<<p.steps.size()<<" to "<<m.steps.size()<<" steps\n"; char hb[32]; snprintf(hb,32,"%016llx",(unsigned long long)c.hash); f<<"# history hash "<<hb<<"\n"<<m.text()<<"# trace of the minimised run\n"; std::istringstream ts(tr); std::string l; while(std::getline(ts,l)) f<<"#   "<<l<<"\n"; }
      // fresh process
      int pfd[2]; if(pipe(pfd)) return 2; pid_t pid=fork(); if(pid==0){ dup2(pfd[1],1); std::string ex=self_exe(); execl(ex.c_str(),ex.c_str(),"--replay",path.c_str(),(char*)nullptr); _exit(2);} close(pfd[1]); std::string got; char bb[4096]; ssize_t n; while((n=read(pfd[0],bb,sizeof bb))>0) got.append(bb,n); int st; waitpid(pid,&st,0);
      char hb[32]; snprintf(hb,32,"%016llx",(unsigned long long)c.hash); std::string want=std::string("VIOLATED ")+hb+" "+c.cls;
      if(exact&&got.compare(0,want.size(),want)!=0&&got.compare(0,9,"VIOLATED ")==0&&got.find(" "+c.cls+"\n")!=std::string::npos) exact=false;
      if(!exact) say("note: the broken code read data outside the simulated memory, so the history hash of this violation is not exact; its class repeats");
      if(exact&&got.compare(0,want.size(),want)!=0){ say("ERROR replay in a fresh process differs: wanted "+want+", got "+got); rc=2; }
      else { say("violation "+c.cls+": "+c.msg); say("run "+std::to_string(idx)+", "+std::to_string(m.steps.size())+" steps after minimisation"); j<<",\"violation\":{\"class\":\""<<jesc(c.cls)<<"\",\"msg\":\""<<jesc(c.msg)<<"\",\"replay\":\""<<jesc(path)<<"\",\"run\":"<<idx<<"}"; rc=1; } } }
  else if(G->lowest!=~0ull){ for(auto&v:G->v) if(v.set) say(std::to_string(v.idx)+" "+v.cls+" "+v.msg); rc=1; }
  j<<"}"; if(o.count("json")){ std::ofstream f(o["json"]); f<<j.str()<<"\n"; } else say(j.str());
  return rc;
}
