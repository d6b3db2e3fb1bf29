#include "plan.h"
#include "sut_api.h"
#include "oracle.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <cmath>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
using namespace sim;
extern "C" double sim_wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::string slurp(const char*p){ std::ifstream f(p); std::stringstream s; s<<f.rdbuf(); return s.str(); }
static const char* oname(Outcome o){ return o==O_DONE?"done":o==O_CRASH?"crash":o==O_VIOL?"VIOLATION":"abandoned"; }
static bool same_kind(const Result&r,const std::string&k){ return r.out==O_VIOL&&r.kind==k; }
// ---- warm up: resolve symbols, fault in tables, so that every later run sees the same process state
static void warm(){ Plan p; p.prop="C01"; p.seed=1; StoreCfg c; c.nkeys=16; c.bs=128; p.stores.push_back(c); Era e; auto add=[&](int t,u32 k=0,u32 n=0){ Op o; o.t=t; o.k=k; o.n=n; o.id=p.next_id++; e.main.push_back(o); }; add(OP_CREATE); add(OP_OPEN); for(u32 k=0;k<12;k++) add(OP_INSERT,k,20); add(OP_FETCH,3); add(OP_CLOSE); add(OP_VERIFY); add(OP_VISIT); add(OP_RECOVER); add(OP_OPEN); add(OP_INSERT,13,50); add(OP_FETCH,13); add(OP_CLOSE); p.eras.push_back(e); p.sched.mode=0; p.sched.mem_mean=50; for(int i=0;i<3;i++) run_plan(p); { Plan q=p; q.flags|=PF_CLI; for(int i=0;i<40;i++){ Op o; o.t= i%5==0?OP_VERIFY:i%5==1?OP_VISIT:i%5==2?OP_RECOVER:OP_CLI; o.a=i%5==3?i:0; o.id=q.next_id++; q.eras[0].main.push_back(o); } for(int i=0;i<3;i++) run_plan(q); } g_stats.n.clear(); }
// ---- minimisation ----
struct Min { std::string kind; double until; u64 runs=0; Plan best; Result bestr;
  bool test(Plan p){ if(sim_wall()>until) return false; runs++; Stats s=g_stats; Result r=run_plan(p); g_stats=s; if(!same_kind(r,kind)) return false; best=p; bestr=r; return true; }
  template<class G> void ddmin(size_t n,G rebuild){ // rebuild(keep flags)->Plan
    std::vector<char> keep(n,1); size_t chunk=n/2; if(!n) return; while(chunk>=1){ bool any=false; for(size_t i=0;i<n;i+=chunk){ std::vector<char> k=keep; bool ch=false; for(size_t j=i;j<std::min(n,i+chunk);j++) if(k[j]){ k[j]=0; ch=true; } if(!ch) continue; if(test(rebuild(k))){ keep=k; any=true; } if(sim_wall()>until) return; } if(!any||chunk==1){ if(chunk==1&&!any) break; } if(chunk>1) chunk/=2; else if(!any) break; } }
  void run(const Plan& p0,const Result& r0,double budget){ kind=r0.kind; until=sim_wall()+budget; best=p0; bestr=r0;
    // make the schedule explicit
    { Plan p=p0; p.sched.mode=3; p.lists=r0.rec; p.lists.resize(p.eras.size()+1); if(!test(p)) { until=std::max(until,sim_wall()+budget/2); } }
    for(int round=0;round<3;round++){ u64 before=size(best);
      // simple global reductions
      { Plan p=best; p.io.lat_base_us=p.io.lat_jit_us=p.io.sync_us=0; test(p);} { Plan p=best; p.io.eintr_ppm=0; test(p);} { Plan p=best; p.io.short_ppm=0; test(p);} { Plan p=best; p.io.chunk=0; test(p);} { Plan p=best; p.sched.spurious_ppm=0; test(p);} { Plan p=best; p.sched.stall_ppm=0; test(p);} { Plan p=best; p.sched.mode=2; p.lists.clear(); test(p);} 
      // later eras
      while(best.eras.size()>1){ Plan p=best; p.eras.pop_back(); if(p.lists.size()>p.eras.size()) p.lists.resize(p.eras.size()); if(!test(p)) break; }
      for(size_t e=0;e<best.eras.size();e++){
        { Plan b=best; size_t n=b.eras[e].faults.size(); ddmin(n,[&,b](const std::vector<char>&k){ Plan p=b; p.eras[e].faults.clear(); for(size_t i=0;i<n;i++) if(k[i]) p.eras[e].faults.push_back(b.eras[e].faults[i]); return p; }); }
        for(size_t t=0;t<best.eras[e].thr.size();t++){ { Plan p=best; p.eras[e].thr[t].clear(); if(test(p)) continue; } Plan b=best; size_t n=b.eras[e].thr[t].size(); ddmin(n,[&,b](const std::vector<char>&k){ Plan p=b; p.eras[e].thr[t].clear(); for(size_t i=0;i<n;i++) if(k[i]) p.eras[e].thr[t].push_back(b.eras[e].thr[t][i]); return p; }); }
        { Plan b=best; size_t n=b.eras[e].main.size(); ddmin(n,[&,b](const std::vector<char>&k){ Plan p=b; p.eras[e].main.clear(); for(size_t i=0;i<n;i++) if(k[i]) p.eras[e].main.push_back(b.eras[e].main[i]); return p; }); }
        if(best.eras[e].crash.trig){ Plan p=best; p.eras[e].crash.trig=0; test(p);} 
        if(best.sched.mode==3&&e<best.lists.size()){ Plan b=best; size_t n=b.lists[e].size(); ddmin(n,[&,b](const std::vector<char>&k){ Plan p=b; p.lists[e].clear(); for(size_t i=0;i<n;i++) if(k[i]) p.lists[e].push_back(b.lists[e][i]); return p; }); } }
      // smaller values
      { Plan p=best; for(auto&e:p.eras){ for(auto&o:e.main) if(o.t==OP_INSERT&&o.n>16) o.n=16; for(auto&t:e.thr) for(auto&o:t) if(o.t==OP_INSERT&&o.n>16) o.n=16; } test(p); }
      if(size(best)>=before||sim_wall()>until) break; } }
  static u64 size(const Plan&p){ u64 n=0; for(auto&e:p.eras){ n+=10+e.main.size()+e.faults.size()+(e.crash.trig?1:0); for(auto&t:e.thr) n+=1+t.size(); } for(auto&l:p.lists) n+=l.size(); return n; } };
static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
// A run counts as non-trivial for a property when one of these counters moved during it (the property's oracle had something to decide).
static const std::vector<const char*>& nontrivial_counters(const std::string& p){ static const std::map<std::string,std::vector<const char*>> M={
  {"C01",{"op.insert_exists","op.fetch_found"}},{"C02",{"recovered_checks","crash."}},{"C03",{"recovered_checks"}},{"C04",{"recovered_checks"}},{"C05",{"probe.sticky_error_seen","op.close_error","op.insert_error","fault."}},{"C06",{"fault.EINTR","fault.short_transfer"}},{"C07",{"fault.read."}},{"C08",{"recovered_checks"}},{"C09",{"probe.op_during_stall"}},{"C10",{"op.ctx_stop","op.close_ok"}},{"C11",{"op.fetch_found","op.insert_ok"}},{"C12",{"op.rekey_ok","op.rekey_error","crash."}},{"C13",{"op.visit","probe.visit_of_damaged_file"}},{"C14",{"op.verify","damaged_verifications"}},{"C15",{"op.insert_ok","op.rekey_ok"}},{"C16",{"op.create_ok","op.create_error","op.create_refused"}},{"C17",{"refusals_required"}},{"C18",{"decoded_checks"}},{"C19",{"leak_checks"}},{"C20",{"fault.alloc"}},{"C21",{"fault.","recovered_checks","op.close_ok"}},{"C22",{"probe.throttled_inserts","probe.throttle_decided"}},{"C23",{"probe.progress_reports"}},{"C24",{"op.cli"}} };
  static const std::vector<const char*> none; auto i=M.find(p); return i==M.end()?none:i->second; }
static u64 nt_sum(const std::vector<const char*>&v){ u64 s=0; for(auto*k:v){ size_t n=strlen(k); if(k[n-1]=='.'){ for(auto i=g_stats.n.lower_bound(k);i!=g_stats.n.end()&&!i->first.compare(0,n,k);++i) s+=i->second; } else { auto i=g_stats.n.find(k); if(i!=g_stats.n.end()) s+=i->second; } } return s; }
int main(int argc,char**argv){
  setvbuf(stdout,nullptr,_IOLBF,0); install_handlers(); sut_snapshot(); std::string cmd=argc>1?argv[1]:"";
  if(cmd=="gen"){ Plan p=gen_plan(argv[2],strtoull(argv[3],0,10)); fputs(plan_text(p).c_str(),stdout); return 0; }
  warm();
  if(cmd=="run"){ Plan p; bool tr=false; for(int i=2;i<argc;i++) if(!strcmp(argv[i],"-v")) tr=true; if(!strcmp(argv[2],"-f")){ if(!plan_parse(slurp(argv[3]),p)){ fprintf(stderr,"bad plan\n"); return 2; } } else p=gen_plan(argv[2],strtoull(argv[3],0,10)); if(tr) g_trace=stdout; Result r=run_plan(p,tr); printf("outcome=%s kind=%s hash=%016llx steps=%llu simtime=%.6f switches=%llu msg=%s\n",oname(r.out),r.kind.c_str(),(unsigned long long)r.hash,(unsigned long long)r.steps,r.simtime/1e9,(unsigned long long)r.switches,r.msg.c_str()); if(tr) for(auto&kv:g_stats.n) printf("  %s %llu\n",kv.first.c_str(),(unsigned long long)kv.second); return r.out==O_VIOL?1:0; }
  if(cmd=="min"){ // min PROP SEED OUT BUDGET
    Plan p=gen_plan(argv[2],strtoull(argv[3],0,10)); Result r=run_plan(p); if(r.out!=O_VIOL){ printf("no violation\n"); return 0; } Min m; m.run(p,r,argc>5?atof(argv[5]):20); Result a=run_plan(m.best),b=run_plan(m.best); bool rep=a.out==O_VIOL&&a.kind==r.kind&&a.hash==b.hash; if(!rep){ m.best=p; a=r; }
    std::ofstream f(argv[4]); f<<"# property "<<p.prop<<" kind "<<a.kind<<"\n# "<<a.msg<<"\n# seed "<<p.seed<<" hash "<<fmt("%016llx",(unsigned long long)a.hash)<<"\n# minimised with "<<m.runs<<" runs\n"<<plan_text(m.best); f.close(); printf("MIN kind=%s hash=%016llx size=%llu runs=%llu repeat=%d msg=%s\n",a.kind.c_str(),(unsigned long long)a.hash,(unsigned long long)Min::size(m.best),(unsigned long long)m.runs,(int)rep,a.msg.c_str()); return 1; }
  if(cmd=="batch"){ // batch PROP START STRIDE MAXRUNS SECONDS : prints a JSON summary; stops at the first violation of each new kind
    std::string prop=argv[2]; u64 s0=strtoull(argv[3],0,10),stride=strtoull(argv[4],0,10),maxr=strtoull(argv[5],0,10); double lim=atof(argv[6]); double t0=sim_wall(); std::unordered_set<u64> ilv,fsh; u64 runs=0,sim=0,steps=0,sw=0,det=0; std::map<std::string,std::pair<u64,std::string>> viol; std::map<std::string,u64> other; u64 seed=s0; double maxrun=0; u64 maxseed=0;
    bool dbg=getenv("SIM_DEBUG")!=nullptr; auto&ntc=nontrivial_counters(prop); u64 nontriv=0; std::vector<u64> hashes,samples; int mark=getenv("SIM_MARK")?open(getenv("SIM_MARK"),O_CREAT|O_RDWR|O_TRUNC,0644):-1;
    while(runs<maxr&&sim_wall()-t0<lim){ if(dbg){ fprintf(stderr,"seed %llu\n",(unsigned long long)seed); } if(mark>=0){ if(pwrite(mark,&seed,8,0)!=8) mark=-1; } u64 nt0=nt_sum(ntc); double r0=sim_wall(); Plan p=gen_plan(prop,seed); Result r=run_plan(p); double d=sim_wall()-r0; if(d>maxrun){ maxrun=d; maxseed=seed; } runs++; sim+=r.simtime; steps+=r.steps; sw+=r.switches; ilv.insert(r.ilv); fsh.insert(r.fshash); if(r.out!=O_LIMIT&&nt_sum(ntc)>nt0){ nontriv++; hashes.push_back(mix2(r.ilv,r.fshash)); if(samples.size()<3&&r.out==O_DONE) samples.push_back(seed); }
      if(runs%64==1){ Stats st=g_stats; Result q=run_plan(p); g_stats=st; det++; if(q.hash!=r.hash){ printf("{\"nondeterministic\":%llu}\n",(unsigned long long)seed); return 4; } }
      if(r.out==O_VIOL){ if(!viol.count(r.kind)){ viol[r.kind]={seed,r.msg}; printf("VIOL kind=%s seed=%llu hash=%016llx msg=%s\n",r.kind.c_str(),(unsigned long long)seed,(unsigned long long)r.hash,r.msg.c_str()); fflush(stdout);} g_stats.add("violating_runs"); if(getenv("SIM_STOP")) break; }
      if(r.out==O_LIMIT){ other[r.kind]++; if(dbg) fprintf(stderr,"  other %s %s\n",r.kind.c_str(),r.msg.c_str()); }
      seed+=stride; }
    if(getenv("SIM_HASHES")){ std::ofstream f(getenv("SIM_HASHES"),std::ios::binary); f.write((const char*)hashes.data(),hashes.size()*8); }
    printf("{\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s%llu",i?",":"",(unsigned long long)samples[i]); printf("],\"nontrivial\":%llu,",(unsigned long long)nontriv);
    printf("\"prop\":\"%s\",\"runs\":%llu,\"seconds\":%.3f,\"sim_ns\":%llu,\"steps\":%llu,\"switches\":%llu,\"ilv\":%zu,\"fs\":%zu,\"det\":%llu,\"maxrun\":%.3f,\"maxseed\":%llu,\"stats\":{",prop.c_str(),(unsigned long long)runs,sim_wall()-t0,(unsigned long long)sim,(unsigned long long)steps,(unsigned long long)sw,ilv.size(),fsh.size(),(unsigned long long)det,maxrun,(unsigned long long)maxseed); bool f=true; for(auto&kv:g_stats.n){ printf("%s\"%s\":%llu",f?"":",",kv.first.c_str(),(unsigned long long)kv.second); f=false; } printf("},\"other\":{"); f=true; for(auto&kv:other){ printf("%s\"%s\":%llu",f?"":",",jesc(kv.first).c_str(),(unsigned long long)kv.second); f=false; } printf("},\"viol\":{"); f=true; for(auto&kv:viol){ printf("%s\"%s\":[%llu,\"%s\"]",f?"":",",kv.first.c_str(),(unsigned long long)kv.second.first,jesc(kv.second.second).c_str()); f=false; } printf("}}\n"); return viol.empty()?0:1; }
  if(cmd=="hash"){ // hash PROP START N : run hashes, to compare across processes
    u64 s=strtoull(argv[3],0,10),n=strtoull(argv[4],0,10); for(u64 i=0;i<n;i++){ Result r=run_plan(gen_plan(argv[2],s+i)); printf("%llu %016llx %s\n",(unsigned long long)(s+i),(unsigned long long)r.hash,oname(r.out)); } return 0; }
  fprintf(stderr,"usage: simnudb gen|run|min|batch|hash ...\n"); return 2; }
