#include "plan.h"
#include <sstream>
#include <cstdio>
#include <cstdlib>
namespace sim {
const char* const op_name[]={"create","open","close","insert","fetch","flush","burst","sleep","ctxstart","ctxstop","ctxrun","recover","verify","rekey","visit","spawn","join","audit","crash","destroy","scan","damage","create2","encode","props","reuse","bgalloc","cli"};
const char* const ph_name[]={"bg","create","open","client","close","recover","rekey","verify","visit","flush","scan","ctx","cli"};
static void put_op(std::string&o,const char*w,const Op&p){ o+=fmt("%s %s s=%d k=%u n=%u a=%llu b=%llu c=%llu id=%u af=%d afn=%u\n",w,op_name[p.t],p.s,p.k,p.n,(unsigned long long)p.a,(unsigned long long)p.b,(unsigned long long)p.c,p.id,p.af,p.afn); }
std::string plan_text(const Plan&p){ std::string o; typedef unsigned long long U;
  o+=fmt("simnudb-plan 1\nprop %s\nseed %llu\nflags %llu\nlimits steps=%llu time=%llu bound=%llu\n",p.prop.c_str(),(U)p.seed,(U)p.flags,(U)p.step_limit,(U)p.time_limit_s,(U)p.bound_ns);
  o+=fmt("io seed=%llu base=%u jit=%u sync=%u eintr=%u short=%u chunk=%u cap=%llu\n",(U)p.io.seed,p.io.lat_base_us,p.io.lat_jit_us,p.io.sync_us,p.io.eintr_ppm,p.io.short_ppm,p.io.chunk,(U)p.io.disk_cap);
  const SchedCfg&s=p.sched; o+=fmt("sched mode=%d seed=%llu mem=%u sync=%u depth=%u len=%u spur=%u stall=%u\n",s.mode,(U)s.seed,s.mem_mean,s.sync_pct,s.pct_depth,s.pct_len,s.spurious_ppm,s.stall_ppm);
  for(auto&c:p.stores) o+=fmt("store ks=%u bs=%u nkeys=%u lf=%u appnum=%llu uid=%llu salt=%llu hasher=%d gap=%llu\n",c.ks,c.bs,c.nkeys,c.lf,(U)c.appnum,(U)c.uid,(U)c.salt,c.hasher,(U)c.gap);
  for(size_t e=0;e<p.eras.size();e++){ auto&E=p.eras[e]; o+=fmt("era ctx=%d\n",E.ctx);
    for(auto&f:E.faults) o+=fmt("fault op=%d roles=%d store=%d phase=%d nth=%u count=%u act=%d err=%d arg=%llu\n",f.op,f.roles,f.store,f.phase,f.nth,f.count,f.act,f.err,(U)f.arg);
    if(E.crash.trig) o+=fmt("crash mode=%d phase=%d trig=%d at=%llu seed=%llu style=%d\n",E.crash.mode,E.crash.phase,E.crash.trig,(U)E.crash.at,(U)E.crash.seed,E.crash.style);
    for(auto&x:E.main) put_op(o,"m",x);
    for(size_t t=0;t<E.thr.size();t++){ o+="thread\n"; for(auto&x:E.thr[t]) put_op(o,"t",x); }
    if(e<p.lists.size()&&p.sched.mode==3){ o+="schedule"; for(auto&x:p.lists[e]) o+=fmt(" %llu:%u",(U)x.first,x.second); o+="\n"; } }
  o+="end\n"; return o; }
static u64 kv(const std::map<std::string,std::string>&m,const char*k,u64 d=0){ auto i=m.find(k); return i==m.end()?d:(i->second.size()&&i->second[0]=='-'?(u64)strtoll(i->second.c_str(),0,10):strtoull(i->second.c_str(),0,10)); }
bool plan_parse(const std::string&t,Plan&p){ std::istringstream in(t); std::string l; bool ok=false; p=Plan();
  while(std::getline(in,l)){ std::istringstream ls(l); std::string w; ls>>w; if(w.empty()||w[0]=='#') continue; if(w=="end"){ ok=true; break; }
    if(w=="simnudb-plan") continue; if(w=="prop"){ ls>>p.prop; continue;} if(w=="seed"){ ls>>p.seed; continue;} if(w=="flags"){ ls>>p.flags; continue; }
    if(w=="thread"){ p.eras.back().thr.emplace_back(); continue; }
    if(w=="schedule"){ std::vector<std::pair<u64,u32>> v; std::string x; while(ls>>x){ size_t c=x.find(':'); v.push_back({strtoull(x.c_str(),0,10),(u32)strtoul(x.c_str()+c+1,0,10)}); } p.lists.resize(p.eras.size()); p.lists.back()=v; continue; }
    std::string opn; if(w=="m"||w=="t") ls>>opn; std::map<std::string,std::string> m; std::string x; while(ls>>x){ size_t c=x.find('='); if(c!=std::string::npos) m[x.substr(0,c)]=x.substr(c+1); }
    if(w=="limits"){ p.step_limit=kv(m,"steps"); p.time_limit_s=kv(m,"time"); p.bound_ns=kv(m,"bound"); }
    else if(w=="io"){ p.io.seed=kv(m,"seed"); p.io.lat_base_us=kv(m,"base"); p.io.lat_jit_us=kv(m,"jit"); p.io.sync_us=kv(m,"sync"); p.io.eintr_ppm=kv(m,"eintr"); p.io.short_ppm=kv(m,"short"); p.io.chunk=kv(m,"chunk"); p.io.disk_cap=kv(m,"cap"); }
    else if(w=="sched"){ auto&s=p.sched; s.mode=kv(m,"mode"); s.seed=kv(m,"seed"); s.mem_mean=kv(m,"mem"); s.sync_pct=kv(m,"sync"); s.pct_depth=kv(m,"depth"); s.pct_len=kv(m,"len"); s.spurious_ppm=kv(m,"spur"); s.stall_ppm=kv(m,"stall"); }
    else if(w=="store"){ StoreCfg c; c.ks=kv(m,"ks"); c.bs=kv(m,"bs"); c.nkeys=kv(m,"nkeys"); c.lf=kv(m,"lf"); c.appnum=kv(m,"appnum"); c.uid=kv(m,"uid"); c.salt=kv(m,"salt"); c.hasher=kv(m,"hasher"); c.gap=kv(m,"gap"); p.stores.push_back(c); }
    else if(w=="era"){ Era e; e.ctx=kv(m,"ctx"); p.eras.push_back(e); }
    else if(w=="fault"){ Fault f; f.op=kv(m,"op"); f.roles=kv(m,"roles"); f.store=(int)kv(m,"store"); f.phase=(int)kv(m,"phase"); f.nth=kv(m,"nth"); f.count=kv(m,"count"); f.act=kv(m,"act"); f.err=kv(m,"err"); f.arg=kv(m,"arg"); p.eras.back().faults.push_back(f); }
    else if(w=="crash"){ auto&c=p.eras.back().crash; c.mode=kv(m,"mode"); c.phase=(int)kv(m,"phase"); c.trig=kv(m,"trig"); c.at=kv(m,"at"); c.seed=kv(m,"seed"); c.style=kv(m,"style"); }
    else if(w=="m"||w=="t"){ Op o; o.t=-1; for(int i=0;i<OP_NOPS;i++) if(opn==op_name[i]) o.t=i; if(o.t<0) return false; o.s=kv(m,"s"); o.k=kv(m,"k"); o.n=kv(m,"n"); o.a=kv(m,"a"); o.b=kv(m,"b"); o.c=kv(m,"c"); o.id=kv(m,"id"); o.af=(int)kv(m,"af",(u64)-1); o.afn=kv(m,"afn",1); if(w=="m") p.eras.back().main.push_back(o); else p.eras.back().thr.back().push_back(o); }
    else return false; }
  return ok; }
}
