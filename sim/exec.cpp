// Plan executor: runs the library under the simulator, keeps the reference model and checks the oracles.
#include "plan.h"
#include "oracle.h"
#include "sut_api.h"
#include <algorithm>
#include <iostream>
#include <streambuf>
#include <set>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
extern "C" void _exit(int) __attribute__((noreturn));
namespace sim {
extern u64 g_rnd_seed;
bool kind_relevant(const std::string&,const std::string&);
struct PlanFail { std::string kind,msg; }; struct PlanAbandon {};
static const u64 SEC=1000000000ull;
enum { R_PEND=0,R_OK=1,R_EXISTS=2,R_ERR=3, F_FOUND=1,F_NOTFOUND=2,F_ERR=3 };
struct Att { u32 op,k,n; u64 st,en,ts,te; int res; };
struct Fet { u32 k; u64 st,en; int res; u32 op; };
struct Sess { bool active=false; std::map<u32,u32> start; std::vector<Att> a; std::vector<Fet> f; u64 err_open=0, open_seq=0, open_time=0; u64 sticky_seq=0; sut_err sticky_e{}; bool bgalloc=false; size_t settled=0; bool burst_changed=false; std::vector<std::pair<u64,std::string>> unthrottled; void clear(){ *this=Sess(); } };
enum SSt { ST_CLOSED, ST_OPENING, ST_OPEN, ST_CLOSING };
struct StoreM {
  StoreCfg c; std::string dp,kp,lp; bool ref_kill=false, exist=false, uncertain=false, rekey=false, creating=false, legacy_spills=false, has_ref=false, lost_session=false;
  std::map<u32,u32> base,durable,ref; Sess ses,unc; void* h=nullptr; void* own=nullptr; SSt st=ST_CLOSED; int users=0; std::vector<Fiber*> waitq; Bytes pre_dat; u64 pend_committed=0; u64 close_dirty=0; bool relaxed=false;
  u64 burst=4u<<20; VC lifevc,usevc; u64 unc_bytes=0; u64 opens=0; bool pfx_ok=true;
};
struct ThreadSt { Fiber* f=nullptr; bool server=false; bool in_run=false; u64 enter=0; bool done=false; };

// what the command line tool writes to its standard streams
struct CapBuf : std::streambuf { std::string s; bool raced=false; Fiber*f=nullptr;
  int overflow(int c) override { SimScope sc; if(c!=EOF) s.push_back((char)c); return 0; } std::streamsize xsputn(const char*p,std::streamsize n) override { SimScope sc; s.append(p,(size_t)n); return n; } };
static CapBuf g_cout,g_cerr;
struct Exec {
  const Plan& P; Fs fs; std::vector<StoreM> S; Result R; u32 next_id; std::map<u32,std::pair<u32,u32>> idinfo; // op id -> (key,size)
  std::map<u32,Bytes> valcache; void* ctx=nullptr; bool ctx_threads=false; u64 ctx_since=0; u64 nstart=0,nstop=0,starting=0,stopping=0; int era_no=0; const Era* era=nullptr; std::vector<ThreadSt> T; int flush_active=0; bool flush_overlap=false;
  u64 leak_blocks=0,leak_bytes=0,leak_id=0; bool leak_set=false; bool quiet_audit=false; std::string results; // results of operations, for twin comparison
  bool in_scan=false; int nclients=0; std::string hist; bool want_hist; u64 bg_alloc_before=0; bool bg_alloc_armed=false;
  Exec(const Plan&p,bool wh):P(p),want_hist(wh){}
  bool rel(const char*k){ return kind_relevant(P.prop,k); }
  void V(const char* kind,const std::string& msg){ 
    bool r=rel(kind); g_stats.add((std::string(r?"viol.":"ignored.")+kind).c_str());
    if(W&&W->cur){ if(r) violation(kind,msg); trace("(not this property) %s: %s",kind,msg.c_str()); R.kind=std::string("other:")+kind; R.msg=msg; end_world(O_LIMIT); }
    if(r) throw PlanFail{kind,msg}; R.kind=std::string("other:")+kind; R.msg=msg; throw PlanAbandon(); }
  // ---- data ----
  Bytes key(StoreM&s,u32 k){ Bytes b(s.c.ks); u64 sd=mix3(P.seed,s.c.salt,77); for(u32 i=0;i<s.c.ks;i++) b[i]=(u8)mix2(sd,i);
    if(s.c.ks==1){ b[0]=(u8)k; return b; } if(s.c.ks==2){ b[0]=(u8)k; b[1]=(u8)(k>>8); return b; }
    if(k>=700&&s.c.ks>3){ b[0]^=(u8)k; b[1]^=(u8)(1+(k>>8)); b[2]^=0x55; return b; }
    u32 pos[3]={0,s.c.ks/2,s.c.ks-1}; b[pos[k%3]]^=(u8)(1+k/3); return b; }
  const Bytes& val(u32 id,u32 n){ auto it=valcache.find(id); if(it!=valcache.end()) return it->second; Bytes b(n); Rng r(mix3(P.seed,id,0xDA7A)); for(u32 i=0;i<n;i+=8){ u64 x=r.next(); for(u32 j=0;j<8&&i+j<n;j++) b[i+j]=(u8)(x>>(8*j)); } if(n&&(id&7)==3) std::fill(b.begin(),b.end(),0); return valcache.emplace(id,std::move(b)).first->second; }
  const Bytes& val(u32 id){ return val(id,idinfo[id].second); }
  u64 gap(int i){ auto g=fs.gap.find(i); return g==fs.gap.end()?0:g->second; }
  int nstores(){ return (int)S.size(); }
  std::string kstr(StoreM&s,u32 k){ return fmt("store %d key %u",(int)(&s-&S[0]),k); }
  static std::string estr(const sut_err&e){ return fmt("%s (class %d value %d)",e.msg,e.cls,e.val); }
  // ---- calling the library ----
  u64 last_alloc_failed=0; 
  template<class F> sut_err call(int phase,const Op*o,F&&f,u64*fired=nullptr,u64*afail=nullptr){
    Fiber*me=cur(); int oph=me->phase; me->phase=phase; me->err_fired=0; sut_err e; memset(&e,0,sizeof e); u64 af0=g_alloc_failed; bool armed=false;
    if(o&&o->af>=0&&!g_alloc_arm){ alloc_arm(me->id,o->af,o->afn); armed=true; }
    { SutScope in; f(&e); }
    if(armed) alloc_disarm();
    me->phase=oph; if(fired) *fired=me->err_fired; if(afail) *afail=armed?g_alloc_failed-af0:0; logev(0xE0+phase,((u64)e.cls<<32)^(u64)e.val); trace("%s -> %s",ph_name[phase],e.cls?estr(e).c_str():"ok"); return e; }
  void* dup(const void*p,size_t n){ void*q; bool a=g_alloc_arm; g_alloc_arm=false; q=sut_alloc(n,1,true); g_alloc_arm=a; memcpy(q,p,n); return q; }
  void res(const Op&o,const sut_err&e,u64 extra=0){ if(P.flags&PF_EQUIV) results+=fmt("%s s%d k%u id%u -> %d/%d %llx\n",op_name[o.t],o.s,o.k,o.id,e.cls,e.val,(unsigned long long)extra); }
  int fds_of(int s){ int n=0; for(auto&kv:fs.fds) if(kv.second.first->store==s) n++; return n; }
  void check_fds(int s,const char*what){ if(fds_of(s)) V("leak.fd",fmt("%d file descriptors of store %d still open after %s",fds_of(s),s,what)); }
  void check_foreign(){ if(!fs.foreign.empty()) V("foreign",fs.foreign[0]); }
  void poll_dat(){ if(!fs.dat_violation.empty()){ std::string m=fs.dat_violation; fs.dat_violation.clear(); if(rel("dat.")) V("dat.modified",m); } check_foreign(); }
  bool legit_fault(u64 fired,u64 af){ return fired>0||af>0; }
  Bytes content(const std::string&p){ auto*c=fs.content(p); return c?*c:Bytes(); }
  // ---- model ----
  u32 identify(StoreM&s,u32 k,const Bytes&v,const Sess*x){ // op id whose value this is, 0 = none
    auto m=[&](u32 id){ auto it=idinfo.find(id); return it!=idinfo.end()&&it->second.first==k&&it->second.second==v.size()&&val(id)==v; };
    auto b=s.base.find(k); if(b!=s.base.end()&&m(b->second)) return b->second;
    if(x){ u32 any=0; for(auto&a:x->a) if(a.k==k&&m(a.op)){ if(a.res==R_OK) return a.op; if(a.res==R_PEND||!any) any=a.op; } return any; }
    return 0; }
  // linearizability of the session's finished operations (per key; keys are independent)
  void check_lin(StoreM&s,Sess&x,bool crashed){
    std::map<u32,std::vector<Att*>> A; std::map<u32,std::vector<Fet*>> F; for(auto&a:x.a) A[a.k].push_back(&a); for(auto&f:x.f) F[f.k].push_back(&f);
    std::set<u32> ks; for(auto&p:A) ks.insert(p.first); for(auto&p:F) ks.insert(p.first);
    for(u32 k:ks){ auto&va=A[k]; auto&vf=F[k]; auto bs=x.start.find(k);
      if(bs!=x.start.end()){ for(auto*a:va) if(a->res==R_OK) V("lin.double",kstr(s,k)+": insert of a key that was already stored succeeded"); for(auto*f:vf){ if(f->res==F_NOTFOUND) V("lin.lost",kstr(s,k)+": a stored key was not found"); if(f->res==F_FOUND&&f->op!=bs->second) V("lin.value",kstr(s,k)+": wrong value for a stored key"); } continue; }
      Att*w=nullptr; for(auto*a:va) if(a->res==R_OK){ if(w) V("lin.double",kstr(s,k)+": two inserts of one key succeeded"); w=a; }
      u64 lo=0,hi=UINT64_MAX; bool seen=false; u32 fop=0; for(auto*f:vf){ if(f->res==F_NOTFOUND) lo=std::max(lo,f->st); if(f->res==F_FOUND){ hi=std::min(hi,f->en); seen=true; if(fop&&fop!=f->op) V("lin.value",kstr(s,k)+": two fetches saw different values"); fop=f->op; } }
      for(auto*a:va) if(a->res==R_EXISTS){ hi=std::min(hi,a->en); seen=true; }
      if(!w&&crashed&&seen){ for(auto*a:va) if(a->res==R_PEND&&(!fop||a->op==fop)){ w=a; break; } }
      if(!w){ if(seen) V("lin.phantom",kstr(s,k)+": reported as present although no insert of it succeeded"); continue; }
      if(fop&&fop!=w->op) V("lin.value",kstr(s,k)+": fetched value is not the inserted one");
      lo=std::max(lo,w->st); if(w->res==R_OK) hi=std::min(hi,w->en);
      if(lo>=hi) V("lin.order",kstr(s,k)+": no point in time explains the results (not found after it was present)");
    } }
  void session_end(StoreM&s,bool certain,bool crashed){
    Sess&x=s.ses; if(!x.active) return; x.active=false; check_lin(s,x,crashed);
    if(certain){ for(auto&a:x.a) if(a.res==R_OK) s.base[a.k]=a.op; s.durable.clear(); s.uncertain=false; x.clear(); }
    else { bool faulted=fs.commit_err[(int)(&s-&S[0])]>x.err_open||x.bgalloc; if(crashed&&!faulted&&(P.flags&PF_BGBOUND)&&ctx_threads) for(auto&a:x.a) if(a.res==R_OK && std::max(a.te,std::max(ctx_since,x.open_time))+P.bound_ns<=W_now) s.durable[a.k]=a.op;
      s.uncertain=true; s.unc=x; x.clear(); } }
  u64 W_now=0;
  // what an opened database must hold after a session of unknown outcome
  void check_recovered(StoreM&s,const std::map<u32,u32>& got,const char*how){
    for(auto&b:s.base){ auto g=got.find(b.first); if(g==got.end()) V("dur.lost",kstr(s,b.first)+fmt(": committed value is gone after %s",how)); }
    for(auto&d:s.durable){ auto g=got.find(d.first); if(g==got.end()) V((P.flags&PF_BGBOUND)?"bg.lost":"dur.acked",kstr(s,d.first)+fmt(": value that had been acknowledged as stored is gone after %s",how)); if(g->second!=d.second) V("dur.acked",kstr(s,d.first)+": acknowledged value replaced"); }
    u64 maxst=0; u32 mk=0; std::map<u32,Att*> okk; for(auto&a:s.unc.a) if(a.res==R_OK) okk[a.k]=&a;
    for(auto&g:got){ if(s.base.count(g.first)) continue; Att*w=nullptr; auto o=okk.find(g.first); if(o!=okk.end()){ w=o->second; if(w->op!=g.second) V("rec.value",kstr(s,g.first)+fmt(": recovered value is not the one whose insert succeeded (%s)",how)); }
      else { for(auto&a:s.unc.a) if(a.op==g.second) w=&a; if(!w) V("rec.phantom",kstr(s,g.first)+fmt(": present after %s but never inserted",how)); if(w->res==R_EXISTS||(w->res==R_ERR)) V("rec.phantom",kstr(s,g.first)+fmt(": the value of a rejected insert is present after %s",how)); }
      if(w->st>maxst){ maxst=w->st; mk=g.first; } }
    for(auto&o:okk) if(!got.count(o.first)&&o.second->en<maxst) V("rec.prefix",kstr(s,o.first)+fmt(": lost by %s although key %u inserted later survived",how,mk));
    if(s.has_ref&&got!=s.ref) V("rec.differs",fmt("store %d: interrupted and repeated recovery gives other contents than an uninterrupted one",(int)(&s-&S[0])));
    g_stats.add("recovered_checks"); if(!okk.empty()&&got.size()>s.base.size()) g_stats.add("probe.recovery_kept_part"); size_t lostn=0; for(auto&o:okk) if(!got.count(o.first)) lostn++; if(lostn) g_stats.add("probe.recovery_rolled_back"); }
  // ---- fetch/insert ----
  struct CbCtx { Exec*x; Bytes*out; int calls; bool changed; const Op*nest=nullptr; };
  static void cb(void*p,const void*d,size_t n){ SimScope sc; CbCtx*c=(CbCtx*)p; c->calls++; if(n>(64u<<20)){ c->out->clear(); c->changed=true; return; } if(in_heap(d)){ if(g_check_heap) heap_check(d,n,false,nullptr); access_range(d,n,false,nullptr); } c->out->assign((const u8*)d,(const u8*)d+n); point(0x99); if(c->nest) c->x->nested(*c->nest); if(in_heap(d)&&g_check_heap) heap_check(d,n,false,nullptr); if(n&&memcmp(c->out->data(),d,n)) c->changed=true; }
  // the callback of a fetch looks up a key of another store (always one with a higher number: no lock order cycle)
  void nested(const Op&o){ u64 ef=cur()->err_fired; u32 oo=cur()->op; Op f; f.t=OP_FETCH; f.s=(int)o.b-1; f.k=(u32)o.c; f.id=o.id; if(f.s<=o.s||f.s>=nstores()||S[f.s].st!=ST_OPEN) return; g_stats.add("probe.nested_fetch"); do_fetch(f); cur()->err_fired=ef; cur()->op=oo; }
  // error of an operation on an open store; returns true if it is acceptable
  void op_error(StoreM&s,const Op&o,const sut_err&e,u64 st,u64 fired,u64 af,const char*what){
    int si=(int)(&s-&S[0]); if(af>0) { if(fired==0){ g_stats.add("probe.alloc_failed_call"); return; } return; }
    if(fired>0){ if(P.flags&PF_NOERR) V("err.transient",fmt("%s failed with %s",what,estr(e).c_str())); return; }
    bool faulted=fs.commit_err[si]>s.ses.err_open||s.ses.bgalloc;
    if(e.cls==E_BADALLOC||e.cls==E_EXC||e.cls==E_UNKNOWN_EXC) V("err.exception",fmt("%s threw an exception: %s",what,e.msg));
    if(!faulted){ V("err.unexpected",fmt("%s on store %d failed without cause: %s",what,si,estr(e).c_str())); }
    if(P.flags&PF_NOERR) V("err.transient",fmt("%s failed with %s",what,estr(e).c_str()));
    if(s.ses.sticky_seq){ if(e.cls!=s.ses.sticky_e.cls||e.val!=s.ses.sticky_e.val) V("err.changed",fmt("%s reports %s, earlier calls reported %s",what,estr(e).c_str(),estr(s.ses.sticky_e).c_str())); }
    else { s.ses.sticky_seq=W->seq; s.ses.sticky_e=e; g_stats.add("probe.sticky_error_seen"); }
    (void)o; (void)st; }
  void op_noerror(StoreM&s,u64 st,u64 ts,u64 fired,const char*what){
    int si=(int)(&s-&S[0]); if(fired>0) V("err.swallowed",fmt("%s succeeded although a file operation inside it failed",what));
    bool faulted=fs.commit_err[si]>s.ses.err_open; if(!faulted) return;
    if(s.ses.sticky_seq&&st>s.ses.sticky_seq) V("err.not-sticky",fmt("%s succeeded after the failed commit had been reported",what));
    u64 ft=fs.commit_err_time[si]; if(!s.ses.sticky_seq&&ts>ft+3*SEC&&P.sched.stall_ppm==0) V("err.unreported",fmt("%s succeeds %.1f s after the commit failed",what,(ts-ft)/1e9)); }
  u64 lat_limit(bool ins){ return (ins?(u64)(nclients+2)*30000000ull:0)+(ins||P.sched.stall_ppm?200000000ull:10000000ull)+(P.sched.stall_ppm?1500000000ull:0); }
  void latency(u64 t0,bool ins,const char*what){ if(!(P.flags&PF_LATENCY)) return; u64 d=W->now-t0; if(fs.stall_active||fs.stall_to>t0) g_stats.add("probe.op_during_stall"); if(d>lat_limit(ins)) V("lat.blocked",fmt("%s took %.3f s of simulated time%s",what,d/1e9,fs.stall_to>t0?" while a disk write was stalled":"")); }
  // the application orders life cycle calls of a store against its other calls
  void begin_life(StoreM&s){ hb_acquire(s.lifevc); hb_acquire(s.usevc); } void end_life(StoreM&s){ hb_release(s.lifevc); }
  void enter(StoreM&s){ s.users++; hb_acquire(s.lifevc); } void leave(StoreM&s){ hb_release(s.usevc); if(--s.users==0){ for(Fiber*f:s.waitq) ready(f); s.waitq.clear(); } }
  void do_insert(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN||!o.n) return; enter(s); u32 k=o.k%s.c.nkeys; idinfo[o.id]={k,o.n}; Bytes kb=key(s,k); const Bytes&vb=val(o.id,o.n); void*kp=dup(kb.data(),kb.size()); void*vp=dup(vb.data(),vb.size());
    size_t ix=s.ses.a.size(); u64 opens=s.opens; s.ses.a.push_back({o.id,k,o.n,++W->seq,0,W->now,0,R_PEND}); u64 t0=W->now; u64 fired,af; u64 sl0=cur()->slept,ns0=cur()->nslept; cur()->op=o.id;
    sut_err e=call(PH_CLIENT,&o,[&](sut_err*e){ sut_insert(s.h,kp,vp,o.n,e); },&fired,&af);
    sut_free(kp,0); sut_free(vp,0); (void)opens; Att&a=s.ses.a[ix]; u64 st=a.st,ts=a.ts; a.en=++W->seq; a.te=W->now;
    if(e.cls==E_OK) a.res=R_OK; else if(e.cls==E_NUDB&&e.val==N_key_exists) a.res=R_EXISTS; else a.res=R_ERR;
    trace("insert s%d k%u n%u id%u -> %s",o.s,k,o.n,o.id,e.cls?e.msg:"ok"); res(o,e);
    if(a.res==R_ERR) op_error(s,o,e,st,fired,af,"insert"); else op_noerror(s,st,ts,fired,"insert"); if(a.res==R_OK) g_stats.add("op.insert_ok"); else if(a.res==R_EXISTS) g_stats.add("op.insert_exists"); else g_stats.add("op.insert_error");
    latency(t0,true,"insert"); throttle(s,o,cur()->slept-sl0,cur()->nslept-ns0); poll_dat(); leave(s); }
  // an insert that was not delayed between two commits counts unless the next commit may have begun before it
  void throttle_pending(StoreM&s,int si){ auto&v=s.ses.unthrottled; while(!v.empty()&&v.front().first+300000000ull<W->now){ bool near=false; for(auto&c:fs.commits[si]) if(c.t0+50000000ull>v.front().first&&c.t0<v.front().first+300000000ull) near=true; std::string m=v.front().second; v.erase(v.begin()); if(!near) V("thr.missing",m); } }
  // upper bound of the uncommitted amount: everything inserted in this session and not known to be committed
  void throttle(StoreM&s,const Op&o,u64 slept,u64 n){ if(!(P.flags&PF_THROTTLE)) return; int si=(int)(&s-&S[0]); u64 w=0,cnt=0;
    for(size_t i=0;i<s.ses.a.size();i++){ auto&a=s.ses.a[i]; if(i<s.ses.settled||!(a.res==R_OK||a.res==R_PEND||a.op==o.id)) continue; w+=a.n+s.c.ks+6; cnt++; }
    u64 amount=w+cnt*(3*s.c.bs+64); if(n) g_stats.add("probe.throttled_inserts"); if(s.ses.settled) g_stats.add("probe.insert_after_disk_caught_up");
    if(n&&amount<s.burst) V("thr.early",fmt("insert was delayed by %.3f s with at most %llu bytes uncommitted, burst size %llu",slept/1e9,(unsigned long long)amount,(unsigned long long)s.burst));
    if(slept>100000000ull) V("thr.long",fmt("one insert was delayed by %.3f s",slept/1e9));
    // not late: no delay of an insert that keeps well below what the last commits are certain to have measured
    if(n&&!P.sched.stall_ppm&&!s.ses.burst_changed&&!fs.commits[si].empty()){ auto&v=fs.commits[si]; const CommitRec&l=v.back(); u64 up=0,first=~0ull,t0=0; for(auto&a:s.ses.a){ if(a.op==o.id&&a.st) t0=a.ts; if((a.res==R_OK||a.res==R_PEND||a.op==o.id)&&(a.res==R_PEND||a.en>l.seq0)) up+=a.n+s.c.ks+6+3ull*s.c.bs; if(a.res==R_OK&&a.st>l.seq0) first=std::min(first,a.te); }
      if(t0>l.t0+1000000&&l.t0>=s.ses.open_time&&first!=~0ull&&first<W->now-slept){ double rlo=-1; for(auto&q:v){ if(q.t0<s.ses.open_time) continue; u64 hi=q.dat+3*q.key,low=q.key+2*(q.log>100?(q.log-100)*s.c.bs/(s.c.bs+8):0); if(hi<=s.burst) continue; if(!q.t3){ rlo=-1; continue; } double r=low/((q.t3-q.t0)/1e9*1.1+0.005); if(low>s.burst) rlo=r; else if(rlo>=0) rlo=std::min(rlo,r); }
        double el=(W->now-slept-first)/1e9; if(rlo>0&&l.t3&&l.t3+1000000<t0) g_stats.add("probe.throttle_justified"); if(rlo>0&&l.t3&&l.t3+1000000<t0&&up/el<0.7*rlo) V("thr.late",fmt("insert was delayed by %.3f s: at most %llu bytes wait, inserted at no more than %.0f bytes/s, and the last commit wrote at least %.0f bytes/s",slept/1e9,(unsigned long long)up,up/el,rlo)); } }
    // lower bound: what was inserted since the commit that is running now began is certainly waiting
    auto&cm=fs.commits[si]; if(P.sched.stall_ppm||s.ses.burst_changed||cm.empty()||s.ses.a.empty()||cm.back().t0<s.ses.open_time) return; const CommitRec&c=cm.back(); throttle_pending(s,si);
    // no commit is running: the context looked at the store in the last second, so the rate is at least what was inserted since in that time
    bool idle=c.t1!=0; if(idle&&(!ctx_threads||!c.t3||ctx_since+3*SEC>W->now||s.ses.open_time+3*SEC>W->now||c.t3+1300000000ull>W->now||nstores()>1)) return; u64 lo=0,me=0; for(auto&a:s.ses.a) if(a.res==R_OK&&a.st>c.seq0){ lo+=a.n+3ull*s.c.bs; if(a.op==o.id) me=a.st; } if(!me||lo<=s.burst) return;
    double rate=-1; for(auto&q:cm){ if(!q.t1||q.t0<s.ses.open_time) continue; u64 hi=q.dat+3*q.key, low=q.key+2*(q.log>100?(q.log-100)*s.c.bs/(s.c.bs+8):0); if(hi<=s.burst) continue; double r=hi/((q.t1-q.t0)/1e9+1e-9); if(low>s.burst) rate=r; else { if(rate<0) return; rate=std::max(rate,r); } }
    if(rate<0) return; double el=idle?1.2:(W->now-c.t0)/1e9+0.01; if(lo/el<=1.1*rate) return; g_stats.add(idle?"probe.throttle_decided_between_commits":"probe.throttle_decided");
    if(slept<1000000&&idle){ s.ses.unthrottled.push_back({W->now,fmt("insert was not delayed %.1f s after the last commit with at least %llu bytes waiting (burst size %llu), inserted at %.0f bytes/s while the disk commits at most %.0f bytes/s",(W->now-c.t3)/1e9,(unsigned long long)lo,(unsigned long long)s.burst,lo/el,rate)}); return; }
    if(slept<1000000) V("thr.missing",fmt("insert was not delayed with at least %llu bytes waiting (burst size %llu), inserted at %.0f bytes/s while the disk commits at most %.0f bytes/s",(unsigned long long)lo,(unsigned long long)s.burst,lo/el,rate)); }
  // a context with threads serves its stores: nothing inserted long ago may be left without a commit
  void served(u64 t0){ if(!ctx_threads||P.sched.stall_ppm||!era->faults.empty()||bg_alloc_armed) return; u64 lim=4*SEC; if(W->now-t0<lim||std::max(ctx_since,t0)+lim>W->now) return;
    if(fs.last_op_time+2*SEC>W->now) return; for(auto&kv:fs.commits) if(!kv.second.empty()&&!kv.second.back().t1) return; g_stats.add("probe.context_serving");
    for(int i=0;i<nstores();i++){ StoreM&s=S[i]; if(s.st!=ST_OPEN||s.users||s.ses.open_time+lim>W->now) continue; auto&cm=fs.commits[i]; u64 seq0=cm.empty()?0:cm.back().seq0; for(auto&a:s.ses.a) if(a.res==R_OK&&a.st>seq0&&a.te+lim<W->now) V("ctx.not-served",fmt("store %d: the context has been running for %.1f s, but a value inserted %.1f s ago has not been committed",i,(W->now-std::max(ctx_since,s.ses.open_time))/1e9,(W->now-a.te)/1e9)); } }
  void settle(const Op&o){ u64 t0=W->now; (void)o; sleep_for(o.a); if(o.b==2) served(t0); if(!o.b||!(P.flags&PF_THROTTLE)||!ctx_threads||P.sched.stall_ppm) return; if(fs.last_op_time+3*SEC>W->now||W->now-t0<5*SEC) return; for(auto&s:S) if(s.st==ST_OPEN&&s.users==0){ auto*l=fs.content(s.lp); if(l&&l->empty()){ s.ses.settled=s.ses.a.size(); g_stats.add("probe.settled"); } } }
  void do_fetch(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN) return; enter(s); u32 k=o.k%s.c.nkeys; Bytes kb=key(s,k); void*kp=dup(kb.data(),kb.size()); Bytes out; CbCtx c{this,&out,0,false}; if(o.b&&o.af<0) c.nest=&o; Fet f{k,++W->seq,0,0,0}; u64 t0=W->now; u64 fired,af; cur()->op=o.id;
    sut_err e=call(PH_CLIENT,&o,[&](sut_err*e){ sut_fetch(s.h,kp,cb,&c,e); },&fired,&af);
    sut_free(kp,0); f.en=++W->seq; if(c.changed) V("lin.torn",kstr(s,k)+": the value changed while the callback looked at it"); 
    if(e.cls==E_OK){ if(c.calls!=1) V("lin.callback",fmt("successful fetch made %d callbacks",c.calls)); f.res=F_FOUND; f.op=identify(s,k,out,&s.ses); if(!f.op) V("lin.value",kstr(s,k)+fmt(": fetch returned %zu bytes that were never inserted under this key",out.size())); }
    else if(c.calls) V("lin.callback","failed fetch made a callback"); 
    if(e.cls==E_NUDB&&e.val==N_key_not_found) f.res=F_NOTFOUND; else if(e.cls!=E_OK) f.res=F_ERR;
    trace("fetch s%d k%u -> %s op%u",o.s,k,e.cls?e.msg:"found",f.op); res(o,e,f.op);
    if(f.res==F_ERR) op_error(s,o,e,f.st,fired,af,"fetch"); else op_noerror(s,f.st,t0,fired,"fetch");
    g_stats.add(f.res==F_FOUND?"op.fetch_found":f.res==F_NOTFOUND?"op.fetch_notfound":"op.fetch_error");
    s.ses.f.push_back(f); latency(t0,false,"fetch"); leave(s); }
  // fetch every key with faults switched off; returns key -> op id
  std::map<u32,u32> scan(StoreM&s,const Sess*x,const char*how){ std::map<u32,u32> got; bool q=fs.quiet; fs.quiet=true; 
    for(u32 k=0;k<s.c.nkeys;k++){ Bytes kb=key(s,k); void*kp=dup(kb.data(),kb.size()); Bytes out; CbCtx c{this,&out,0,false}; u64 fired; sut_err e=call(PH_SCAN,nullptr,[&](sut_err*e){ sut_fetch(s.h,kp,cb,&c,e); },&fired); sut_free(kp,0);
      if(e.cls==E_OK){ u32 id=identify(s,k,out,x); if(!id){ fs.quiet=q; V(s.base.count(k)?"dur.changed":"rec.value",kstr(s,k)+fmt(": %s returned %zu bytes that were never inserted under this key",how,out.size())); } if(s.base.count(k)&&s.base[k]!=id) V("dur.changed",kstr(s,k)+": committed value replaced"); got[k]=id; }
      else if(!(e.cls==E_NUDB&&e.val==N_key_not_found)){ fs.quiet=q; V("rec.fetch",kstr(s,k)+fmt(": fetch fails after %s: %s",how,estr(e).c_str())); } }
    fs.quiet=q; return got; }
  // ---- life cycle ----
  void make_handle(int i,const Op*o){ StoreM&s=S[i]; if(s.h) return; u64 fired,af; bool shared=(era->ctx&15)!=0; sut_err e=call(PH_CTX,o,[&](sut_err*e){ s.h=sut_store_new(s.c.hasher,shared?ctx:nullptr,e); },&fired,&af); if(!s.h){ if(af) return; V("err.unexpected",fmt("constructing a store failed: %s",estr(e).c_str())); } }
  // the object of another closed store opens this database, and its database is opened by ours from now on
  void swap_handle(StoreM&s,const Op&o){ if(!o.b||o.b>(u64)nstores()) return; StoreM&j=S[o.b-1]; if(&j==&s||s.users||j.users||j.st!=ST_CLOSED||j.creating||!j.h||j.c.hasher!=s.c.hasher) return; for(StoreM*x:{&s,&j}) begin_life(*x); std::swap(s.h,j.h); for(StoreM*x:{&s,&j}) end_life(*x); g_stats.add("probe.object_opens_another_database"); }
  void do_open(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_CLOSED||!s.exist||s.creating) return; swap_handle(s,o); s.st=ST_OPENING; enter(s); begin_life(s); make_handle(o.s,nullptr); u64 fired,af; u64 e0=fs.err_by_store[o.s]; (void)e0; Bytes d0,k0; bool snap=s.rekey; if(snap){ d0=content(s.dp); }
    s.ses.clear(); s.ses.bgalloc=bg_alloc_armed; s.ses.err_open=fs.commit_err[o.s]; fs.commit_err_time.erase(o.s);
    sut_err e=call(PH_OPEN,&o,[&](sut_err*e){ sut_open(s.h,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),e); },&fired,&af); res(o,e); poll_dat();
    int io; { SutScope in; io=sut_is_open(s.h); }
    if(e.cls!=E_OK){ s.st=ST_CLOSED; if(io) V("ref.left-open","open failed but the store says it is open"); 
      if(s.rekey){ if(!(e.cls==E_NUDB&&e.val==N_no_key_file)&&!(e.cls==E_SYSTEM&&e.val==ENOENT)&&!legit_fault(fired,af)) V("rek.open",fmt("open during an interrupted rekey failed with %s",estr(e).c_str())); }
      else if(!legit_fault(fired,af)) V("rec.open",fmt("opening store %d failed: %s%s",o.s,estr(e).c_str(),s.uncertain?" (after a crash or failed commit)":""));
      if((P.flags&PF_NOERR)&&!af) V("err.transient",fmt("open failed with %s",estr(e).c_str()));
      check_fds(o.s,"a failed open"); end_life(s); leave(s); return; }
    if(fired) V("err.swallowed","open succeeded although a file operation inside it failed");
    if(!io) V("ref.not-open","open succeeded but the store says it is closed"); s.opens++; g_stats.add("op.open_ok");
    if(s.rekey){ // the key file was complete
      s.rekey=false; g_stats.add("probe.rekey_was_complete"); }
    if(s.uncertain){ auto got=scan(s,&s.unc,"recovery"); check_recovered(s,got,"recovery"); s.base=got; s.durable.clear(); s.uncertain=false; s.unc.clear(); s.has_ref=false; s.ref.clear(); s.ses.start=s.base; }
    s.ses.active=true; s.ses.start=s.base; s.ses.open_seq=++W->seq; s.ses.open_time=W->now; s.st=ST_OPEN; fs.committed_size[o.s]=content(s.dp).size(); s.burst=4u<<20; end_life(s); trace("store %d open, %zu keys",o.s,s.base.size()); leave(s); }
  void wait_users(StoreM&s){ while(s.users){ s.waitq.push_back(cur()); block("users of the store",0);} begin_life(s); }
  void do_close(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN) return; s.st=ST_CLOSING; wait_users(s); u64 fired,af; bool had=fs.commit_err[o.s]>s.ses.err_open; (void)had; u64 t0=W->now;
    sut_err e=call(PH_CLOSE,&o,[&](sut_err*e){ sut_close(s.h,e); },&fired,&af); (void)t0; res(o,e); poll_dat(); int io; { SutScope in; io=sut_is_open(s.h); } bool faulted=fs.commit_err[o.s]>s.ses.err_open; s.st=ST_CLOSED; end_life(s);
    if(io) V("err.close","store still open after close");
    if(e.cls==E_OK){ if(faulted) V("err.close-swallowed","close reported success although writing the data had failed"); if(fired) V("err.swallowed","close succeeded although a file operation inside it failed"); g_stats.add("op.close_ok"); 
      if(fs.exists(s.lp)) V("leak.log",fmt("log file of store %d exists after close",o.s)); check_fds(o.s,"close"); session_end(s,true,false); fs.committed_size[o.s]=content(s.dp).size(); }
    else { g_stats.add("op.close_error"); if(!faulted&&!legit_fault(fired,af)&&!s.ses.bgalloc) V("err.unexpected",fmt("close of store %d failed without cause: %s",o.s,estr(e).c_str())); if((P.flags&PF_NOERR)&&!af) V("err.transient",fmt("close failed with %s",estr(e).c_str()));
      if(s.ses.sticky_seq&&!af&&!fired&&(e.cls!=s.ses.sticky_e.cls||e.val!=s.ses.sticky_e.val)) V("err.changed",fmt("close reports %s, earlier calls reported %s",estr(e).c_str(),estr(s.ses.sticky_e).c_str()));
      if(!af) check_fds(o.s,"a failed close");
      session_end(s,false,false); } }
  void do_destroy(const Op&o){ StoreM&s=S[o.s]; if(!s.h||s.st==ST_OPENING||s.st==ST_CLOSING) return; bool open=s.st==ST_OPEN; s.st=ST_CLOSING; wait_users(s); u64 fired,af; void*h=s.h; sut_err e=call(PH_CLOSE,&o,[&](sut_err*e){ sut_store_delete(h,e); },&fired,&af); s.h=nullptr; s.st=ST_CLOSED; end_life(s); poll_dat(); bool faulted=fs.commit_err[o.s]>s.ses.err_open;
    if(e.cls!=E_OK&&!af) V("err.exception",fmt("destroying a store threw: %s",e.msg)); check_fds(o.s,"destroying the store"); if(open) { session_end(s,!faulted&&!fired&&!af&&!s.ses.bgalloc&&e.cls==E_OK,false); if(!s.uncertain) fs.committed_size[o.s]=content(s.dp).size(); } g_stats.add("op.destroy"); }
  void do_flush(const Op&o){ if((era->ctx&15)!=2||!ctx) return; if(flush_active) flush_overlap=true; flush_active++; u64 st=++W->seq; struct Snap { int s; u64 opens; }; std::vector<Snap> sn; for(int i=0;i<nstores();i++) if(S[i].st==ST_OPEN) sn.push_back({i,S[i].opens});
    std::vector<int> pre; if(o.af>=0) for(auto&x:sn) if(!S[x.s].ses.bgalloc){ S[x.s].ses.bgalloc=true; pre.push_back(x.s); }
    u64 fired,af; sut_err e=call(PH_FLUSH,&o,[&](sut_err*e){ sut_ctx_flush(ctx,e); },&fired,&af); if(!af&&!bg_alloc_armed&&!flush_overlap) for(int i:pre) S[i].ses.bgalloc=false; bool overlap=flush_overlap; flush_active--; if(!flush_active) flush_overlap=false; else flush_overlap=true; poll_dat(); g_stats.add("op.flush");
    if(e.cls!=E_OK){ if(!af) V("err.exception",fmt("flush threw: %s",e.msg)); for(auto&x:sn) fs.commit_err[x.s]++,fs.commit_err_time[x.s]=W->now; return; }
    if(overlap) g_stats.add("probe.flush_overlap");
    for(auto&x:sn){ StoreM&s=S[x.s]; if(s.st!=ST_OPEN||s.opens!=x.opens) continue; if(fs.commit_err[x.s]>s.ses.err_open||s.ses.bgalloc) continue; size_t n=0; for(auto&a:s.ses.a) if(a.res==R_OK&&a.en<st){ if(s.durable.emplace(a.k,a.op).second) n++; } if(n) g_stats.add("probe.flush_acked",n); } }
  void do_create(const Op&o){ StoreM&s=S[o.s]; if(s.exist||s.creating||s.st!=ST_CLOSED) return; s.creating=true; auto before=fs.names; u64 fired,af; enter(s);
    sut_err e=call(PH_CREATE,&o,[&](sut_err*e){ sut_create(s.c.hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),s.c.appnum,s.c.uid,s.c.salt,s.c.ks,s.c.bs,s.c.lf/65536.f,e); },&fired,&af); res(o,e); s.creating=false; check_foreign();
    if(e.cls==E_OK){ s.exist=true; s.base.clear(); if(fired) V("err.swallowed","create succeeded although a file operation inside it failed"); check_created(o.s); fs.committed_size[o.s]=content(s.dp).size(); g_stats.add("op.create_ok"); }
    else { if(!legit_fault(fired,af)) V("cre.failed",fmt("create failed without cause: %s",estr(e).c_str())); if((P.flags&PF_NOERR)&&!af) V("err.transient","create failed"); for(auto*p:{&s.dp,&s.kp,&s.lp}) if(fs.exists(*p)&&!before.count(*p)){ bool unl=false; for(auto&f:fs.faults) if(f.op==FS_UNLINK&&f.fired) unl=true; if(!unl) V("cre.leftover",fmt("failed create left %s behind",p->c_str())); } g_stats.add("op.create_error"); if(af) for(auto*p:{&s.dp,&s.kp,&s.lp}) fs.remove(*p); for(auto*p:{&s.dp,&s.kp,&s.lp}) fs.remove(*p); }
    check_fds(o.s,"create"); leave(s); }
  void check_created(int i){ StoreM&s=S[i]; if(!rel("cre.")&&!rel("fmt.")) return; DbInfo d; std::string err; Bytes db=content(s.dp),kb=content(s.kp); if(!dec_db(db,kb,s.c.hasher,d,err)) V("fmt.create","new database is not valid: "+err);
    u64 lf=std::min<u64>((u64)(65536.f*(s.c.lf/65536.f)),65535); if(d.d.h.uid!=s.c.uid||d.d.h.appnum!=s.c.appnum||d.d.h.ks!=s.c.ks||d.k.salt!=s.c.salt||d.k.bs!=s.c.bs||d.k.lf!=lf) V("cre.params","new database does not carry the requested parameters"); if(d.value_count||d.k.buckets!=1) V("cre.params","new database is not empty"); if(fs.exists(s.lp)&&content(s.lp).size()) V("cre.params","new database has a log"); }
  void do_recover(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_CLOSED||!s.exist) return; s.st=ST_OPENING; enter(s); begin_life(s); bool clean=!s.uncertain&&!s.rekey; Bytes d0,k0; if(clean){ d0=content(s.dp); k0=content(s.kp); } u64 fired,af; sut_err e=call(PH_RECOVER,&o,[&](sut_err*e){ if(use_cli(s,o)) cli(cli_args("recover",s,o,3),e); else sut_recover(s.c.hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),e); },&fired,&af); res(o,e); poll_dat(); g_stats.add("op.recover");
    if(e.cls==E_OK){ if(fired) V("err.swallowed","recover succeeded although a file operation inside it failed"); }
    else { bool rk=s.rekey&&((e.cls==E_NUDB&&e.val==N_no_key_file)||(e.cls==E_SYSTEM&&e.val==ENOENT)||(use_cli(s,o)&&!fs.exists(s.kp))); if(!rk&&!legit_fault(fired,af)) V("rec.recover",fmt("recovering store %d failed: %s",o.s,estr(e).c_str())); if((P.flags&PF_NOERR)&&!rk&&!af) V("err.transient",fmt("recover failed with %s",estr(e).c_str())); }
    if(clean&&(content(s.dp)!=d0||content(s.kp)!=k0)) V("rec.clean-changed","recovering a database that needs no recovery changed its files");
    if(e.cls==E_OK&&fs.exists(s.lp)) V("leak.log","log file exists after successful recovery"); check_fds(o.s,"recover");
    if(s.rekey&&!fired&&!af){ if(!fs.exists(s.kp)){ if(fs.exists(s.lp)) V("rek.stuck","recovery of an interrupted rekey left a log file but no key file"); if(content(s.dp)!=s.pre_dat) V("rek.data",fmt("recovery of an interrupted rekey does not restore the data file (%zu bytes, was %zu)",content(s.dp).size(),s.pre_dat.size())); }
      else if(e.cls==E_OK) { s.rekey=false; g_stats.add("probe.rekey_was_complete"); check_files(o.s,"a completed rekey"); } else V("rek.recover",fmt("recovery of an interrupted rekey fails with %s and leaves a key file",estr(e).c_str())); }
    s.st=ST_CLOSED; leave(s); }
  // Keep one rekey or verification affordable: the work is passes over the data file times its size.
  static u64 min_buffer(u64 key_bytes,u64 dat_bytes){ u64 passes=std::min<u64>(2000,std::max<u64>(8,(24u<<20)/std::max<u64>(1,dat_bytes))); return key_bytes/passes; }
  static void rekey_bound(u32 bs,u64 items,u64 dat,u32&lk,u64&buf){ u64 cap=bs>16?(bs-8)/18:1; if(!cap) cap=1; for(;;){ double lf=std::max<u32>(1,lk)/65536.0; double b=items/(cap*lf)+1; if(b<=4000||lk>=60000){ buf=std::max<u64>(buf,min_buffer((u64)(b*bs),dat)); return; } lk=std::min<u32>(60000,lk*2+1); } }
  // parameters no key file can have
  void rekey_refused(StoreM&s,const Op&o){ Rng r(o.a); u64 bs=s.c.bs; float lf=0.5f; std::string w; switch(o.n){ case 1: case 2: bs=r.below(104); break; case 3: bs=65536+r.below(1u<<20); break; case 4: bs=r.chance(1,2)?65536:(1ull<<32)+4096; break; case 5: lf=0; break; case 6: lf=-0.5f; break; case 7: lf=__builtin_nanf(""); break; default: lf=-__builtin_inff(); } w=fmt("rekey with block size %llu and load factor %g",(unsigned long long)bs,lf); Bytes before=content(s.dp); size_t nn=fs.names.size(); u64 fired,af; Prog pg;
    sut_err e=call(PH_REKEY,&o,[&](sut_err*e){ sut_rekey(s.c.hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),bs,lf,1+o.b,65536,pcb,&pg,e); },&fired,&af); g_stats.add("op.rekey_refused"); check_fds(o.s,"rekey"); if(e.cls==E_OK) V("rek.accepted",w+": no error is reported"); if(e.cls>=E_BADALLOC&&!af) V("rek.failed",w+": throws "+e.msg); if(fs.names.size()!=nn||fs.exists(s.kp)||fs.exists(s.lp)) V("rek.refused",w+": files were made or removed"); if(content(s.dp)!=before) V("rek.refused",w+": the data file was changed"); }
  void do_rekey(const Op&o){ StoreM&s=S[o.s]; if(gap(o.s)||s.st!=ST_CLOSED||!s.exist||s.uncertain) return; s.st=ST_OPENING; enter(s); begin_life(s);
    if(!s.rekey){ DbInfo d; std::string er; s.pre_dat=content(s.dp); s.rekey=true; fs.remove(s.kp); fs.remove(s.lp); { auto it=fs.names.find(s.dp); if(it!=fs.names.end()){ it->second->durable=it->second->data; it->second->pend.clear(); } } }
    else if(fs.exists(s.kp)||fs.exists(s.lp)) { s.st=ST_CLOSED; leave(s); return; }
    if(o.n){ rekey_refused(s,o); s.st=ST_CLOSED; leave(s); return; }
    fs.committed_size[o.s]=s.pre_dat.size(); u32 nbs=(u32)o.a; u32 lk=o.k; u64 rbuf=o.c; bool uc=use_cli(s,o); if(uc){ nbs=4096; lk=32768; } u32 nbs0=nbs,lk0=lk; rekey_bound(nbs,o.b,s.pre_dat.size(),lk,rbuf); if(uc&&(nbs!=nbs0||lk!=lk0)){ uc=false; } float lf=lk/65536.f; u64 fired,af; Prog pg;
    s.c.bs=nbs; s.c.lf=lk; s.legacy_spills=true;
    sut_err e=call(PH_REKEY,&o,[&](sut_err*e){ if(uc){ auto a=cli_args("rekey",s,o,3); cli_opt(a,o,"count","-n",o.b); cli_opt(a,o,"buffer","-b",rbuf); cli(a,e); } else sut_rekey(s.c.hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),nbs,lf,o.b,rbuf,pcb,&pg,e); },&fired,&af); res(o,e); check_prog(pg,"rekey",e.cls==E_OK&&!uc); poll_dat(); check_fds(o.s,"rekey"); g_stats.add(e.cls?"op.rekey_error":"op.rekey_ok");
    if(e.cls==E_OK){ if(fired) V("err.swallowed","rekey succeeded although a file operation inside it failed"); s.rekey=false; if(fs.exists(s.lp)) V("leak.log","log file exists after successful rekey"); check_files(o.s,"rekey"); fs.committed_size[o.s]=content(s.dp).size(); { Bytes n=content(s.dp); if(n.size()<s.pre_dat.size()||memcmp(n.data(),s.pre_dat.data(),s.pre_dat.size())) V("rek.data","rekey changed existing bytes of the data file"); } }
    else { if(!legit_fault(fired,af)) V("rek.failed",fmt("rekey failed without cause: %s",estr(e).c_str())); if((P.flags&PF_NOERR)&&!af) V("err.transient",fmt("rekey failed with %s",estr(e).c_str())); { Bytes n=content(s.dp); if(n.size()<s.pre_dat.size()||memcmp(n.data(),s.pre_dat.data(),s.pre_dat.size())) V("rek.data","failed rekey changed existing bytes of the data file"); } }
    s.st=ST_CLOSED; leave(s); }
  std::vector<std::pair<Bytes,Bytes>> expect(StoreM&s){ std::vector<std::pair<Bytes,Bytes>> v; for(auto&b:s.base) v.push_back({key(s,b.first),val(b.second)}); return v; }
  // closed database: decode with the independent decoder and compare with the model
  bool check_files(int i,const char*when){ StoreM&s=S[i]; if(s.uncertain||s.rekey) return true; bool f=rel("fmt."),d=rel("dur."); if(!f&&!d) return true; Bytes db=content(s.dp),kb=content(s.kp); DbInfo x; std::string err; dec_gap=gap(i);
    bool ok=dec_db(db,kb,s.c.hasher,x,err,s.legacy_spills); dec_gap=0; if(!ok){ if(f) V("fmt.invalid",fmt("store %d after %s: ",i,when)+err); return false; }
    if(f){ u64 lf=std::min<u64>((u64)(65536.f*(s.c.lf/65536.f)),65535); if(x.d.h.uid!=s.c.uid||x.d.h.appnum!=s.c.appnum||x.d.h.ks!=s.c.ks||x.k.bs!=s.c.bs||x.k.lf!=lf) V("fmt.header",fmt("store %d after %s: header fields differ from what was requested",i,when)); }
    std::map<Bytes,Bytes> m; for(auto&r:x.d.recs) m[r.key]=r.val; for(auto&b:s.base){ auto it=m.find(key(s,b.first)); if(it==m.end()) V("dur.file",kstr(s,b.first)+fmt(": not in the data file after %s",when)); if(it->second!=val(b.second)) V("dur.file",kstr(s,b.first)+fmt(": wrong bytes in the data file after %s",when)); m.erase(it); }
    if(!m.empty()) V("fmt.extra",fmt("store %d after %s: data file holds %zu values that were not inserted",i,when,m.size()));
    if(x.spill_count) g_stats.add("probe.db_with_spills"); if(x.max_chain>1) g_stats.add("probe.spill_chain_ge2"); if(x.k.buckets>1) g_stats.add("probe.db_with_splits"); if(x.spill_count_tot>x.spill_count) g_stats.add("probe.abandoned_spills"); g_stats.add("decoded_checks"); return true; }
  // progress reports: first (0,total), the same total every time, amounts that never go back and never exceed the total
  struct Prog { u64 n=0,last=0,tot=0; int bad=0; u64 a=0,t=0; };
  static void pcb(void*p,uint64_t a,uint64_t t){ SimScope sc; Prog*g=(Prog*)p; if(!g->bad){ if(!g->n&&a) g->bad=1; else if(g->n&&t!=g->tot) g->bad=2; else if(a>t) g->bad=3; else if(a<g->last) g->bad=4; g->a=a; g->t=t; } if(!g->bad){ g->last=a; g->tot=t; } g->n++; point(0x9B); }
  void check_prog(const Prog&g,const char*what,bool ok){ if(g.n) g_stats.add("probe.progress_reports",g.n); if(g.bad){ static const char*const w[]={"","the first report does not start at zero","the total changed during the call","more work done than there is in total","a report went backwards"}; V("prg.wrong",fmt("%s: %s: report %llu of %llu after %llu of %llu",what,w[g.bad],(unsigned long long)g.a,(unsigned long long)g.t,(unsigned long long)g.last,(unsigned long long)g.tot)); } if(ok&&!g.n) V("prg.wrong",fmt("%s ended without a single progress report",what)); }
  struct VisCtx { Exec*x; std::vector<std::pair<Bytes,Bytes>> got; u64 fail_at; u64 n; bool after; };
  static int vcb(void*p,const void*k,size_t ks,const void*d,size_t n){ SimScope sc; VisCtx*v=(VisCtx*)p; if(v->after) v->n=1u<<30; v->got.push_back({Bytes((const u8*)k,(const u8*)k+ks),Bytes((const u8*)d,(const u8*)d+n)}); if(in_heap(k)&&g_check_heap) heap_check(k,ks,false,nullptr); if(in_heap(d)&&g_check_heap) heap_check(d,n,false,nullptr); if(++v->n==v->fail_at){ v->after=true; return ECANCELED; } return 0; }
  void do_visit(const Op&o){ StoreM&s=S[o.s]; if(gap(o.s)||s.st!=ST_CLOSED||!s.exist||s.uncertain||s.rekey) return; s.st=ST_OPENING; enter(s); begin_life(s); VisCtx v{this,{},o.a,0,false}; Prog pg; u64 fired,af; Bytes db=content(s.dp); u64 h0=fs.hash(); int nf=fs.fds.size(); (void)h0; (void)nf;
    bool uc=!o.a&&use_cli(s,o); sut_err e=call(PH_VISIT,&o,[&](sut_err*e){ if(uc) cli(cli_args("visit",s,o,1),e); else sut_visit(s.dp.c_str(),vcb,pcb,&v,&pg,e); },&fired,&af); s.st=ST_CLOSED; check_prog(pg,"visit",e.cls==E_OK&&!uc); leave(s); check_fds(o.s,"visit"); DatInfo d; std::string err; g_stats.add("op.visit"); if(content(s.dp)!=db) V("ref.changed","visit changed the data file");
    if(!dec_dat(db,d,err)) return; if(uc){ if(e.cls==E_OK&&fired) V("err.swallowed","visit succeeded although a read inside it failed"); if(e.cls!=E_OK&&!legit_fault(fired,af)) V("vis.failed","visit failed without cause: "+estr(e)); if(e.cls==E_OK) cli_visit_out(d); return; } u64 lim=d.recs.size(); bool cbfail=o.a&&o.a<=lim; if(cbfail) lim=o.a;
    for(size_t i=0;i<v.got.size();i++){ if(i>=d.recs.size()) V("vis.extra","visit reports more values than the data file holds"); if(v.got[i].first!=d.recs[i].key||v.got[i].second!=d.recs[i].val) V("vis.wrong",fmt("visit reports a wrong key or value at position %zu",i)); }
    if(v.n>=(1u<<30)||(cbfail&&v.got.size()>lim)) V("vis.after-error","visit went on after the callback had reported an error");
    if(e.cls==E_OK){ if(fired) V("err.swallowed","visit succeeded although a read inside it failed"); if(cbfail) V("vis.error-lost","visit does not report the error of the callback"); if(v.got.size()!=d.recs.size()) V("vis.missed",fmt("visit reported %zu of %zu values",v.got.size(),d.recs.size())); }
    else { if(cbfail&&!fired&&!af){ if(e.cls!=E_SYSTEM||e.val!=ECANCELED) V("vis.error-lost",fmt("visit reports %s instead of the error of the callback",estr(e).c_str())); if(v.got.size()!=lim) V("vis.missed","visit ended before the callback failed"); } else if(!legit_fault(fired,af)) V("vis.failed",fmt("visit failed without cause: %s",estr(e).c_str())); if((P.flags&PF_NOERR)&&!cbfail&&!af) V("err.transient",fmt("visit failed with %s",estr(e).c_str())); } }
  void do_verify(const Op&o){ StoreM&s=S[o.s]; if(gap(o.s)||s.st!=ST_CLOSED||!s.exist||s.uncertain||s.rekey) return; s.st=ST_OPENING; enter(s); begin_life(s); sut_vinfo v; u64 fired,af; Bytes db=content(s.dp),kb=content(s.kp); u64 buf=o.a; if(buf==1) buf=2*s.c.bs+16; if(buf) buf=std::max<u64>(buf,min_buffer(kb.size(),db.size())); Prog pg;
    bool uc=use_cli(s,o); sut_err e=call(PH_VERIFY,&o,[&](sut_err*e){ if(uc){ auto a=cli_args("verify",s,o,2); if(buf||o.id%3==0) cli_opt(a,o,"buffer","-b",buf); cli(a,e); } else sut_verify(s.c.hasher,&v,s.dp.c_str(),s.kp.c_str(),buf,pcb,&pg,e); },&fired,&af); s.st=ST_CLOSED; check_prog(pg,buf?"verify (fast)":"verify",e.cls==E_OK&&!uc); leave(s); check_fds(o.s,"verify"); g_stats.add("op.verify"); if(content(s.dp)!=db||content(s.kp)!=kb) V("ref.changed","verify changed a file");
    if(e.cls!=E_OK){ if(!legit_fault(fired,af)) V("ver.rejects",fmt("verify (buffer %llu) rejects a sound database: %s",(unsigned long long)buf,estr(e).c_str())); if((P.flags&PF_NOERR)&&!af) V("err.transient",fmt("verify failed with %s",estr(e).c_str())); return; }
    if(fired) V("err.swallowed","verify succeeded although a read inside it failed"); if(uc) cli_verify_out(o.s,db,kb); else check_vinfo(o.s,v,db,kb); }
  void check_vinfo(int i,const sut_vinfo&v,const Bytes&db,const Bytes&kb){ if(!rel("ver.")) return; StoreM&s=S[i]; DbInfo d; std::string err; if(!dec_db(db,kb,s.c.hasher,d,err,s.legacy_spills)) return; g_stats.add(v.algorithm?"probe.verify_fast":"probe.verify_normal");
#define CK(f,x) if(v.f!=(x)) V("ver.counts",fmt("verify (algorithm %d) reports %s=%llu, true value is %llu",v.algorithm,#f,(unsigned long long)v.f,(unsigned long long)(x)));
    CK(version,2) CK(uid,d.d.h.uid) CK(appnum,d.d.h.appnum) CK(key_size,d.d.h.ks) CK(salt,d.k.salt) CK(pepper,d.k.pepper) CK(block_size,d.k.bs) CK(capacity,d.k.capacity) CK(buckets,d.k.buckets) CK(key_file_size,kb.size()) CK(dat_file_size,db.size()) CK(key_count,d.key_count) CK(value_count,d.value_count) CK(value_bytes,d.value_bytes) CK(spill_count,d.spill_count) CK(spill_count_tot,d.spill_count_tot) if(!d.partial_spills) CK(spill_bytes,d.spill_bytes) CK(spill_bytes_tot,d.spill_bytes_tot)
    for(int k=0;k<10;k++) if(v.hist[k]!=d.hist[k]) V("ver.counts",fmt("verify (algorithm %d) reports %llu buckets with %d spills, true value is %llu",v.algorithm,(unsigned long long)v.hist[k],k,(unsigned long long)d.hist[k]));
#undef CK
  }
  void do_audit(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_CLOSED||!s.exist||s.uncertain||s.rekey) return; check_files(o.s,"close"); if(P.flags&PF_NOSCANVERIFY) return; if(rel("ver.")||rel("rec.")){ bool q=fs.quiet; fs.quiet=true; Op v=o; v.af=-1; v.a=0; do_verify(v); v.a=1u<<20; do_verify(v); fs.quiet=q; } if(rel("vis.")){ bool q=fs.quiet; fs.quiet=true; Op v=o; v.af=-1; v.a=0; do_visit(v); fs.quiet=q; } }
  void do_props(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN) return; enter(s); sut_props p; call(PH_CLIENT,nullptr,[&](sut_err*){ sut_get_props(s.h,&p); }); if(!p.open||p.appnum!=s.c.appnum||p.key_size!=s.c.ks||p.block_size!=s.c.bs||s.dp!=p.dat||s.kp!=p.key||s.lp!=p.log) V("cre.props","an open store reports wrong properties"); leave(s); }
  void do_encode(const Op&o){ StoreM&s=S[o.s]; if(s.exist||s.st!=ST_CLOSED) return; EncCfg c{s.c.ks,s.c.bs,s.c.lf,s.c.appnum,s.c.uid,s.c.salt,s.c.hasher,std::max<u64>(1,o.b),mix2(P.seed,o.id),o.c!=0,s.c.gap}; if(s.c.gap){ fs.gap[o.s]=s.c.gap; g_stats.add("probe.data_file_with_hole"); } if(c.lf>65535) c.lf=65535; std::vector<std::pair<Bytes,Bytes>> kv; u32 n=std::min<u32>(o.n,s.c.nkeys); for(u32 k=0;k<n;k++){ u32 id=o.id+k; u32 sz=1+mix3(P.seed,id,5)%std::max<u64>(1,o.a); idinfo[id]={k,sz}; kv.push_back({key(s,k),val(id,sz)}); s.base[k]=id; } Bytes d,k; encode_db(c,kv,d,k); fs.put(s.dp,d); fs.put(s.kp,k); s.exist=true; fs.committed_size[o.s]=d.size(); g_stats.add("op.encode"); DbInfo x; std::string err; dec_gap=s.c.gap; bool dok=dec_db(d,k,s.c.hasher,x,err); dec_gap=0; if(!dok) { fprintf(stderr,"encoder broken: %s\n",err.c_str()); abort(); } if(x.spill_count) g_stats.add("probe.encoded_spills"); }
  void do_burst(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN) return; enter(s); call(PH_CLIENT,nullptr,[&](sut_err*){ sut_set_burst(s.h,o.a); }); s.burst=o.a; if(!s.ses.a.empty()) s.ses.burst_changed=true; leave(s); }
  // contexts
  void ctx_setup(){ int m=era->ctx&15; ctx=nullptr; ctx_threads=false; if(m==0){ ctx_threads=true; ctx_since=0; return; } { SutScope in; ctx=sut_ctx_new(); } if(m==1||m==3){ /* mode 4: served by threads of the application only */ sut_err e=call(PH_CTX,nullptr,[&](sut_err*e){ sut_ctx_start(ctx,e); }); if(e.cls) V("err.exception","context start threw"); ctx_threads=true; ctx_since=W->now; } }
  void do_ctxstart(const Op&){ if(!ctx||(era->ctx&15)==2) return; nstart++; starting++; u64 ns=nstop; bool st0=stopping; sut_err e=call(PH_CTX,nullptr,[&](sut_err*e){ sut_ctx_start(ctx,e); }); starting--; if(e.cls) V("err.exception","context start threw"); if(!st0&&ns==nstop){ ctx_threads=true; ctx_since=W->now; } g_stats.add("op.ctx_start"); }
  void do_ctxstop(const Op&){ if(!ctx) return; std::vector<std::pair<int,u64>> in; for(size_t i=0;i<T.size();i++) if(T[i].in_run&&T[i].enter+20000000<W->now) in.push_back({(int)i,T[i].enter}); ctx_threads=false; nstop++; if(stopping) g_stats.add("probe.concurrent_stop"); stopping++; bool st0=starting; u64 ns=nstart; sut_err e=call(PH_CTX,nullptr,[&](sut_err*e){ sut_ctx_stop(ctx,e); }); stopping--; if(e.cls) V("err.exception","context stop threw"); g_stats.add("op.ctx_stop"); if(st0||ns!=nstart){ if(W->now) ctx_threads=false; return; } int lib=0; for(Fiber*f:W->fibers) if(f->sut_thread&&f->st!=F_DONE) lib++; if((era->ctx&15)!=0&&lib&&P.sched.stall_ppm==0) V("ctx.left",fmt("%d library threads still running after the context was stopped",lib));
    if(P.sched.stall_ppm==0&&!in.empty()){ sleep_for(20000000); for(auto&i:in) if(T[i.first].in_run&&T[i.first].enter==i.second) V("ctx.left","a thread serving the context was still in run() after stop_all had returned"); } }
  void do_ctxrun(const Op&,int t){ if(!ctx) return; ThreadSt&x=T[t]; x.enter=W->now; x.in_run=true; g_stats.add("op.ctx_run"); sut_err e=call(PH_BG,nullptr,[&](sut_err*e){ sut_ctx_run(ctx,e); }); T[t].in_run=false; if(e.cls) V("err.exception","context run threw"); }
  struct TArg { Exec*x; int t; };
  static void* tmain(void*p){ TArg a=*(TArg*)p; delete (TArg*)p; const std::vector<Op>& l=a.x->era->thr[a.t]; for(size_t i=0;i<l.size();i++) a.x->do_op(l[i],a.t); a.x->T[a.t].done=true; return nullptr; }
  void do_spawn(const Op&o){ size_t t=o.a; if(t>=era->thr.size()||T[t].f) return; for(auto&x:era->thr[t]) if(x.t==OP_CTXRUN) T[t].server=true; if(!T[t].server) nclients++; T[t].f=spawn(tmain,new TArg{this,(int)t},false); point(0x9A); }
  void do_join(const Op&){ for(auto&x:T) if(x.f&&!x.server&&x.f->id!=cur()->id) join_fiber(x.f); }
  void do_leakmark(const Op&o){ if(o.a==0){ leak_blocks=heap_live_blocks(); leak_bytes=heap_live_bytes(); leak_id=heap_next_id(); leak_set=true; } else if(leak_set){ if(heap_live_blocks()!=leak_blocks||heap_live_bytes()!=leak_bytes) V("leak.memory",fmt("%lld blocks, %lld bytes not released:",(long long)(heap_live_blocks()-leak_blocks),(long long)(heap_live_bytes()-leak_bytes))+heap_live_summary(leak_id)); g_stats.add("leak_checks"); } }
  void do_bgalloc(const Op&o){ if(g_alloc_arm) return; alloc_arm(-2,o.a,1); bg_alloc_armed=true; for(auto&s:S) s.ses.bgalloc=true; }
#include "exec_misc.inc"
#include "exec_cli.inc"
  void do_op(const Op&o,int t){ if(o.s>=nstores()) return; if(o.t<0||o.t>=OP_NOPS) return;
    switch(o.t){ case OP_CREATE: do_create(o); break; case OP_OPEN: do_open(o); break; case OP_CLOSE: do_close(o); break; case OP_INSERT: do_insert(o); break; case OP_FETCH: do_fetch(o); break; case OP_FLUSH: do_flush(o); break; case OP_BURST: do_burst(o); break; case OP_SLEEP: settle(o); break; case OP_CTXSTART: do_ctxstart(o); break; case OP_CTXSTOP: do_ctxstop(o); break; case OP_CTXRUN: if(t>=0) do_ctxrun(o,t); break;
      case OP_RECOVER: do_recover(o); break; case OP_VERIFY: do_verify(o); break; case OP_REKEY: do_rekey(o); break; case OP_VISIT: do_visit(o); break; case OP_SPAWN: if(t<0) do_spawn(o); break; case OP_JOIN: if(t<0) do_join(o); break; case OP_AUDIT: do_audit(o); break; case OP_CRASH: crash_now(); break; case OP_DESTROY: do_destroy(o); break;
      case OP_SCAN: do_scan(o); break; case OP_DAMAGE: do_damage(o); break; case OP_CREATE2: do_create2(o); break; case OP_ENCODE: do_encode(o); break; case OP_PROPS: do_props(o); break; case OP_REUSE: do_leakmark(o); break; case OP_BGALLOC: do_bgalloc(o); break; case OP_CLI: do_cli(o); break; } }
  void do_scan(const Op&o){ StoreM&s=S[o.s]; if(s.st!=ST_OPEN) return; for(u32 k=0;k<s.c.nkeys;k++){ Op f=o; f.t=OP_FETCH; f.k=k; f.af=-1; do_fetch(f); if(s.st!=ST_OPEN) return; } }
  void end_era(){ Op o; o.af=-1; do_join(o); for(int i=0;i<nstores();i++){ o.s=i; o.t=OP_CLOSE; if(S[i].st==ST_OPEN) do_close(o); } for(int i=0;i<nstores();i++){ o.s=i; o.t=OP_DESTROY; if(S[i].h) do_destroy(o); }
    if(ctx){ for(int r=0;;r++){ do_ctxstop(o); bool any=false; for(auto&x:T) if(x.f&&x.server&&!x.done) any=true; if(!any) break; bool in=false; for(auto&x:T) if(x.f&&x.server&&x.in_run) in=true; if(!in) r=0; sleep_for(20000000); if(r>200) V("ctx.left","server threads do not end"); } for(auto&x:T) if(x.f&&x.server) join_fiber(x.f); sut_err e=call(PH_CTX,nullptr,[&](sut_err*e){ sut_ctx_delete(ctx,e); }); if(e.cls) V("ctx.delete",fmt("deleting the context threw: %s",e.msg)); ctx=nullptr; }
    int live=0; for(Fiber*f:W->fibers) if(f->sut_thread&&f->st!=F_DONE) live++; if(live) V("leak.thread",fmt("%d library threads still alive at the end",live)); poll_dat(); }
  static void era_main(void*p){ Exec*x=(Exec*)p; x->ctx_setup(); const std::vector<Op>&l=x->era->main; for(size_t i=0;i<l.size();i++) x->do_op(l[i],-1); x->end_era(); }
  // ---- reference recovery on a copy of the disk ----
  struct RefArg { Exec*x; int s; std::map<u32,u32> out; bool ok; };
  static void ref_main(void*p){ RefArg*r=(RefArg*)p; StoreM&s=r->x->S[r->s]; sut_err e=r->x->call(PH_RECOVER,nullptr,[&](sut_err*e){ sut_recover(s.c.hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),e); }); r->ok=e.cls==E_OK; }
  void reference(int i){ StoreM&s=S[i]; Fs saved=fs; fs=saved.clone(); fs.quiet=true; fs.faults.clear(); fs.crash_on=false; RefArg r{this,i,{},false}; World w; w.sc.mode=2; w.step_limit=20000000; w.time_limit=3600*SEC; Outcome o=run_world(w,ref_main,&r); W=nullptr; if(o==O_DONE&&r.ok){ DbInfo d; std::string err; dec_gap=gap(i); bool dok=dec_db(content(s.dp),content(s.kp),s.c.hasher,d,err,s.legacy_spills); dec_gap=0; if(dok){ s.ref.clear(); s.has_ref=true; std::map<Bytes,u32> kk; for(u32 k=0;k<s.c.nkeys;k++) kk[key(s,k)]=k; for(auto&rc:d.d.recs){ auto it=kk.find(rc.key); if(it==kk.end()){ s.has_ref=false; break; } u32 id=identify(s,it->second,rc.val,&s.unc); s.ref[it->second]=id; } } } fs=saved; }
  void run_era(int n,const Era&E,const SchedCfg&sc,bool quiet,bool explicit_list){
    era_no=n; era=&E; World w; w.sc=sc; w.sc.seed=mix2(sc.seed,n+1); if(explicit_list) w.sc.mode=3; if((size_t)n<P.lists.size()&&sc.mode==3){ w.sc.list=P.lists[n]; w.sc.mode=3; } else if(sc.mode==3){ w.sc.list.clear(); }
    w.step_limit=P.step_limit; w.time_limit=P.time_limit_s*SEC; g_rnd_seed=mix2(P.seed,n+17); fs.quiet=quiet; fs.faults=quiet?std::vector<Fault>():E.faults; fs.io=P.io; fs.io.seed=mix2(P.io.seed,n); fs.crash=E.crash; fs.crash_on=!quiet&&E.crash.trig!=0; fs.mut_seen=0; fs.commits.clear(); fs.last_op_time=0; fs.commit_err.clear(); fs.commit_err_time.clear(); fs.err_by_store.clear(); fs.stall_active=false; fs.stall_from=fs.stall_to=0; fs.ord=0;
    if(fs.crash_on&&E.crash.trig==4){ w.crash_armed=true; w.crash_step=E.crash.at; } if(fs.crash_on&&E.crash.trig==5){ w.crash_armed=true; w.crash_time=E.crash.at; }
    T.assign(E.thr.size(),ThreadSt()); nclients=1; flush_active=0; flush_overlap=false; nstart=nstop=starting=stopping=0; leak_set=false; bg_alloc_armed=false; ctx=nullptr; u64 af0=g_alloc_failed; for(auto&s:S){ s.lifevc=VC(); s.usevc=VC(); s.h=nullptr; s.st=ST_CLOSED; s.users=0; s.waitq.clear(); }
    Outcome o=run_world(w,era_main,this); W_now=w.now;
    R.hash=mix3(R.hash,w.log,w.step); R.ilv=mix2(R.ilv,w.ilv); R.simtime+=w.now; R.steps+=w.step; R.points+=w.points; R.switches+=w.switches; R.rec.resize(n+1); R.rec[n]=w.rec; W=nullptr;
    if(o==O_VIOL&&bg_alloc_armed&&g_alloc_failed>af0&&w.vkind=="terminate"){ g_stats.add("probe.terminated_by_background_alloc_failure"); o=O_CRASH; }
    bool crash_end= !quiet&&E.crash.trig!=0;
    if(o==O_VIOL){ R.out=O_VIOL; R.kind=w.vkind; R.msg=w.vmsg; if(!kind_relevant(P.prop,w.vkind)){ R.kind="other:"+w.vkind; throw PlanAbandon(); } throw PlanFail{w.vkind,w.vmsg}; }
    if(o==O_LIMIT) throw PlanAbandon();
    bool mid=o==O_CRASH; if(mid) g_stats.add("crash.fired");
    if(mid){ for(auto&s:S){ if(s.ses.active){ session_end(s,false,true); } else if(s.st==ST_OPEN||s.st==ST_OPENING||s.st==ST_CLOSING){ /* nothing was inserted */ } s.h=nullptr; s.st=ST_CLOSED; } }
    fs.kill(); if((mid||crash_end)&&E.crash.mode==CM_POWER){ for(auto&s:S) if(s.has_ref&&s.ref_kill){ s.has_ref=false; s.ref.clear(); } /* the reference was taken of state that was not yet on disk */ fs.power_loss(E.crash); if(!mid) g_stats.add("crash.after_normal_end"); }
    for(auto&s:S) if(s.creating){ s.creating=false; for(auto*p:{&s.dp,&s.kp,&s.lp}) fs.remove(*p); fs.committed_size.erase((int)(&s-&S[0])); }
    for(auto&j:fs.foreign) (void)j; fs.dat_violation.clear();
    if((mid||crash_end)&&(P.flags&PF_RECEQ)) for(int i=0;i<nstores();i++) if(S[i].exist&&S[i].uncertain&&!S[i].rekey&&!S[i].has_ref){ reference(i); S[i].ref_kill=E.crash.mode!=CM_POWER; }
    R.fshash=mix2(R.fshash,fs.hash()); }
  void audit_era(){ Era E; E.ctx=2; quiet_audit=true; u32 id=P.next_id+1000000; for(int i=0;i<nstores();i++){ StoreM&s=S[i]; if(!s.exist) continue; auto add=[&](int t,u64 a=0,u32 k=0,u32 n=0,u64 b=0,u64 c=0){ Op o; o.t=t; o.s=i; o.a=a; o.k=k; o.n=n; o.b=b; o.c=c; o.id=++id; E.main.push_back(o); };
      if(s.rekey){ add(OP_RECOVER); add(OP_REKEY,s.c.bs,s.c.lf,0,std::max<u64>(1,s.base.size()),1u<<16); add(OP_AUDIT); }
      add(OP_OPEN); add(OP_SCAN); if(!(P.flags&PF_NOAUDIT)){ u32 step=s.c.nkeys>64?s.c.nkeys/64+1:1; for(u32 k=0;k<s.c.nkeys;k+=step) add(OP_INSERT,0,k,1+mix3(P.seed,k,9)%40); add(OP_SCAN); } add(OP_CLOSE); add(OP_AUDIT); add(OP_DESTROY); }
    SchedCfg sc; sc.mode=2; std::vector<StoreM> chk; run_era((int)P.eras.size(),E,sc,true,false);
    for(int i=0;i<nstores();i++) if(S[i].exist&&S[i].rekey) V("rek.stuck",fmt("store %d: interrupted rekey could not be completed",i)); for(int i=0;i<nstores();i++) if(S[i].exist&&S[i].uncertain) V("rec.open",fmt("store %d cannot be opened any more",i)); }
  Result run(){
    g_xfile=(P.flags&PF_XFILE)?1:0; g_stats.add(P.flags&PF_XFILE?"runs_with_custom_file":"runs_with_native_file"); FS=&fs; g_check_race=rel("race"); g_check_heap=rel("heap.x"); S.resize(P.stores.size()); for(size_t i=0;i<S.size();i++){ S[i].c=P.stores[i]; const char*dir=P.flags&PF_LONGPATH?"/simfs/a-directory-with-a-long-name":"/simfs"; S[i].dp=fmt("%s/s%zu.dat",dir,i); S[i].kp=fmt("%s/s%zu.key",dir,i); S[i].lp=fmt("%s/s%zu.log",dir,i); } next_id=P.next_id; alloc_disarm();
    try { for(size_t e=0;e<P.eras.size();e++) run_era((int)e,P.eras[e],P.sched,false,false); if(P.flags&PF_EQUIV){ for(auto&kv:fs.names){ u64 h=0; for(u8 b:kv.second->data) h=(h^b)*0x100000001b3ull; results+=fmt("file %s %zu %llx\n",kv.first.c_str(),kv.second->data.size(),(unsigned long long)h); } } if(!(P.flags&PF_NOAUDIT)||1) audit_era(); R.out=O_DONE; R.kind=""; }
    catch(PlanFail&f){ R.out=O_VIOL; R.kind=f.kind; R.msg=f.msg; }
    catch(PlanAbandon&){ R.out=O_LIMIT; g_stats.add("runs_abandoned"); }
    R.hash=mix3(R.hash,fs.hash(),(u64)R.out); R.history=results; FS=nullptr; W=nullptr; return R; }
};
static Result run_once(const Plan&p,bool wh){ Exec x(p,wh); return x.run(); }
Result run_plan(const Plan&p,bool wh){
  Result r=run_once(p,wh);
  if((p.flags&PF_EQUIV)&&r.out==O_DONE){ // the same plan with every interruption removed must give the same results and the same bytes
    Plan q=p; q.io.eintr_ppm=q.io.short_ppm=0; for(auto&e:q.eras){ std::vector<Fault> keep; for(auto&f:e.faults) if(!(f.act==FA_SHORT||(f.act==FA_ERR&&f.err==EINTR))) keep.push_back(f); e.faults=keep; }
    Stats st=g_stats; Result t=run_once(q,wh); g_stats=st; g_stats.add("twin_runs"); r.hash=mix2(r.hash,t.hash);
    if(t.out==O_DONE&&t.history!=r.history){ size_t i=0; while(i<t.history.size()&&i<r.history.size()&&t.history[i]==r.history[i]) i++; size_t b=r.history.rfind('\n',i?i-1:0); b=b==std::string::npos?0:b+1; std::string a1=r.history.substr(b,r.history.find('\n',i)-b),a2=t.history.substr(b,t.history.find('\n',i)-b); r.out=O_VIOL; r.kind="eq.differs"; r.msg="result with interrupted or short transfers: "+a1+"; without: "+a2; } }
  return r; }
}
