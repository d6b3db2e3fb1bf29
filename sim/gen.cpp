// Seeded generation of plans (workload, schedule, latencies, faults, crashes) per property.
#include "plan.h"
#include <cerrno>
#include <algorithm>
#include <set>
namespace sim {
static const u64 MS=1000000ull, SEC=1000000000ull;
typedef std::vector<Op> Ops;

struct Gen {
  static const int bigrate=25;
  Plan p; Rng r; int vflavour=0; std::string prop;
  Gen(const std::string& pr,u64 seed):r(mix2(seed,0x6E6)),prop(pr){ p.prop=pr; p.seed=seed; p.sched.seed=mix2(seed,1); p.io.seed=mix2(seed,2); }
  bool one(u32 n){ return r.below(n)==0; }
  bool pct(u32 n){ return r.below(100)<n; }
  template<class T> T any(std::initializer_list<T> l){ return *(l.begin()+r.below(l.size())); }
  u64 logu(u64 lo,u64 hi){ double a=__builtin_log((double)lo),b=__builtin_log((double)hi+1); u64 v=(u64)__builtin_exp(a+(b-a)*r.unit()); return v<lo?lo:v>hi?hi:v; }
  // ---- configuration ----
  StoreCfg cfg(){
    StoreCfg c; c.ks=any<u32>({1,2,4,8,8,8,8,16,20,32,32,64,100,255,300});
    c.bs=any<u32>({104,105,111,112,121,122,128,150,200,256,256,512,512,1000,4096});
    if(one(40)) c.bs=any<u32>({65535,32768,16384});
    c.lf=any<u32>({655,6554,13107,32768,32768,49152,52428,58982,65000,65535});
    c.hasher= pct(60)?0:(int)r.range(1,3);
    c.nkeys= any<u32>({4,8,12,20,32,48,64,100,160,240}); if(c.ks==1) c.nkeys=std::min<u32>(c.nkeys,200); if(c.hasher==3) c.nkeys=std::min<u32>(c.nkeys,64);
    c.appnum=any<u64>({0,1,42,UINT64_MAX,0x0123456789abcdefull}); c.uid=r.next()|1; c.salt=r.next()|1; if(one(10)) c.salt=1; return c; }
  StoreCfg small(){ StoreCfg c=cfg(); c.nkeys=std::min<u32>(c.nkeys,48); if(c.ks>64) c.ks=32; if(c.bs>1000) c.bs=256; return c; }
  // data files of several gigabytes up to the largest offset the format can express
  u64 hole(){ u64 b=1ull<<any<int>({31,32,32,33,40,47}); switch(r.below(4)){ case 0: return b; case 1: return b+r.below(1u<<20); default: { u64 d=92+r.below(12000); return b-d; } } }
  void stores(int n,bool sm=false){ for(int i=0;i<n;i++) p.stores.push_back(sm?small():cfg()); static const std::set<std::string> big{"C01","C02","C03","C04","C05","C06","C07","C10","C18","C20","C21"}; if(big.count(prop)&&one(10)) for(auto&c:p.stores) c.gap=hole(); vflavour=(int)r.below(5); }
  void sched(bool conc){
    SchedCfg&s=p.sched; u32 k=(u32)r.below(10);
    if(!conc){ s.mode= k<6?2:0; s.mem_mean=0; s.sync_pct=k<8?5:40; return; }
    if(k<6){ s.mode=0; s.mem_mean=any<u32>({0,0,0,15,60,300,1500}); s.sync_pct=any<u32>({3,10,30,70}); }
    else if(k<9){ s.mode=1; s.pct_depth=(u32)r.range(1,6); s.pct_len=(u32)logu(2000,600000); }
    else s.mode=2;
    if(pct(25)) s.spurious_ppm=any<u32>({20000,200000}); }
  void stalls(){ p.sched.stall_ppm=(u32)logu(50,3000); }
  void io(){ IoCfg&i=p.io; u32 k=(u32)r.below(10); if(k<4) return; if(k<7){ i.lat_base_us=1; i.lat_jit_us=(u32)logu(10,2000); i.sync_us=(u32)logu(10,20000); } else if(k<9){ i.lat_base_us=(u32)logu(1,200); i.lat_jit_us=0; i.sync_us=(u32)logu(100,8000); } else { i.lat_base_us=100; i.lat_jit_us=(u32)logu(1000,20000); i.sync_us=(u32)logu(10000,200000); }
    if(pct(30)) i.chunk=any<u32>({16,64,512,512,4096}); }
  u32 vsize(){ if(one(150)) return any<u32>({127,128,255,256,257,32767,32768,65535,65536,65537,131072}); switch(vflavour){ case 0: return (u32)r.range(1,40); case 1: return any<u32>({1,2,7,16,100,250,600}); case 2: return (u32)logu(1,3000); case 3: return one(12)?(u32)logu(4000,60000):(u32)r.range(1,200); default: return one(60)?(u32)logu(100000,300000):(u32)logu(1,1500); } }
  // ---- operations ----
  Op mk(int t,int s=0,u32 k=0,u32 n=0,u64 a=0){ Op o; o.t=t; o.s=s; o.k=k; o.n=n; o.a=a; o.id=p.next_id++; return o; }
  u32 key(int s){ u32 n=p.stores[s].nkeys; return (u32)(one(3)? r.below(std::min<u32>(n,6)):r.below(n)); }
  Op ins(int s){ return mk(OP_INSERT,s,key(s),vsize()); }
  Op ins(int s,u32 k){ return mk(OP_INSERT,s,k,vsize()); }
  Op fet(int s){ Op o=mk(OP_FETCH,s,key(s)); if(s+1<(int)p.stores.size()&&one(6)){ int q=(int)r.range(s+1,p.stores.size()-1); o.b=q+1; o.c=key(q); } return o; }
  Op slp(u64 ns){ return mk(OP_SLEEP,0,0,0,ns); }
  u64 nap(){ u32 k=(u32)r.below(20); return k<10? logu(1000,2000000): k<16? logu(2*MS,200*MS): k<19? 900*MS+r.below(300*MS): SEC+r.below(2*SEC); }
  struct Mix { int ins=50,fet=35,nap=8,flush=0,verify=0; };
  void mixed(Ops&v,int n,const std::vector<int>&st,Mix m){ for(int i=0;i<n;i++){ int s=st[r.below(st.size())]; int k=(int)r.below(m.ins+m.fet+m.nap+m.flush); if((k-=m.ins)<0) v.push_back(ins(s)); else if((k-=m.fet)<0) v.push_back(fet(s)); else if((k-=m.nap)<0) v.push_back(slp(nap())); else v.push_back(mk(OP_FLUSH)); } }
  std::vector<int> all(){ std::vector<int> v; for(size_t i=0;i<p.stores.size();i++) v.push_back((int)i); return v; }
  int ctxmode(){ return any<int>({0,0,1,1,2,2,3}); }
  void server(Era&e,int n){ for(int i=0;i<n;i++){ Ops v; v.push_back(mk(OP_CTXRUN)); e.thr.push_back(v); e.main.push_back(mk(OP_SPAWN,0,0,0,e.thr.size()-1)); } }
  // start of the history of a store: created, or written by the independent encoder
  void birth(Era&e,int s,u32 encpct=25){ if(pct(encpct)||p.stores[s].gap){ u32 n=(u32)r.range(0,p.stores[s].nkeys*3/4); Op o=mk(OP_ENCODE,s,0,n,any<u64>({1,20,100,400})); o.b=logu(1,1+n); o.c=pct(50); p.next_id+=n+2; e.main.push_back(o); } else e.main.push_back(mk(OP_CREATE,s)); }
  // one session: open everything, run client threads, optionally close
  void session(Era&e,int nthr,int nops,bool close,Mix m){
    auto st=all(); if((e.ctx&15)==2&&!m.flush) m.flush=6; else if((e.ctx&15)!=2) m.flush=0;
    for(int s:st){ e.main.push_back(mk(OP_OPEN,s)); if(one(8)) e.main.push_back(mk(OP_BURST,s,0,0,logu(1000,4u<<20))); if(one(8)) e.main.push_back(mk(OP_PROPS,s)); }
    if((e.ctx&15)==3) server(e,(int)r.range(1,2)); else if((e.ctx&15)==1&&one(6)) server(e,1);
    size_t t0=e.thr.size(); for(int t=0;t<nthr;t++){ Ops v; if(one(3)) v.push_back(slp(logu(1000,50*MS))); mixed(v,nops,st,m); if(one(16)) for(int q=(int)r.range(1,3);q>0;q--) v.insert(v.begin()+r.below(v.size()+1),mk(OP_BURST,st[r.below(st.size())],0,0,logu(1000,4u<<20))); e.thr.push_back(v); }
    for(int t=0;t<nthr;t++) e.main.push_back(mk(OP_SPAWN,0,0,0,t0+t));
    mixed(e.main,nthr?nops/2:nops,st,m);
    if(nthr&&(close||pct(80))) e.main.push_back(mk(OP_JOIN));
    if(close) for(int s:st){ if(one(5)) e.main.push_back(mk(OP_SCAN,s)); e.main.push_back(mk(one(8)?OP_DESTROY:OP_CLOSE,s)); } }
  int threads(){ return any<int>({0,0,1,2,2,3,4}); }
  Mix mix(){ Mix m; switch(r.below(4)){ case 0: m={80,10,6,0,0}; break; case 1: m={30,60,6,0,0}; break; case 2: m={50,35,15,0,0}; break; default: break; } return m; }
  // ---- crashes ----
  static u32 P(std::initializer_list<int> l){ u32 m=0; for(int x:l) m|=1u<<x; return m; }
  CrashSpec crash(int phase,u64 maxk,bool timed=true){ CrashSpec c; c.mode=pct(75)?CM_POWER:CM_KILL; c.phase=phase; c.seed=r.next(); c.style=any<int>({0,0,0,0,1,2,3}); u32 k=(u32)r.below(10);
    if(k<(timed?8u:10u)){ c.trig=(int)r.range(1,3); c.at= pct(50)? r.below(std::min<u64>(maxk,14)) : logu(1,maxk)-1; } else if(k<9){ c.trig=5; c.at=logu(MS,5*SEC); } else { c.trig=4; c.at=logu(200,400000); } return c; }
  Fault flt(int op,int roles,int phase,u32 nth,u32 count,int act,int err,u64 arg=0,int store=-1){ Fault f; f.op=op; f.roles=roles; f.phase=phase; f.nth=nth; f.count=count; f.act=act; f.err=err; f.arg=arg; f.store=store; return f; }
  Fault wfault(int phase){ // write side fault
    int op=any<int>({FS_WRITE,FS_WRITE,FS_WRITE,FS_SYNC,FS_SYNC,FS_TRUNC}); int roles=any<int>({7,7,R_DAT,R_KEY,R_LOG}); if(op==FS_TRUNC) roles=any<int>({7,R_LOG}); u32 nth=(u32)(pct(60)?r.below(5):logu(1,80)-1); u32 cnt=any<u32>({1,1,1,2,1000000}); int act= op==FS_WRITE&&pct(30)?FA_PARTIAL_ERR:FA_ERR; int err=any<int>({EIO,EIO,ENOSPC,EDQUOT,EFBIG}); if(op!=FS_WRITE) err=any<int>({EIO,EIO,ENOSPC}); return flt(op,roles,phase,nth,cnt,act,err,r.next()>>20); }
  Fault rfault(int phase,int roles=7){ int act=pct(80)?FA_ERR:FA_EOF; return flt(FS_READ,roles&any<int>({7,7,R_DAT,R_KEY}) ? roles&any<int>({7,R_DAT,R_KEY}):roles,phase,(u32)(pct(60)?r.below(4):logu(1,60)-1),any<u32>({1,1,1,2,5,1000000}),act,any<int>({EIO,EIO,EIO,ESTALE,ENOMEM})); }
  Era& era(int ctx=-1){ p.eras.emplace_back(); Era&e=p.eras.back(); e.ctx=ctx<0?ctxmode():ctx; return e; }
  int sessions_n(int lo,int hi){ return (int)r.range(lo,hi); }
  // ================= properties =================
  void c01(){ stores(any<int>({1,1,1,2}),pct(50)); sched(true); io(); Era&e=era(); for(int s:all()) birth(e,s); int n=sessions_n(1,3); for(int i=0;i<n;i++){ Mix m=mix(); session(e,(int)r.range(1,5),(int)logu(5,60),true,m); } if(one(10)) stalls(); }
  void c02(){ if(one(bigrate)){ bigcommit(false); return; } stores(any<int>({1,1,2}),pct(60)); sched(pct(60)); io(); int n=sessions_n(1,3); for(int i=0;i<n;i++){ Era&e=era(any<int>({0,1,2,2,2})); if(!i) for(int s:all()) birth(e,s); int k=sessions_n(1,2); for(int j=0;j<k;j++){ Mix m=mix(); if((e.ctx&15)==2) m.flush=15; session(e,pct(50)?0:(int)r.range(1,3),(int)logu(4,50),j+1<k||pct(60),m); }
      e.crash=crash(-1,60); if(pct(45)){ e.crash.trig=1; e.crash.at=1u<<30; e.crash.mode=CM_POWER; } } }
  void c03(){ if(one(bigrate)){ bigcommit(false); return; } stores(1,pct(60)); if(one(12)) p.stores.push_back(small()); sched(pct(60)); io(); int n=sessions_n(1,4); for(int i=0;i<n;i++){ Era&e=era(); if(!i){ birth(e,0); if(p.stores.size()>1) birth(e,1); } int k=sessions_n(1,2); for(int j=0;j<k;j++){ session(e,pct(40)?0:(int)r.range(1,3),(int)logu(4,60),j+1<k||pct(50),mix()); if(one(4)) e.main.push_back(slp(SEC+r.below(SEC))); }
      e.crash=crash(any<int>({-1,-1,(int)P({PH_BG,PH_CLOSE,PH_FLUSH}),(int)P({PH_BG,PH_FLUSH,PH_CLOSE}),(int)P({PH_OPEN})}),40); if(e.crash.phase==(int)P({PH_OPEN})) e.crash.at=r.below(10); if(i+1<n&&one(3)){ Era&f=era(0); f.main.push_back(mk(any<int>({OP_RECOVER,OP_OPEN}))); f.crash=crash(-1,10,false); f.crash.at=r.below(9); } } }
  // a commit of thousands of buckets: its log is larger than the buffer it is written through and than the one recovery reads it through
  void bigcommit(bool receq){ StoreCfg c=small(); c.ks=any<u32>({4,8,16}); bool tiny=pct(60); c.bs=tiny?any<u32>({104,104,105,112,122}):any<u32>({256,512,600,1000,1000,4096}); c.hasher=0; c.lf=any<u32>({52428,58982,65000,65535,65535}); c.nkeys=(u32)(one(5)?r.range(4000,9000):r.range(11000,24000)); p.stores.push_back(c); sched(false); p.sched.mode=2; p.sched.mem_mean=0; p.sched.sync_pct=5; if(receq) p.flags|=PF_RECEQ; Era&e=era(any<int>({0,2}));
    u32 n=c.nkeys*(u32)r.range(60,80)/100,m=(u32)(tiny?logu(1200,c.nkeys-n):logu(300,2000)); if(!tiny&&m>c.nkeys-n) m=c.nkeys-n; { Op o=mk(OP_ENCODE,0,0,n,any<u64>({1,10,30})); u32 cap=(c.bs-8)/18; o.b=std::max<u32>(1,n*100/(cap*(u32)r.range(60,105))); o.c=pct(50); p.next_id+=n+2; e.main.push_back(o); }
    e.main.push_back(mk(OP_OPEN)); for(u32 i=0;i<m;i++) e.main.push_back(mk(OP_INSERT,0,n+i,(u32)r.range(1,12))); if(e.ctx==2) e.main.push_back(mk(OP_FLUSH)); if(e.ctx==2&&one(2)) for(u32 i=m;i<m+20&&n+i<c.nkeys;i++) e.main.push_back(mk(OP_INSERT,0,n+i,3)); e.main.push_back(mk(OP_CLOSE));
    u32 k=(u32)r.below(8); int ph=(int)P({PH_BG,PH_FLUSH,PH_CLOSE}); if(prop=="C05"||(k==0&&!receq)){ Fault f=wfault(ph); f.nth=pct(50)?(u32)logu(1,3000):f.nth; e.faults.push_back(f); e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_SCAN)); e.main.push_back(mk(OP_CLOSE)); } else if(k>1){ e.crash=crash(ph,4000,false); if(one(2)) e.crash.at=r.below(3000); }
    int q=sessions_n(0,2); for(int i=0;i<q;i++){ Era&f=era(0); f.main.push_back(mk(OP_RECOVER)); if(one(3)) f.main.push_back(mk(OP_VERIFY)); if(pct(60)){ f.crash=crash((int)P({PH_RECOVER,PH_OPEN}),3000,false); } else if(one(3)){ Fault x=pct(60)?wfault((int)P({PH_RECOVER,PH_OPEN})):rfault((int)P({PH_RECOVER,PH_OPEN})); if(x.count>5) x.count=2; f.faults.push_back(x); } } }
  void c04(){ if(one(bigrate)){ bigcommit(true); return; } stores(1,pct(70)); sched(pct(40)); io(); p.flags|=PF_RECEQ; Era&e=era(any<int>({0,1,2})); birth(e,0); if(pct(50)) session(e,0,(int)logu(4,40),true,mix()); bool clean=one(6); session(e,pct(60)?0:2,(int)logu(4,60),clean||pct(70),{85,8,5,4,0}); 
    if(!clean) e.crash=crash((int)P({PH_BG,PH_CLOSE,PH_FLUSH}),30,false);
    int n=sessions_n(1,4); for(int i=0;i<n;i++){ Era&f=era(0); int k=sessions_n(1,3); for(int j=0;j<k;j++) f.main.push_back(mk(OP_RECOVER)); if(one(3)) f.main.push_back(mk(OP_OPEN)); u32 kind=(u32)r.below(4);
      if(kind<2){ f.crash=crash((int)P({PH_RECOVER,PH_OPEN}),10,false); f.crash.at=r.below(10); } else if(kind==2){ int nf=sessions_n(1,2); for(int q=0;q<nf;q++){ int ph=(int)P({PH_RECOVER,PH_OPEN}); Fault x= pct(60)? wfault(ph):rfault(ph); if(x.count>5) x.count=2; x.nth=(u32)r.below(8); if(one(4)){ x.op=any<int>({FS_OPEN,FS_STAT,FS_UNLINK,FS_ADVISE}); x.act=FA_ERR; x.err=EIO; x.roles=7; x.nth=(u32)r.below(4); x.count=1; } f.faults.push_back(x); } } }
    if(pct(50)){ Era&f=era(0); f.main.push_back(mk(OP_RECOVER)); f.main.push_back(mk(OP_RECOVER)); f.main.push_back(mk(OP_VERIFY)); } }
  void c05(){ if(one(bigrate)){ bigcommit(false); return; } stores(1,pct(60)); sched(pct(60)); io(); int n=sessions_n(1,2); int ph=(int)P({PH_BG,PH_CLOSE,PH_FLUSH}); bool cap=one(5);
    for(int i=0;i<n;i++){ Era&e=era(); if(!i) birth(e,0); if(!i&&pct(60)){ session(e,0,(int)logu(4,40),true,mix()); }
      int nf=sessions_n(1,2); if(!cap) for(int q=0;q<nf;q++) e.faults.push_back(wfault(ph)); else p.io.disk_cap=logu(400,60000);
      Mix m=mix(); m.nap=12; session(e,pct(40)?0:(int)r.range(1,3),(int)logu(6,50),false,m); for(int q=sessions_n(0,3);q--;){ e.main.push_back(slp(any<u64>({100*MS,1200*MS,2500*MS,4*SEC}))); mixed(e.main,(int)r.range(1,6),all(),m); if((e.ctx&15)==2&&pct(60)) e.main.push_back(mk(OP_FLUSH)); }
      e.main.push_back(mk(OP_JOIN)); e.main.push_back(mk(one(6)?OP_DESTROY:OP_CLOSE)); if(pct(50)) session(e,0,(int)r.range(2,12),true,mix()); if(one(4)) e.crash=crash(-1,60); } }
  void c06(){ bool eq=pct(40); stores(1,pct(70)); sched(eq?false:pct(50)); io(); p.flags|=PF_NOERR; if(eq){ p.flags|=PF_EQUIV; p.sched.mode=2; p.io.lat_base_us=p.io.lat_jit_us=p.io.sync_us=0; p.io.chunk=0; }
    p.io.eintr_ppm=any<u32>({0,1000,30000,200000,500000}); p.io.short_ppm=any<u32>({0,1000,30000,200000,800000}); if(!p.io.eintr_ppm&&!p.io.short_ppm) p.io.eintr_ppm=p.io.short_ppm=100000; if(eq&&p.stores[0].nkeys>60) p.stores[0].nkeys=60;
    Era&e=era(eq?2:ctxmode()); birth(e,0,15); int n=sessions_n(1,2); for(int i=0;i<n;i++) session(e,eq||pct(40)?0:(int)r.range(1,3),(int)logu(4,40),true,mix());
    if(pct(40)) e.main.push_back(mk(OP_VERIFY,0,0,0,any<u64>({0,1,5000,1u<<20}))); if(pct(40)) e.main.push_back(mk(OP_VISIT)); if(pct(40)) e.main.push_back(mk(OP_RECOVER)); if(pct(30)) rekey_op(e,0);
    if(!eq&&pct(40)){ e.crash=crash((int)P({PH_BG,PH_CLOSE,PH_FLUSH}),40,false); Era&f=era(0); if(pct(50)) f.main.push_back(mk(OP_RECOVER)); f.main.push_back(mk(OP_OPEN)); f.main.push_back(mk(OP_SCAN)); mixed(f.main,5,all(),mix()); f.main.push_back(mk(OP_CLOSE)); } }
  void c07(){ stores(1,pct(60)); sched(pct(60)); io(); Era&e=era(); birth(e,0,60); int n=sessions_n(1,3); for(int i=0;i<n;i++) session(e,pct(40)?0:(int)r.range(1,4),(int)logu(6,60),true,{40,50,8,0,0}); int nf=sessions_n(1,4); for(int q=0;q<nf;q++){ Fault f=rfault((int)P({PH_CLIENT})); if(f.count>5) f.count=(u32)r.range(5,60); e.faults.push_back(f); } }
  // commits that take longer than the interval between them: several stores due at the same time, stores joining and leaving
  void c08slow(){ stores((int)r.range(2,6),true); sched(one(3)); p.sched.spurious_ppm=0; p.flags|=PF_BGBOUND; vflavour=(int)r.below(2); p.io.sync_us=(u32)logu(100000,400000); p.io.lat_base_us=1; p.io.lat_jit_us=20; int n=(int)p.stores.size(); Era&e=era(any<int>({1,3,3,3})); for(int s:all()) birth(e,s,10);
    for(int s:all()) e.main.push_back(mk(OP_OPEN,s)); if(e.ctx==3) server(e,(int)r.range(1,3)); u64 per=8ull*p.io.sync_us*1000+100*MS;
    int movers=(int)r.below(3); for(int q=0;q<movers;q++){ Ops v; for(int k=0;k<5;k++){ int s=(int)r.below(n); v.push_back(slp(logu(10*MS,3*SEC))); v.push_back(mk(OP_CLOSE,s)); v.push_back(slp(one(2)?nap():logu(10*MS,3*SEC))); v.push_back(mk(OP_OPEN,s)); if(one(2)) v.push_back(ins(s)); } e.thr.push_back(v); e.main.push_back(mk(OP_SPAWN,0,0,0,e.thr.size()-1)); }
    for(int k=0;k<12;k++){ int m=(int)r.below(n+1); for(int q=0;q<m;q++) e.main.push_back(ins((int)r.below(n))); e.main.push_back(slp(logu(50*MS,3*SEC))); }
    p.bound_ns=2*SEC+250*MS+(u64)n*2*per; e.main.push_back(slp(p.bound_ns+5*SEC)); e.crash.mode=CM_POWER; e.crash.phase=-1; e.crash.trig=5; e.crash.at=p.bound_ns+r.below(20*SEC); e.crash.seed=r.next(); e.crash.style=any<int>({0,1,1,1,3}); }
  void c08(){ stores(any<int>({1,1,2,3,4}),true); sched(true); int ctx=any<int>({0,1,1,3}); p.flags|=PF_BGBOUND; u32 l=(u32)r.below(3); if(one(5)){ c08slow(); return; } if(l){ p.io.lat_base_us=1; p.io.lat_jit_us=l==1?50:300; p.io.sync_us=l==1?500:5000; }
    vflavour=(int)r.below(3); Era&e=era(ctx); for(int s:all()) birth(e,s,10); session(e,(int)r.range(0,3),(int)logu(4,30),false,{60,15,25,0,0});
    if(one(3)&&(ctx==1||ctx==3)&&p.stores.size()>1){ Ops v; int s=(int)p.stores.size()-1; for(int k=0;k<3;k++){ v.push_back(slp(nap())); v.push_back(mk(OP_CLOSE,s)); v.push_back(slp(nap())); v.push_back(mk(OP_OPEN,s)); } e.thr.push_back(v); e.main.push_back(mk(OP_SPAWN,0,0,0,e.thr.size()-1)); }
    if(one(6)&&ctx==1){ e.main.push_back(mk(OP_CTXSTOP)); e.main.push_back(slp(logu(MS,SEC))); e.main.push_back(mk(OP_CTXSTART)); }
    for(int k=0;k<6;k++){ e.main.push_back(slp(500*MS+r.below(SEC))); if(pct(40)) e.main.push_back(ins((int)r.below(p.stores.size()))); }
    e.main.push_back(slp(6*SEC)); e.crash.mode=CM_POWER; e.crash.phase=-1; e.crash.trig=5; e.crash.at=200*MS+r.below(8*SEC); e.crash.seed=r.next(); e.crash.style=any<int>({0,1,1,1,3}); p.bound_ns=2*SEC+250*MS+(u64)p.stores.size()*2*(l==0?10*MS:l==1?80*MS:600*MS); if(p.sched.spurious_ppm) p.bound_ns+=50*MS; }
  // readers beside inserts that are being slowed down: a slow first commit of more than a burst, then more inserts than it carried
  void c09b(){ stores(1,true); StoreCfg&c=p.stores[0]; c.nkeys=(u32)r.range(80,300); if(c.ks==1) c.ks=2; if(c.hasher==3) c.hasher=0; sched(pct(70)); if(p.sched.mode==1) p.sched.mode=0; if(p.sched.mode==0&&p.sched.mem_mean&&p.sched.mem_mean<60) p.sched.mem_mean=300; p.flags|=PF_LATENCY; vflavour=(int)r.below(3); Era&e=era(any<int>({0,1})); birth(e,0,20); e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_BURST,0,0,0,logu(100,4000)));
    u32 next=0,n1=(u32)r.range(10,c.nkeys/3); for(;next<n1;) e.main.push_back(ins(0,next++)); e.main.push_back(e.ctx?slp(1500*MS):mk(OP_FLUSH)); u64 st=logu(50*MS,2*SEC); e.faults.push_back(flt(any<int>({FS_WRITE,FS_SYNC,FS_SYNC}),any<int>({R_DAT,R_KEY,R_LOG}),1<<PH_BG,0,1,FA_STALL,0,st)); if(e.ctx) e.main.push_back(slp(st));
    int nr=(int)r.range(1,3),nw=1; for(int t=0;t<nw;t++){ Ops v; u32 n=std::min<u32>((c.nkeys-next)/(nw-t),(u32)r.range(10,60)); for(u32 i=0;i<n;i++) v.push_back(ins(0,next++)); e.thr.push_back(v); } for(int t=0;t<nr;t++){ Ops v; int n=(int)r.range(10,60); for(int i=0;i<n;i++){ v.push_back(slp(logu(100000,20*MS))); v.push_back(fet(0)); } e.thr.push_back(v); } for(int t=0;t<nw+nr;t++) e.main.push_back(mk(OP_SPAWN,0,0,0,t)); if(!e.ctx&&one(2)){ e.main.push_back(slp(30*MS)); e.main.push_back(mk(OP_FLUSH)); } e.main.push_back(mk(OP_JOIN)); e.main.push_back(mk(OP_CLOSE)); }
  void c09(){ if(one(5)){ c09b(); return; } stores(any<int>({1,1,1,2}),true); sched(pct(70)); if(p.sched.mode==1) p.sched.mode=0; p.flags|=PF_LATENCY; vflavour=(int)r.below(3); Era&e=era(any<int>({0,1,3})); for(int s:all()) birth(e,s,40); if(p.sched.mode==0&&p.sched.mem_mean&&p.sched.mem_mean<60) p.sched.mem_mean=300; session(e,(int)r.range(1,4),(int)logu(10,40),false,{40,50,25,0,0}); for(int k=0;k<4;k++){ e.main.push_back(slp(300*MS+r.below(SEC))); mixed(e.main,5,all(),{40,50,5,0,0}); } e.main.push_back(mk(OP_JOIN)); for(int s:all()) e.main.push_back(mk(OP_CLOSE,s));
    if(one(2)) for(size_t i=0;i<e.main.size();i++) if(e.main[i].t==OP_OPEN) e.main.insert(e.main.begin()+i+1,mk(OP_BURST,e.main[i].s,0,0,logu(100,4000)));
    int nf=sessions_n(1,3); for(int q=0;q<nf;q++) e.faults.push_back(flt(any<int>({FS_WRITE,FS_WRITE,FS_SYNC,FS_SYNC,FS_TRUNC}),any<int>({7,R_DAT,R_KEY,R_LOG}),1<<PH_BG,(u32)(pct(70)?r.below(6):logu(1,40)-1),any<u32>({1,1,3,1000}),FA_STALL,0,logu(500*MS,20*SEC))); for(auto&f:e.faults) if(f.count>1) f.arg=std::min<u64>(f.arg,2*SEC); }
  void c10(){ stores(any<int>({1,2,3}),true); vflavour=(int)r.below(3); sched(true); io(); if(p.io.lat_jit_us>3000) p.io.lat_jit_us=3000; if(one(4)) stalls(); Era&e=era(any<int>({0,1,1,1,2,3,3,4})); int ctx=e.ctx; for(int s:all()) birth(e,s,15);
    if(ctx!=2&&one(4)){ // readers and writers of the same buckets while commits go on
      if(!p.io.lat_jit_us){ p.io.lat_base_us=1; p.io.lat_jit_us=(u32)logu(10,3000); } Mix m{30,70,4,0,0}; session(e,(int)r.range(2,5),(int)logu(20,120),false,m); for(int q=0;q<4;q++){ e.main.push_back(slp(700*MS+r.below(600*MS))); mixed(e.main,8,all(),m); } e.main.push_back(mk(OP_JOIN)); return; }
    auto probe=[&]{ for(int s:all()){ e.main.push_back(mk(OP_OPEN,s)); e.main.push_back(ins(s,(u32)r.below(p.stores[s].nkeys))); e.main.push_back(ins(s,(u32)r.below(p.stores[s].nkeys))); } Op o=slp(6*SEC); o.b=2; e.main.push_back(o); };
    if(ctx==3||ctx==4||(ctx==1&&one(2))){ int n=sessions_n(1,3); for(int i=0;i<n;i++){ Ops v; int k=sessions_n(1,3); for(int j=0;j<k;j++){ if(j||one(2)) v.push_back(slp(nap())); v.push_back(mk(OP_CTXRUN)); } e.thr.push_back(v); } for(int i=0;i<n;i++) e.main.push_back(mk(OP_SPAWN,0,0,0,i)); }
    size_t t0=e.thr.size(); int nt=(int)r.range(1,4); for(int t=0;t<nt;t++){ Ops v; int n=(int)logu(4,30); int own=(int)r.below(p.stores.size()); for(int i=0;i<n;i++){ u32 k=(u32)r.below(20); int s=pct(60)?own:(int)r.below(p.stores.size()); if(k<3) v.push_back(mk(OP_OPEN,s)); else if(k<5) v.push_back(mk(OP_CLOSE,s)); else if(k<6) v.push_back(mk(OP_DESTROY,s)); else if(k<12) v.push_back(ins(s)); else if(k<16) v.push_back(fet(s)); else if(k<18) v.push_back(slp(nap())); else v.push_back(mk(OP_FLUSH)); } if(one(5)) for(int q=(int)r.range(1,3);q>0;q--) v.insert(v.begin()+r.below(v.size()+1),mk(one(5)?OP_CTXSTART:OP_CTXSTOP)); e.thr.push_back(v); }
    for(int s:all()) if(pct(70)) e.main.push_back(mk(OP_OPEN,s)); for(int t=0;t<nt;t++) e.main.push_back(mk(OP_SPAWN,0,0,0,t0+t));
    int n=(int)r.range(0,8); for(int i=0;i<n;i++){ u32 k=(u32)r.below(10); if(k<3) e.main.push_back(mk(OP_CTXSTOP)); else if(k<6) e.main.push_back(mk(OP_CTXSTART)); else if(k<8) e.main.push_back(slp(nap())); else mixed(e.main,3,all(),mix()); }
    e.main.push_back(mk(OP_JOIN)); if(pct(50)) e.main.push_back(slp(nap())); if(one(3)&&ctx!=2){ int k=sessions_n(1,3); for(int q=0;q<k;q++){ if(ctx){ if(q||one(2)){ e.main.push_back(mk(OP_CTXSTOP)); if(one(2)) e.main.push_back(slp(nap())); } e.main.push_back(mk(OP_CTXSTART)); } probe(); } } else if(one(4)) e.faults.push_back(wfault((int)P({PH_BG,PH_CLOSE,PH_FLUSH}))); }
  void rekey_op(Era&e,int s){ if(one(10)){ Op q=mk(OP_REKEY,s); q.n=(u32)r.range(1,8); q.a=r.next(); e.main.push_back(q); } Op o=mk(OP_REKEY,s); StoreCfg c=cfg(); o.a=c.bs; o.k=c.lf; u32 nk=p.stores[s].nkeys; o.b=any<u64>({1,2,nk/2+1,nk,nk,nk*2ull,nk*5ull}); if(one(12)) o.b=0; o.c=any<u64>({c.bs*1ull,c.bs+1ull,c.bs*2ull,c.bs*3+5ull,c.bs*7ull,20000,1u<<20,1,0}); e.main.push_back(o); }
  void c12(){ stores(1,pct(60)); sched(pct(20)); if(pct(40)) io(); Era&e=era(any<int>({0,2})); birth(e,0,70); if(pct(60)) session(e,0,(int)logu(4,60),true,{85,5,4,4,0}); rekey_op(e,0); u32 kind=(u32)r.below(4); if(kind==0){ } else if(kind<3){ e.crash=crash(1<<PH_REKEY,30,false); if(one(4)){ e.crash.trig=1; e.crash.at=1u<<30; e.crash.mode=CM_POWER; } } else { Fault f=pct(60)?wfault(1<<PH_REKEY):rfault(1<<PH_REKEY,R_DAT|R_LOG); if(one(5)) f=flt(any<int>({FS_CREATE,FS_OPEN,FS_STAT,FS_UNLINK,FS_ADVISE}),7,1<<PH_REKEY,(u32)r.below(4),1,FA_ERR,EIO); e.faults.push_back(f); }
    if(pct(60)){ if(pct(50)) e.main.push_back(mk(OP_RECOVER)); if(pct(50)){ e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_SCAN)); mixed(e.main,4,all(),mix()); e.main.push_back(mk(OP_CLOSE)); } if(pct(30)) rekey_op(e,0); }
    int n=sessions_n(0,3); for(int i=0;i<n;i++){ Era&f=era(0); if(one(4)) f.main.push_back(mk(OP_OPEN)); f.main.push_back(mk(OP_RECOVER)); if(one(3)) f.main.push_back(mk(OP_RECOVER)); if(pct(70)) rekey_op(f,0); if(one(2)){ f.main.push_back(mk(OP_OPEN)); f.main.push_back(mk(OP_SCAN)); f.main.push_back(mk(OP_CLOSE)); } if(pct(60)){ f.crash=crash(any<int>({1<<PH_REKEY,1<<PH_RECOVER,(int)P({PH_REKEY,PH_RECOVER})}),30,false); if(f.crash.phase==1<<PH_RECOVER) f.crash.at=r.below(8); } } }
  void c13(){ stores(1,pct(50)); if(one(20)){ p.stores[0].nkeys=std::min<u32>(p.stores[0].nkeys,6); vflavour=9; } sched(false); io(); Era&e=era(2); birth(e,0,60); if(vflavour==9){ vflavour=0; e.main.push_back(mk(OP_OPEN)); for(u32 k=0;k<5;k++) e.main.push_back(mk(OP_INSERT,0,k,one(2)?(u32)logu(1u<<20,6u<<20):(u32)r.range(1,100))); e.main.push_back(mk(OP_CLOSE)); } else if(pct(60)) session(e,0,(int)logu(4,80),true,{85,5,4,4,0}); if(one(3)) rekey_op(e,0);
    int n=sessions_n(1,4); for(int i=0;i<n;i++){ u32 k=(u32)r.below(6); if(k<4) e.main.push_back(mk(OP_VISIT,0,0,0,k==0?r.range(1,p.stores[0].nkeys):0)); else { Op o=mk(OP_DAMAGE); o.a=50+(k==4?0:1); o.b=r.next(); e.main.push_back(o); } }
    if(one(3)) e.faults.push_back(rfault(1<<PH_VISIT,R_DAT)); if(one(6)) e.faults.push_back(flt(any<int>({FS_OPEN,FS_STAT,FS_ADVISE}),R_DAT,1<<PH_VISIT,0,1,FA_ERR,EIO)); if(one(4)){ p.io.short_ppm=100000; p.io.eintr_ppm=50000; } }
  void c14(){ stores(1,pct(50)); sched(false); Era&e=era(any<int>({0,2})); birth(e,0,60); if(pct(60)) session(e,0,(int)logu(4,80),true,{85,5,4,4,0}); if(one(5)) rekey_op(e,0); if(one(4)){ e.main.push_back(mk(OP_OPEN)); mixed(e.main,20,all(),{80,5,5,5,0}); e.crash=crash((int)P({PH_BG,PH_CLOSE,PH_FLUSH}),30,false); e.main.push_back(mk(OP_CLOSE)); } else { int n=sessions_n(1,5); for(int i=0;i<n;i++){ Op o; if(one(3)){ o=mk(OP_VERIFY,0,0,0,any<u64>({0,1,1,3000,20000,1u<<20})); } else { o=mk(OP_DAMAGE); o.a=one(6)?19:r.range(1,19); o.b=r.next(); } e.main.push_back(o); } if(one(4)) e.faults.push_back(rfault(1<<PH_VERIFY)); }
    if(e.crash.trig){ Era&f=era(0); f.main.push_back(mk(OP_OPEN)); f.main.push_back(mk(OP_CLOSE)); f.main.push_back(mk(OP_VERIFY,0,0,0,0)); f.main.push_back(mk(OP_VERIFY,0,0,0,any<u64>({1,20000,1u<<20}))); } }
  void c15(){ stores(1,pct(60)); sched(pct(50)); io(); u32 k=(u32)r.below(4); if(k==0){ Plan q=gen_plan("C12",p.seed); q.prop=prop; p=q; return; } if(k==1){ Plan q=gen_plan("C05",p.seed); q.prop=prop; p=q; return; } if(k==2){ Plan q=gen_plan("C04",p.seed); q.prop=prop; q.flags=0; p=q; return; } Plan q=gen_plan("C03",p.seed); q.prop=prop; p=q; }
  void c16(){ stores(1,false); sched(false); StoreCfg&c=p.stores[0]; if(one(3)){ c.ks=any<u32>({1,65535,1000}); c.bs=any<u32>({104,65535,30000,2050}); c.nkeys=4; } Era&e=era(any<int>({0,2})); int n=sessions_n(1,3); for(int i=0;i<n;i++){ Op o=mk(OP_CREATE2); o.a=r.below(32); o.b=r.next(); e.main.push_back(o); }
    u32 k=(u32)r.below(4); if(k<2){ int ph=1<<PH_CREATE; int nf=sessions_n(1,2); for(int q=0;q<nf;q++){ int op=any<int>({FS_CREATE,FS_CREATE,FS_WRITE,FS_WRITE,FS_SYNC,FS_SYNC,FS_STAT,FS_UNLINK,FS_READ,FS_ADVISE}); e.faults.push_back(flt(op,any<int>({7,R_DAT,R_KEY,R_LOG}),ph,(u32)r.below(4),any<u32>({1,1,100}),op==FS_WRITE&&pct(40)?FA_PARTIAL_ERR:FA_ERR,any<int>({EIO,ENOSPC,EACCES,EMFILE}),r.next()>>20)); } if(one(4)) p.io.disk_cap=r.range(1,500); }
    { Op o=mk(OP_CREATE); if(one(5)){ o.af=(int)r.below(8); o.afn=any<u32>({1,1,1000}); } e.main.push_back(o); if(o.af>=0||one(4)) e.main.push_back(mk(OP_CREATE)); } if(one(3)){ p.io.short_ppm=200000; p.io.eintr_ppm=100000; } if(k==3){ e.crash.trig=1; e.crash.at=1u<<30; e.crash.mode=CM_POWER; e.crash.seed=r.next(); e.crash.style=any<int>({0,1,1}); }
    if(k==2){ e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_PROPS)); mixed(e.main,10,all(),mix()); e.main.push_back(mk(OP_CLOSE)); } }
  void c17(){ stores(any<int>({1,2,2}),true); sched(false); Era&e=era(any<int>({0,1,2})); for(int s:all()) birth(e,s,40); if(pct(60)) session(e,0,(int)logu(4,30),true,{85,5,4,4,0}); int n=sessions_n(2,8); for(int i=0;i<n;i++){ Op o=mk(OP_DAMAGE,(int)r.below(p.stores.size())); o.a=100+r.below(36); o.b=r.next(); o.c=r.below(6); e.main.push_back(o); } session(e,0,6,true,mix()); }
  void c18(){ stores(any<int>({1,1,2}),false); sched(pct(30)); Era&e=era(any<int>({0,1,2,2})); for(int s:all()) birth(e,s,50); int n=sessions_n(1,3); for(int i=0;i<n;i++){ session(e,pct(70)?0:2,(int)logu(4,120),true,{85,5,4,5,0}); if(pct(50)) for(int s:all()) e.main.push_back(mk(OP_AUDIT,s)); } if(one(3)) rekey_op(e,0); if(one(3)){ e.main.push_back(mk(OP_OPEN)); mixed(e.main,30,all(),{80,5,5,5,0}); e.crash=crash((int)P({PH_BG,PH_CLOSE,PH_FLUSH}),30,false); } }
  void c19(){ stores(any<int>({1,2,2}),true); vflavour=(int)r.below(3); sched(pct(30)); if(p.sched.stall_ppm) p.sched.stall_ppm=0; p.flags|=PF_LEAK; Era&e=era(any<int>({0,1,2,2})); for(int s:all()) birth(e,s,any<int>({10,20,60}));
    auto cyc=[&](int lvl,bool destroy){ for(int s:all()){ e.main.push_back(mk(OP_OPEN,s)); } mixed(e.main,6+lvl*10,all(),{60,30,8,(e.ctx&15)==2?6:0,0}); for(int s:all()){ e.main.push_back(mk(OP_CLOSE,s)); if(lvl&&one(3)){ e.main.push_back(mk(OP_OPEN,s)); e.main.push_back(mk(OP_CLOSE,s)); } if(lvl&&one(3)){ u32 k=(u32)r.below(4); if(k==0) e.main.push_back(mk(OP_RECOVER,s)); else if(k==1) e.main.push_back(mk(OP_VERIFY,s,0,0,any<u64>({0,1,1u<<20}))); else if(k==2) e.main.push_back(mk(OP_VISIT,s,0,0,r.below(6))); else { Op o=mk(OP_DAMAGE,s); o.a=100+r.below(36); o.b=r.next(); o.c=r.below(6); e.main.push_back(o); } } } int ns=(int)p.stores.size(); if(lvl&&ns>1&&one(2)) for(int q=0;q<3;q++){ int s=(int)r.below(ns); Op o=mk(OP_OPEN,s); o.b=1+(s+1)%ns; e.main.push_back(o); if(one(2)) mixed(e.main,(int)logu(3,40),{s},{70,20,8,(e.ctx&15)==2?6:0,0}); e.main.push_back(mk(OP_SCAN,s)); e.main.push_back(mk(OP_CLOSE,s)); }
      if(destroy) for(int s:all()) e.main.push_back(mk(OP_DESTROY,s)); };
    if(p.stores.size()>1&&pct(70)){ p.stores[1].hasher=p.stores[0].hasher; if(one(2)) p.stores[r.below(2)].nkeys=(u32)r.range(80,250); }
    cyc(0,true); e.main.push_back(mk(OP_REUSE,0,0,0,0)); int n=sessions_n(1,3); for(int i=0;i<n;i++) cyc(1,one(2)); for(int s:all()) e.main.push_back(mk(OP_DESTROY,s)); e.main.push_back(mk(OP_REUSE,0,0,0,1));
    if(pct(60)){ int nf=sessions_n(1,3); for(int q=0;q<nf;q++){ u32 k=(u32)r.below(4); if(k==0) e.faults.push_back(wfault((int)P({PH_BG,PH_CLOSE,PH_FLUSH}))); else if(k==1) e.faults.push_back(rfault(-1)); else if(k==2) e.faults.push_back(flt(any<int>({FS_OPEN,FS_CREATE,FS_STAT,FS_READ,FS_ADVISE}),7,(int)P({PH_OPEN,PH_RECOVER,PH_VERIFY,PH_VISIT}),(u32)r.below(12),any<u32>({1,1,3}),FA_ERR,any<int>({EIO,EACCES,EMFILE}))); else e.faults.push_back(wfault((int)P({PH_OPEN,PH_RECOVER}))); } for(auto&f:e.faults) f.nth+=(u32)r.below(20); } }
  void c20(){ stores(1,true); vflavour=(int)r.below(4); sched(pct(50)); Era&e=era(any<int>({0,1,2,2})); birth(e,0,40); int n=sessions_n(1,3); bool bg=one(3)&&(e.ctx&15)!=2; for(int i=0;i<n;i++){ size_t from=e.main.size(); session(e,pct(60)?0:2,(int)logu(4,40),true,{50,40,8,6,0}); auto arm=[&](Ops&v,size_t f){ for(size_t j=f;j<v.size();j++){ Op&o=v[j]; if(o.t==OP_INSERT||o.t==OP_FETCH){ if(pct(15)) o.af=(int)r.below(8); } else if(o.t==OP_OPEN||o.t==OP_CLOSE||o.t==OP_FLUSH||o.t==OP_DESTROY){ if(pct(o.t==OP_FLUSH?30:15)) o.af=(int)logu(1,40)-1; } if(o.af>=0) o.afn=any<u32>({1,1,1,2,1000}); } }; if(!bg){ arm(e.main,from); for(auto&t:e.thr) arm(t,0); } }
    if(bg){ size_t pos=e.main.size()/2; Op o=mk(OP_BGALLOC); o.a=logu(1,200)-1; e.main.insert(e.main.begin()+std::min<size_t>(pos,3+r.below(10)),o); }
    else if(pct(30)){ u32 k=(u32)r.below(4); Op o=mk(k==0?OP_VERIFY:k==1?OP_VISIT:OP_RECOVER); if(k==3){ size_t z=e.main.size(); rekey_op(e,0); e.main[z].af=(int)logu(1,40)-1; e.main.push_back(mk(OP_RECOVER)); rekey_op(e,0); } else { o.af=(int)logu(1,30)-1; e.main.push_back(o); } }
    if(one(4)) e.crash=crash(-1,60); }
  void c21(){ int n=(int)r.range(2,5); stores(n,true); vflavour=(int)r.below(3); sched(pct(70)); io(); if(p.io.lat_jit_us>2000) p.io.lat_jit_us=2000; if(p.io.sync_us>5000) p.io.sync_us=5000; bool bound=pct(40); p.flags|=PF_ISOLATE; Era&e=era(bound?any<int>({1,3}):any<int>({0,1,1,1,2,2,3})); for(int s:all()) birth(e,s,20); Mix m=mix(); session(e,(int)r.range(1,4),(int)logu(6,40),false,m);
    { Ops v; for(int k=0;k<4;k++){ v.push_back(slp(nap())); v.push_back(mk(OP_CLOSE,0)); v.push_back(slp(nap())); v.push_back(mk(OP_OPEN,0)); mixed(v,3,{0},{60,30,5,0,0}); } if(pct(50)){ e.thr.push_back(v); e.main.push_back(mk(OP_SPAWN,0,0,0,e.thr.size()-1)); } }
    u32 k=(u32)r.below(4); int ph=(int)P({PH_BG,PH_FLUSH,PH_CLOSE}); if(k<2){ Fault f=wfault(ph); f.store=0; e.faults.push_back(f); } else if(k==2&&!bound){ e.faults.push_back(flt(any<int>({FS_WRITE,FS_SYNC}),7,1<<PH_BG,(u32)r.below(6),any<u32>({1,3}),FA_STALL,0,logu(100*MS,8*SEC),0)); } else { Fault f=rfault((int)P({PH_CLIENT,PH_OPEN})); f.store=0; e.faults.push_back(f); }
    for(int q=0;q<4;q++){ e.main.push_back(slp(500*MS+r.below(SEC))); mixed(e.main,4,all(),m); } 
    if(bound){ p.flags|=PF_BGBOUND; p.bound_ns=2*SEC+400*MS+(u64)n*2*(p.io.lat_base_us||p.io.lat_jit_us?(u64)(p.io.lat_base_us+p.io.lat_jit_us)*400000+(u64)p.io.sync_us*8000:10*MS); e.main.push_back(slp(3*SEC)); e.crash.trig=5; e.crash.at=200*MS+r.below(8*SEC); e.crash.mode=CM_POWER; e.crash.seed=r.next(); e.crash.style=any<int>({0,1,1}); }
    else { e.main.push_back(mk(OP_JOIN)); for(int s:all()) e.main.push_back(mk(OP_CLOSE,s)); if(one(3)) e.crash=crash(-1,80); } }
  void c22(){ stores(1,true); p.stores[0].nkeys=(u32)r.range(100,400); if(p.stores[0].ks==1) p.stores[0].ks=2; if(p.stores[0].hasher==3) p.stores[0].hasher=0; sched(pct(60)); if(p.sched.mem_mean&&p.sched.mem_mean<300) p.sched.mem_mean=300; p.flags|=PF_THROTTLE; Era&e=era(any<int>({0,1})); u32 k=(u32)r.below(4); u64 burst=0; u32 vs=0; if(one(4)){ c22b(e); return; }
    if(k==0){ io(); burst=any<u64>({4u<<20,100000,20000,4000}); } else { p.io.lat_base_us=(u32)logu(200,20000); p.io.lat_jit_us=(u32)logu(1,5000); p.io.sync_us=(u32)logu(1000,300000); burst=logu(2000,60000); }
    vs=(u32)logu(10,1200); e.main.push_back(mk(OP_CREATE)); e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_BURST,0,0,0,burst)); u32 nk=p.stores[0].nkeys,next=0; int phases=sessions_n(2,4); int nt=(int)r.range(0,3);
    for(int ph=0;ph<phases;ph++){ u32 cnt=std::min<u32>(nk-next,(u32)r.range(10,160)); bool last=ph+1==phases; if(last&&nt){ size_t t0=e.thr.size(); for(int t=0;t<nt;t++){ Ops v; for(u32 i=0;i<cnt/(nt+1);i++) v.push_back(mk(OP_INSERT,0,next++,1+(u32)r.below(2*vs))); e.thr.push_back(v); } for(int t=0;t<nt;t++) e.main.push_back(mk(OP_SPAWN,0,0,0,t0+t)); for(u32 i=0;i<cnt/(nt+1)&&next<nk;i++) e.main.push_back(mk(OP_INSERT,0,next++,1+(u32)r.below(2*vs))); e.main.push_back(mk(OP_JOIN)); }
      else { for(u32 i=0;i<cnt&&next<nk;i++){ e.main.push_back(mk(OP_INSERT,0,next++,1+(u32)r.below(2*vs))); if(one(15)) e.main.push_back(slp(logu(MS,100*MS))); } Op o=slp(ph==0?1500*MS:any<u64>({300*MS,1500*MS,40*SEC,40*SEC})); o.b=o.a>=40*SEC; e.main.push_back(o); if(o.b) for(int q=0;q<3&&next<nk;q++) e.main.push_back(mk(OP_INSERT,0,next++,1+(u32)r.below(vs))); } }
    e.main.push_back(mk(OP_CLOSE)); }
  // one slow commit, then a disk that keeps up with the inserts
  void c22b(Era&e){ p.io.lat_base_us=(u32)r.below(20); p.io.lat_jit_us=(u32)logu(1,100); p.io.sync_us=(u32)logu(10,2000); u64 burst=logu(2000,30000); u32 nk=p.stores[0].nkeys,next=0; e.main.push_back(mk(OP_CREATE)); e.main.push_back(mk(OP_OPEN)); e.main.push_back(mk(OP_BURST,0,0,0,burst)); e.faults.push_back(flt(any<int>({FS_SYNC,FS_WRITE}),any<int>({R_KEY,R_LOG,R_DAT}),1<<PH_BG,0,1,FA_STALL,0,logu(50*MS,3*SEC)));
    int ph=sessions_n(2,4); u32 vs=(u32)logu(10,1500); for(int q=0;q<ph;q++){ u32 c=std::min<u32>(nk-next,(u32)r.range(15,60)); bool paced=q>=2||one(3); u64 nap=logu(MS,30*MS); for(u32 i=0;i<c;i++){ e.main.push_back(mk(OP_INSERT,0,next++,1+(u32)r.below(2*vs))); if(paced) e.main.push_back(slp(nap)); } e.main.push_back(slp(q==0?5*SEC:one(3)?100*MS:1500*MS)); } e.main.push_back(mk(OP_CLOSE)); }
  void c23(){ static const char* const src[]={"C12","C13","C14"}; Plan q=gen_plan(src[r.below(3)],p.seed); q.prop=prop; p=q; if(p.eras.size()==1&&!p.eras[0].crash.trig){ Era&e=p.eras[0]; u32 n=(u32)r.range(1,3); for(u32 i=0;i<n;i++){ u32 k=(u32)r.below(4); if(k==0) rekey_op(e,0); else if(k==1) e.main.push_back(mk(OP_VISIT)); else e.main.push_back(mk(OP_VERIFY,0,0,0,any<u64>({0,0,1,3000,20000,1u<<20}))); } } }
  // the workloads of other properties with the tools run from the command line
  void c24(){ static const char* const src[]={"C12","C12","C13","C14","C14","C17","C04","C06"}; std::string w=src[r.below(8)]; for(u32 t=0;;t++){ Plan q=gen_plan(w,mix2(p.seed,t)); bool ok=false; for(auto&s:q.stores) if(s.hasher==0) ok=true; if(!ok&&t<8) continue; q.prop=prop; q.seed=p.seed; p=q; break; } p.flags&=~(u64)(PF_EQUIV|PF_NOERR); p.flags|=PF_CLI;
    if(one(6)){ p.io.lat_base_us=(u32)logu(20000,4000000); p.time_limit_s=4000000; } // minutes: the tool reports the time that remains
    for(size_t k=0;k<p.eras.size();k++){ Era&e=p.eras[k]; u32 n=(u32)r.below(4); for(u32 i=0;i<n;i++){ int s=(int)r.below(p.stores.size()); Op o; u32 kind=(u32)r.below(6); if(kind==0) o=mk(OP_VISIT,s); else if(kind==1) o=mk(OP_VERIFY,s,0,0,any<u64>({0,0,1,3000,20000,1u<<20})); else if(kind==2) o=mk(OP_RECOVER,s); else { o=mk(OP_CLI,s); o.a=r.below(8); } if(one(3)&&!e.main.empty()) e.main.insert(e.main.begin()+r.below(e.main.size()+1),o); else e.main.push_back(o); } } }
  void c11(){ static const char* const src[]={"C01","C01","C01","C03","C05","C05","C07","C07","C09","C10","C10","C12","C13","C14","C17","C19","C20","C21","C21","C22","C04","C06","C24"}; std::string s=src[r.below(sizeof src/sizeof*src)]; Plan q=gen_plan(s,p.seed); q.prop=prop; q.flags&=~(u64)(PF_EQUIV); if(q.sched.mode==0&&q.eras.size()&&q.eras[0].thr.size()&&one(3)) q.sched.mem_mean=any<u32>({10,40,150}); p=q; }
};
Plan gen_plan(const std::string& prop,u64 seed){ Gen g(prop,seed);
  struct { const char*n; void(Gen::*f)(); } T[]={{"C01",&Gen::c01},{"C02",&Gen::c02},{"C03",&Gen::c03},{"C04",&Gen::c04},{"C05",&Gen::c05},{"C06",&Gen::c06},{"C07",&Gen::c07},{"C08",&Gen::c08},{"C09",&Gen::c09},{"C10",&Gen::c10},{"C11",&Gen::c11},{"C12",&Gen::c12},{"C13",&Gen::c13},{"C14",&Gen::c14},{"C15",&Gen::c15},{"C16",&Gen::c16},{"C17",&Gen::c17},{"C18",&Gen::c18},{"C19",&Gen::c19},{"C20",&Gen::c20},{"C21",&Gen::c21},{"C22",&Gen::c22},{"C23",&Gen::c23},{"C24",&Gen::c24}};
  for(auto&t:T) if(prop==t.n) (g.*t.f)(); if(g.p.stores.empty()){ g.stores(1); } g.p.prop=prop; g.p.seed=seed;
  // interruptions and short transfers in some runs of every property without a bound on the time of a call
  if(prop!="C06"&&prop!="C09"&&prop!="C22"&&!g.p.io.eintr_ppm&&!g.p.io.short_ppm&&mix3(seed,7,0xE1)%7==0){ static const u32 e[]={1000,30000,150000,400000}; g.p.io.eintr_ppm=e[mix3(seed,8,0xE1)%4]; if(mix3(seed,9,0xE1)%2) g.p.io.short_ppm=e[mix3(seed,10,0xE1)%4]; }
  // values around 2^24 bytes
  { static const std::set<std::string> huge{"C01","C02","C03","C04","C05","C06","C07","C12","C13","C14","C15","C17","C18","C20","C23","C24"};
    if(huge.count(prop)&&mix3(seed,12,0xE1)%60==0){ std::vector<Op*> v; for(auto&e:g.p.eras){ for(auto&o:e.main) if(o.t==OP_INSERT) v.push_back(&o); for(auto&t:e.thr) for(auto&o:t) if(o.t==OP_INSERT) v.push_back(&o); } static const u32 z[]={(1u<<24)-1,1u<<24,(1u<<24)+1,(1u<<24)+4000,1u<<25}; if(!v.empty()) v[mix3(seed,13,0xE1)%v.size()]->n=z[mix3(seed,14,0xE1)%5]; } }
  // store objects change places: one opens the database of the other
  if(g.p.stores.size()>1&&(prop=="C19"? mix3(seed,16,0xE1)%4!=0: mix3(seed,16,0xE1)%4==0)){ u64 n=g.p.stores.size(),q=0; if(!(g.p.flags&PF_EQUIV)&&prop!="C24"&&mix3(seed,17,0xE1)%2) for(auto&s:g.p.stores) s.hasher=g.p.stores[0].hasher;
    for(auto&e:g.p.eras){ auto f=[&](Ops&v){ for(auto&o:v) if(o.t==OP_OPEN&&mix3(seed,++q,0xE2)%3==0) o.b=1+mix3(seed,q,0xE3)%n; }; f(e.main); for(auto&t:e.thr) f(t); } }
  if(mix3(seed,15,0xE1)%(prop=="C20"?2:5)==0) g.p.flags|=PF_LONGPATH;
  else if(mix3(seed,11,0xE1)%9==0) g.p.flags|=PF_XFILE; // a File type with names of its own
  return g.p; }

// Which kinds of violation belong to which property. Everything else ends the run without a verdict.
bool kind_relevant(const std::string& prop,const std::string& kind){
  static const std::map<std::string,std::vector<std::string>> M={
    {"C01",{"lin.","err.unexpected","err.exception","dur.","rec.open","cre.failed"}},
    {"C02",{"dur.","rec.open","rec.fetch","lin.lost","lin.value"}},
    {"C03",{"rec.","dur.","lin.","ver.rejects","err.unexpected","err.exception","fmt.invalid"}},
    {"C04",{"rec.","dur.","leak.log","err.swallowed","ver.rejects","fmt.invalid"}},
    {"C05",{"err.","dur.","rec.","lin."}},
    {"C06",{"err.","eq.","lin.","dur.","rec.","ver.","vis.","rek.","cre.","fmt."}},
    {"C07",{"err.swallowed","err.unexpected","err.exception","lin.","dur.","rec."}},
    {"C08",{"bg."}},
    {"C09",{"lat."}},
    {"C10",{"ctx.","leak.thread","sync."}},
    {"C11",{"race","heap.","sync."}},
    {"C12",{"rek.","dur.","rec.open","lin.lost","lin.value","lin.phantom","fmt.invalid","fmt.extra","err.swallowed","rec.fetch","ver.rejects"}},
    {"C13",{"vis.","err.swallowed","heap."}},
    {"C14",{"ver.","err.swallowed","heap."}},
    {"C15",{"dat."}},
    {"C16",{"cre.","err.swallowed","fmt.","rec.open","rec.fetch","lin.","dur.","ver.rejects"}},
    {"C17",{"ref.","heap."}},
    {"C18",{"fmt.","enc.","lin.lost","lin.value","lin.phantom","lin.double","rec.open","ver.rejects"}},
    {"C19",{"leak.","rec.open","ref.left-open","lin.lost","lin.value","lin.phantom","lin.order","rec.fetch","dur.","ver.rejects"}},
    {"C20",{"dur.","rec.","lin.","err.","rek.","alloc.","heap."}},
    {"C21",{"err.","lin.","dur.","rec.","bg.","foreign"}},
    {"C22",{"thr."}},
    {"C23",{"prg."}},
    {"C24",{"cli.","ver.","vis.","rek.","ref.","rec.recover","rec.clean-changed","rec.open","err.swallowed","dur.","fmt.","leak.fd","leak.log"}} };
  for(const char*g:{"crash.","assert","abort","terminate","deadlock","nontermination"}) if(!kind.compare(0,strlen(g),g)) return true;
  auto i=M.find(prop); if(i==M.end()) return false; for(auto&k:i->second) if(!kind.compare(0,k.size(),k)) return true; return false; }
}
