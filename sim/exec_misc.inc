  // ---- damaged and foreign files: run one tool on a modified copy of the three files, then put the real ones back ----
  struct Saved { std::string p; InoP a,b; };
  std::vector<Saved> swap_out(StoreM&s){ std::vector<Saved> v; for(auto*p:{&s.dp,&s.kp,&s.lp}){ Saved x; x.p=*p; auto i=fs.names.find(*p); if(i!=fs.names.end()) x.a=i->second; auto j=fs.durable_names.find(*p); if(j!=fs.durable_names.end()) x.b=j->second; v.push_back(x); fs.names.erase(*p); fs.durable_names.erase(*p); } return v; }
  void swap_in(std::vector<Saved>&v){ for(auto&x:v){ if(x.a) fs.names[x.p]=x.a; else fs.names.erase(x.p); if(x.b) fs.durable_names[x.p]=x.b; else fs.durable_names.erase(x.p); for(size_t i=0;i<fs.journal.size();) if(fs.journal[i].name==x.p) fs.journal.erase(fs.journal.begin()+i); else i++; if(x.a){ fs.durable_names[x.p]=x.a; } } }
  struct FileSet { bool d=true,k=true,l=false; Bytes db,kb,lb; };
  struct ToolRes { bool cli=false; sut_err e; u64 fired=0,af=0; VisCtx v; bool is_open=false; bool same=true; std::string what; sut_vinfo vi; };
  enum { TL_OPEN,TL_RECOVER,TL_VERIFY,TL_VFAST,TL_VISIT,TL_REKEY,TL_N };
  static const char* tname(int t){ static const char*const n[]={"open","recover","verify","verify (fast)","visit","rekey"}; return n[t]; }
  // runs the tool on the given files and reports what happened to them
  ToolRes run_tool(StoreM&s,int tool,const FileSet&f,int hasher,u64 buf,const Op&o){
    ToolRes r; memset(&r.e,0,sizeof r.e); memset(&r.vi,0,sizeof r.vi); r.v=VisCtx{this,{},0,0,false}; auto sv=swap_out(s); auto cs=fs.committed_size; fs.committed_size.erase(o.s);
    if(f.d) fs.put(s.dp,f.db); if(f.k) fs.put(s.kp,f.kb); if(f.l) fs.put(s.lp,f.lb); bool q=fs.quiet; if(P.prop!="C19") fs.quiet=true; u64 e0=fs.commit_err[o.s];
    int ph[]={PH_OPEN,PH_RECOVER,PH_VERIFY,PH_VERIFY,PH_VISIT,PH_REKEY}; void*h=nullptr;
    if(tool==TL_OPEN&&hasher==s.c.hasher){ make_handle(o.s,nullptr); h=s.h; } else if(tool==TL_OPEN){ bool shared=(era->ctx&15)!=0; call(PH_CTX,nullptr,[&](sut_err*e){ h=sut_store_new(hasher,shared?ctx:nullptr,e); }); }
    bool uc=hasher==0&&tool!=TL_OPEN&&use_cli(s,o); Prog pg; r.cli=uc; r.e=call(ph[tool],&o,[&](sut_err*e){ if(uc){ static const char*const nm[]={"","recover","verify","verify","visit","rekey"}; static const int np[]={0,3,2,2,1,3}; auto a=cli_args(nm[tool],s,o,np[tool]); if(tool==TL_VFAST||tool==TL_REKEY) cli_opt(a,o,"buffer","-b",buf); if(tool==TL_REKEY) cli_opt(a,o,"count","-n",std::max<u64>(1,s.base.size())); cli(a,e); } else switch(tool){
      case TL_OPEN: sut_open(h,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),e); break;
      case TL_RECOVER: sut_recover(hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),e); break;
      case TL_VERIFY: case TL_VFAST: sut_verify(hasher,&r.vi,s.dp.c_str(),s.kp.c_str(),tool==TL_VERIFY?0:buf,pcb,&pg,e); break;
      case TL_VISIT: sut_visit(s.dp.c_str(),vcb,pcb,&r.v,&pg,e); break;
      default: sut_rekey(hasher,s.dp.c_str(),s.kp.c_str(),s.lp.c_str(),s.c.bs,0.5f,std::max<u64>(1,s.base.size()),buf,pcb,&pg,e); } },&r.fired,&r.af); check_prog(pg,tname(tool),false);
    if(h){ { SutScope in; r.is_open=sut_is_open(h); } if(r.is_open&&r.e.cls==E_OK){ call(PH_CLOSE,nullptr,[&](sut_err*e){ sut_close(h,e); }); r.is_open=false; } if(h!=s.h) call(PH_CLOSE,nullptr,[&](sut_err*e){ sut_store_delete(h,e); }); }
    auto cmp=[&](const char*n,const std::string&p,bool had,const Bytes&b){ bool has=fs.exists(p); if(has!=had) r.same=false,r.what+=fmt("%s %s; ",n,had?"was removed":"was created"); else if(had&&content(p)!=b) r.same=false,r.what+=fmt("%s changed (%zu bytes, was %zu); ",n,content(p).size(),b.size()); };
    cmp("data file",s.dp,f.d,f.db); cmp("key file",s.kp,f.k,f.kb); cmp("log file",s.lp,f.l,f.lb);
    check_fds(o.s,"a tool on damaged files"); fs.quiet=q; swap_in(sv); fs.committed_size=cs; fs.commit_err[o.s]=e0; fs.dat_violation.clear(); check_foreign(); return r; }
  Bytes make_log(const KeyHdr&k,u64 kfs,u64 dfs){ Bytes l; for(char c:std::string("nudb.log")) l.push_back(c); wr(l,2,2); wr(l,k.uid,8); wr(l,k.appnum,8); wr(l,k.ks,2); wr(l,k.salt,8); wr(l,k.pepper,8); wr(l,k.bs,2); wr(l,kfs,8); wr(l,dfs,8); return l; }
  static u64 other(Rng&r,u64 v,int bytes){ u64 m=bytes==8?~0ull:(1ull<<(8*bytes))-1; switch(r.below(4)){ case 0: return (v+1)&m; case 1: return (v^(1ull<<r.below(8*bytes)))&m; case 2: { u64 x=r.next()&m; return x==v?(v^1)&m:x; } default: return v?0:1; } }
  void do_damage(const Op&o){ StoreM&s=S[o.s]; if(gap(o.s)||s.st!=ST_CLOSED||!s.exist||s.uncertain||s.rekey||s.creating) return; FileSet f; f.db=content(s.dp); f.kb=content(s.kp); DbInfo d; std::string err; if(fs.exists(s.lp)||!dec_db(f.db,f.kb,s.c.hasher,d,err,s.legacy_spills)) return;
    s.st=ST_OPENING; enter(s); begin_life(s); Rng r(mix3(P.seed,o.b,o.id)); if(o.a>=100) refuse(s,o,f,d,r); else if(o.a>=50) damaged_visit(s,o,f,d,r); else damaged_verify(s,o,f,d,r); s.st=ST_CLOSED; end_life(s); leave(s); }
  // C17
  void refuse(StoreM&s,const Op&o,FileSet f,const DbInfo&d,Rng&r){
    int tool=(int)(o.c%TL_N); int kind=(int)(o.a-100)%36; int hs=s.c.hasher; bool dd=false,kd=false,ld=false; std::string w; // dd,kd,ld: which file has been made unacceptable
    bool rklog=false; bool wl= (kind>=20&&kind<=26)||kind>31? true: r.chance(1,3); if(wl){ rklog= kind>=20&&kind<32&&r.chance(1,4); f.l=true; f.lb=make_log(d.k,rklog?0:f.kb.size(),f.db.size()); }
    auto ch=[&](Bytes&b,size_t off,int n,const char*name){ wr_at(b,off,other(r,rd(b,off,n),n),n); w=name; };
    auto typ=[&](Bytes&b,const char*name){ u32 k=(u32)r.below(3); if(k==0) b[r.below(8)]^=(u8)(1<<r.below(8)); else memcpy(b.data(),k==1?"nudb.dat":k==2?"nudb.key":"nudb.log",8); w=name; };
    switch(kind){
      case 0: f.d=false; dd=true; w="data file missing"; break;
      case 1: f.k=false; kd=true; w="key file missing"; break;
      case 2: typ(f.db,"data file type"); dd=memcmp(f.db.data(),"nudb.dat",8)!=0; break;
      case 3: typ(f.kb,"key file type"); kd=memcmp(f.kb.data(),"nudb.key",8)!=0; break;
      case 4: ch(f.db,8,2,"data file version"); dd=true; break;
      case 5: ch(f.kb,8,2,"key file version"); kd=true; break;
      case 6: ch(f.db,10,8,"data file uid"); kd=true; break;   // the pair does not match
      case 7: ch(f.db,18,8,"data file appnum"); kd=true; break;
      case 8: ch(f.db,26,2,"data file key size"); kd=true; if(!rd(f.db,26,2)) dd=true; break;
      case 9: wr_at(f.db,26,0,2); dd=true; w="data file key size 0"; break;
      case 10: ch(f.kb,10,8,"key file uid"); kd=true; break;
      case 11: ch(f.kb,18,8,"key file appnum"); kd=true; break;
      case 12: ch(f.kb,26,2,"key file key size"); kd=true; break;
      case 13: ch(f.kb,28,8,"key file salt"); { u8 le[8]; u64 sl=rd(f.kb,28,8); for(int i=0;i<8;i++) le[i]=(u8)(sl>>(8*i)); kd= hash_of(hs,le,8,sl)!=rd(f.kb,36,8); } break;
      case 14: ch(f.kb,36,8,"key file pepper"); kd=true; break;
      case 15: wr_at(f.kb,44,r.below(26),2); kd=true; w="key file block size without room for an entry"; break;
      case 16: wr_at(f.kb,46,0,2); kd=true; w="key file load factor 0"; break;
      case 17: f.db.resize(r.below(92)); dd=true; w=fmt("data file of %zu bytes",f.db.size()); break;
      case 18: { u64 lim=d.k.bs+bsize(d.k.capacity); f.kb.resize(105+r.below(lim>105?lim-105:1)); if(f.kb.size()>=lim) return; kd=true; w=fmt("key file of %zu bytes",f.kb.size()); break; }
      case 19: if(s.c.hasher==0||s.c.hasher==3) hs=1+(int)r.below(2); else { do hs=(int)r.below(4); while(hs==s.c.hasher); } { u8 le[8]; for(int i=0;i<8;i++) le[i]=(u8)(d.k.salt>>(8*i)); if(hash_of(hs,le,8,d.k.salt)==d.k.pepper) return; } kd=true; if(f.l) ld=true; w="another hash function"; break;
      case 20: typ(f.lb,"log file type"); ld=memcmp(f.lb.data(),"nudb.log",8)!=0; break;
      case 21: ch(f.lb,8,2,"log file version"); ld=true; break;
      case 22: ch(f.lb,10,8,"log file uid"); ld=true; break;
      case 23: ch(f.lb,18,8,"log file appnum"); ld=true; break;
      case 24: ch(f.lb,26,2,"log file key size"); ld=true; break;
      case 25: ch(f.lb,36,8,"log file pepper"); ld=true; break;
      case 26: if(rklog) return; ch(f.lb,44,2,"log file block size"); ld=true; break;
      case 27: case 28: case 29: { // a sound database with another identity
        EncCfg c{kind==29?s.c.ks%100+1:s.c.ks,s.c.bs,32768,s.c.appnum,s.c.uid,s.c.salt,hs,1,r.next(),false}; if(kind==27){ c.uid^=1ull<<r.below(64); } else if(kind==28){ c.salt=(c.salt^(1ull<<r.below(64)))|1; if(c.salt==s.c.salt) return; if(hs==3||true) c.uid=r.next(); } Bytes od,ok; std::vector<std::pair<Bytes,Bytes>> kv; kv.push_back({Bytes(c.ks,7),Bytes(9,1)}); encode_db(c,kv,od,ok); DbInfo x; if(!dec_db(od,ok,hs,x,w)) return; u32 q=(u32)r.below(3);
        if(q==0){ f.kb=ok; kd=true; w="key file of another database"; } else if(q==1){ f.db=od; kd=true; w="data file of another database"; } else { f.l=true; f.lb=make_log(x.k,rklog?0:ok.size(),od.size()); ld=true; w="log file of another database"; } break; }
      case 32: case 33: case 34: case 35: { // a log whose only record cannot be one of this key file
        Bytes&l=f.lb; u32 q=kind-32; u64 n=r.below(d.k.buckets),sp=0,cnt=0; if(q<2){ n= r.chance(1,2)? d.k.buckets+r.below(3): r.chance(1,2)? (1ull<<32)+r.below(d.k.buckets): (1ull<<r.range(32,63))+r.below(d.k.buckets+1); w=fmt("log record of bucket %llu of %llu",(unsigned long long)n,(unsigned long long)d.k.buckets); } else if(q==2){ sp=f.db.size()-bsize(d.k.capacity)+1+r.below(r.chance(1,2)?bsize(d.k.capacity)-1:1u<<20); if(r.chance(1,3)) sp=0xffffffffffffull-r.below(1000); w=fmt("log record with a spill at %llu",(unsigned long long)sp); } else { cnt=d.k.capacity+1+r.below(65536-d.k.capacity>100?100:1); if(cnt>65535) return; w=fmt("log record with %llu keys",(unsigned long long)cnt); }
        wr(l,n,8); wr(l,cnt,2); wr(l,sp,6); for(u64 i=0;i<cnt*18;i++) l.push_back((u8)r.next()); ld=true; break; }
      case 30: std::swap(f.db,f.kb); dd=kd=true; w="data and key file exchanged"; break;
      default: f.kb.resize(r.below(105)); kd=true; w=fmt("key file of %zu bytes",f.kb.size()); rklog=true; break; }
    bool must=false; bool keep=true; // keep: files must stay as they are if the call ends in an error
    switch(tool){ case TL_OPEN: must=dd||kd||ld; break; case TL_RECOVER: must=dd||!f.k||(f.l&&(kd||ld)); break; case TL_VERIFY: case TL_VFAST: must=dd||kd; break; case TL_VISIT: must=dd; break;
      case TL_REKEY: if(dd&&r.chance(1,2)){ f.k=false; f.l=false; } must=dd||f.k||f.l; break; }
    if(kind==31){ if(tool==TL_OPEN||tool==TL_RECOVER){ must=true; keep=false; } } // remnant of an interrupted rekey: removed, the data file stays
    else if(rklog&&!ld&&(tool==TL_OPEN||tool==TL_RECOVER)){ keep=false; must=dd; if(dd) keep=true; if(!dd&&kd&&(kind==6||kind==7||kind==8)) { must=true; keep=true; } if(kind==1){ must=true; keep=true; } }
    if(tool==TL_REKEY&&!must) return; Bytes dbytes=f.db; bool dhad=f.d;
    ToolRes t=run_tool(s,tool,f,hs,r.chance(1,2)?1u<<20:2*s.c.bs+16,o); g_stats.add((std::string("refusal.")+tname(tool)).c_str()); if(must) g_stats.add("refusals_required");
    std::string msg=fmt("%s with %s%s: ",tname(tool),w.c_str(),f.l?" (log present)":"");
    if(t.e.cls==E_BADALLOC&&t.af) return; if(t.e.cls==E_EXC||t.e.cls==E_BADALLOC||t.e.cls==E_UNKNOWN_EXC) V("ref.exception",msg+"throws "+t.e.msg);
    if(must&&t.e.cls==E_OK) V("ref.accepted",msg+"accepted without an error");
    bool ro=tool==TL_VERIFY||tool==TL_VFAST||tool==TL_VISIT; if(ro&&!t.same) V("ref.changed",msg+t.what);
    if(!t.fired&&!t.af&&must&&keep&&!t.same) V("ref.changed",msg+t.what);
    if(!keep&&t.what.find("data file")!=std::string::npos) V("ref.changed",msg+t.what); (void)dhad;
    if(tool==TL_OPEN&&t.e.cls!=E_OK&&t.is_open) V("ref.left-open",msg+"the store says it is open");
    if(tool==TL_VISIT&&must&&!t.v.got.empty()) V("ref.accepted",msg+"values were reported"); }
  // C13: never pass a damaged record on
  void damaged_visit(StoreM&s,const Op&o,FileSet f,const DbInfo&d,Rng&r){
    size_t good; bool must=true; std::vector<u64> starts; for(auto&x:d.d.recs) starts.push_back(x.off); for(auto&x:d.d.spills) starts.push_back(x.off); std::sort(starts.begin(),starts.end()); if(starts.empty()) return; u64 n0=f.db.size();
    if(o.a==50){ u64 t= r.chance(1,4)? starts[r.below(starts.size())] : r.chance(1,2)? starts[r.below(starts.size())]+r.below(12): 92+r.below(n0-92); if(t>=n0) return; f.db.resize(t); good=0; for(auto&x:d.d.recs) if(x.off+6+d.d.h.ks+x.size<=t) good++; must=true; for(u64 q:starts) if(q==t) must=false; if(t==92) must=false; }
    else { u64 at=starts[r.below(starts.size())]; good=0; for(auto&x:d.d.recs) if(x.off<at) good++; bool sp=rd(f.db,at,6)==0; u64 rest=f.db.size()-at; if(sp){ u64 v=rest-8+1+r.below(60000); if(v>65535) return; wr_at(f.db,at+6,v,2); } else { u64 min=rest-6-d.d.h.ks+1; u32 k=(u32)r.below(4); u64 v= k==0?min: k==1? min+r.below(100000): k==2? 0xffffffffffffull: (1ull<<r.range(20,47))+min; if(v>0xffffffffffffull) return; wr_at(f.db,at,v,6); } }
    ToolRes t=run_tool(s,TL_VISIT,f,s.c.hasher,0,o); g_stats.add("probe.visit_of_damaged_file"); std::string msg=fmt("visit of a data file %s: ",o.a==50?"cut short":"with a damaged record size"); 
    if(t.e.cls>=E_BADALLOC) V("vis.exception",msg+"exception "+t.e.msg); if(!t.same) V("vis.changed",msg+t.what);
    for(size_t i=0;i<t.v.got.size();i++) if(i>=good||t.v.got[i].first!=d.d.recs[i].key||t.v.got[i].second!=d.d.recs[i].val) V("vis.damaged",msg+fmt("record %zu is passed to the callback although it is not intact",i));
    if(must&&t.e.cls==E_OK) V("vis.silent",msg+"no error is reported"); if(!must&&t.e.cls!=E_OK&&!t.fired) V("vis.failed",msg+"fails with "+estr(t.e)); if(!t.cli&&t.v.got.size()<good) V("vis.missed",msg+fmt("only %zu of %zu intact values were reported",t.v.got.size(),good)); }
  // C14: damage that makes a key unreachable, an entry wrong or a file short
  struct EPos { bool dat; u64 off; u64 count; u64 bucket; int depth; }; // bucket image at off in the file
  void damaged_verify(StoreM&s,const Op&o,FileSet f,const DbInfo&d,Rng&r){
    std::vector<EPos> B; u64 cap=d.k.capacity; for(u64 n=0;n<d.k.buckets;n++){ Bkt b; std::string e; u64 off=(n+1)*d.k.bs; bool dat=false; int dep=0; for(;;){ if(!dec_bucket(dat?f.db:f.kb,off,cap,b,e)) return; B.push_back({dat,off,b.count,n,dep}); if(!b.spill) break; off=b.spill; dat=true; dep++; } }
    std::vector<EPos> full; for(auto&b:B) if(b.count) full.push_back(b); auto F=[&](const EPos&b)->Bytes&{ return b.dat?f.db:f.kb; }; auto spillof=[&](const EPos&b){ return rd(F(b),b.off+2,6); };
    std::string w; int kind=(int)o.a; bool cyc=false;
    auto pick=[&]()->EPos{ std::vector<EPos> sp; for(auto&b:full) if(b.dat) sp.push_back(b); if(!sp.empty()&&r.chance(1,2)) return sp[r.below(sp.size())]; return full[r.below(full.size())]; };
    auto setcount=[&](const EPos&b,u64 c){ wr_at(F(b),b.off,c,2); };
    switch(kind){
      case 1: { if(full.empty()) return; EPos b=pick(); u64 i=r.below(b.count); Bytes&x=F(b); u64 e0=b.off+8; for(u64 q=i;q+1<b.count;q++) for(int z=0;z<18;z++) x[e0+18*q+z]=x[e0+18*(q+1)+z]; for(int z=0;z<18;z++) x[e0+18*(b.count-1)+z]=0; setcount(b,b.count-1); w="index entry removed"; break; }
      case 2: { if(full.empty()) return; EPos b=pick(); u64 q=b.off+8+18*r.below(b.count); u64 v=rd(F(b),q,6); u64 nv; switch(r.below(5)){ case 0: nv=v+1; break; case 1: nv=v-1; break; case 2: nv=f.db.size()+r.below(1000); break; case 3: nv=0xffffffffffffull-r.below(100); break; default: nv=d.d.recs[r.below(d.d.recs.size())].off; } if(nv==v) return; if(d.d.at.count(nv)){ } wr_at(F(b),q,nv,6); w="offset of an index entry changed"; break; }
      case 3: { if(full.empty()) return; EPos b=pick(); u64 q=b.off+8+18*r.below(b.count)+6; u64 v=rd(F(b),q,6); u64 nv=r.chance(1,2)?v+1:r.chance(1,2)?other(r,v,6):(v>1?v-1:v+2); wr_at(F(b),q,nv,6); w="size in an index entry changed"; break; }
      case 4: { if(full.empty()) return; EPos b=pick(); u64 i=r.below(b.count),q=b.off+8+18*i+12; wr_at(F(b),q,other(r,rd(F(b),q,6),6),6); w="hash of an index entry changed"; break; }
      case 5: { if(full.empty()) return; EPos b=pick(); if(!b.dat&&false) return; for(u64 z=0;z<bsize(cap);z++) F(b)[b.off+z]=0; w="bucket overwritten with zeros"; break; }
      case 6: { if(d.d.recs.empty()) return; f.db.resize(d.d.recs[r.below(d.d.recs.size())].off); w="data file cut at a record"; break; }
      case 7: { if(d.d.recs.empty()) return; u64 i=r.below(d.d.recs.size()); auto&x=d.d.recs[i]; f.db.resize(x.off+1+r.below(5+d.d.h.ks+x.size)); w="data file cut inside a record"; break; }
      case 8: { u64 n=d.k.buckets-1; bool any=false; for(auto&b:full) if(b.bucket==n) any=true; if(!any) return; u64 lim=(n+1)*d.k.bs+bsize(cap); f.kb.resize(104+r.below(lim-104)); if(d.k.bs>104&&r.chance(1,2)&&n) f.kb.resize((n+1)*d.k.bs); w=fmt("key file cut to %zu bytes",f.kb.size()); break; }
      case 9: { if(d.k.buckets<2||full.empty()) return; EPos b=pick(); std::vector<EPos> to; for(auto&x:B) if(x.bucket!=b.bucket&&x.count<cap) to.push_back(x); if(to.empty()) return; EPos t=to[r.below(to.size())]; u64 i=r.below(b.count),e0=b.off+8; Bytes ent(F(b).begin()+e0+18*i,F(b).begin()+e0+18*i+18); Bytes&x=F(b); for(u64 q=i;q+1<b.count;q++) for(int z=0;z<18;z++) x[e0+18*q+z]=x[e0+18*(q+1)+z]; setcount(b,b.count-1);
        Bytes&y=F(t); u64 t0=t.off+8; u64 h=rd(ent,12,6); u64 j=0; while(j<t.count&&rd(y,t0+18*j+12,6)<h) j++; for(u64 q=t.count;q>j;q--) for(int z=0;z<18;z++) y[t0+18*q+z]=y[t0+18*(q-1)+z]; for(int z=0;z<18;z++) y[t0+18*j+z]=ent[z]; setcount(t,t.count+1); w="index entry in the wrong bucket"; break; }
      case 10: { if(d.d.recs.empty()) return; auto x=d.d.recs[r.below(d.d.recs.size())]; u64 p=x.off+6+r.below(d.d.h.ks); f.db[p]^=(u8)(1<<r.below(8)); if(hash48(s.c.hasher,&f.db[x.off+6],d.d.h.ks,d.k.salt)==hash48(s.c.hasher,x.key.data(),x.key.size(),d.k.salt)) return; w="key in a data record changed"; break; }
      case 11: { if(d.d.recs.empty()) return; auto x=d.d.recs[r.below(d.d.recs.size())]; u64 v=rd(f.db,x.off,6); u64 nv= r.chance(1,3)?0xffffffffffffull: r.chance(1,2)? other(r,v,6): v+1+r.below(3); wr_at(f.db,x.off,nv,6); w="size of a data record changed"; break; }
      case 12: { std::vector<EPos> c; for(size_t i=0;i+1<B.size();i++) if(spillof(B[i])){ bool has=false; for(size_t j=i+1;j<B.size()&&B[j].bucket==B[i].bucket;j++) if(B[j].count) has=true; if(has) c.push_back(B[i]); } if(c.empty()) return; EPos b=c[r.below(c.size())]; wr_at(F(b),b.off+2,0,6); w="spill offset cleared"; break; }
      case 13: { EPos b=B[r.below(B.size())]; u64 v=spillof(b); if(v){ bool has=false; for(size_t i=0;i<B.size();i++) if(B[i].dat&&B[i].off==v&&B[i].count) has=true; if(!has) return; } u64 nv; switch(r.below(4)){ case 0: nv=f.db.size()-r.below(8); break; case 1: nv=f.db.size()+r.below(1u<<20); break; case 2: nv=0xffffffffffffull-r.below(200); break; default: if(!v) return; nv=f.db.size()-r.below(bsize(cap)); } if(nv==v||nv==0) return; if(nv+bsize(cap)<=f.db.size()) return; wr_at(F(b),b.off+2,nv,6); w="spill offset points past the end"; break; }
      case 14: { Bytes k(d.d.h.ks); for(auto&c:k) c=(u8)r.next(); for(auto&x:d.d.recs) if(x.key==k) return; u64 n=1+r.below(100); wr(f.db,n,6); f.db.insert(f.db.end(),k.begin(),k.end()); for(u64 i=0;i<n;i++) f.db.push_back((u8)r.next()); w="data record that is not in the index"; break; }
      case 15: { EPos b=B[r.below(B.size())]; setcount(b,r.chance(1,2)?cap+1:r.chance(1,2)?65535:cap+1+r.below(65535-cap)); w="bucket with more entries than fit"; if(cap>=65535) return; break; }
      case 16: { u64 n=1+r.below(40); Bytes t; wr(t,1+r.below(1000000)+40,6); for(u64 i=t.size();i<n;i++) t.push_back((u8)r.next()); t.resize(n); f.db.insert(f.db.end(),t.begin(),t.end()); w="incomplete record at the end of the data file"; break; }
      case 17: { std::vector<EPos> c; for(auto&b:B) if(b.dat) c.push_back(b); if(c.empty()) return; EPos b=c[r.below(c.size())]; wr_at(F(b),b.off+2,b.off,6); cyc=true; w="spill records that form a loop"; break; }
      case 18: { // two entries exchange their offsets
        std::vector<std::pair<EPos,u64>> e; for(auto&b:full) for(u64 i=0;i<b.count;i++) e.push_back({b,b.off+8+18*i}); if(e.size()<2) return; auto a=e[r.below(e.size())],b=e[r.below(e.size())]; u64 ha=rd(F(a.first),a.second+12,6),hb=rd(F(b.first),b.second+12,6); if(ha==hb||a.second==b.second) return; u64 va=rd(F(a.first),a.second,6),vb=rd(F(b.first),b.second,6); wr_at(F(a.first),a.second,vb,6); wr_at(F(b.first),b.second,va,6); w="two index entries exchanged"; break; }
      case 19: { // an entry that matches no record, next to those of all values
        if(d.d.recs.empty()) return; auto insert=[&](const EPos&t,const Bytes&ent){ Bytes&y=F(t); u64 t0=t.off+8,h=rd(ent,12,6),j=0; while(j<t.count&&rd(y,t0+18*j+12,6)<h) j++; for(u64 q=t.count;q>j;q--) for(int z=0;z<18;z++) y[t0+18*q+z]=y[t0+18*(q-1)+z]; for(int z=0;z<18;z++) y[t0+18*j+z]=ent[z]; setcount(t,t.count+1); };
        auto bogus=[&](u64 h)->Bytes{ auto&x=d.d.recs[r.below(d.d.recs.size())]; u64 hx=hash48(s.c.hasher,x.key.data(),x.key.size(),d.k.salt); u64 off=x.off,sz=x.size; switch(h==hx?1+r.below(2):r.below(4)){ case 1: h=hx; sz=r.chance(1,2)?x.size+1:other(r,x.size,6); w="size"; break; case 2: h=hx; off=r.chance(1,2)?x.off+1+r.below(std::max<u64>(1,d.d.h.ks+5)):f.db.size()+r.below(100); w="offset"; break; default: w="hash"; } Bytes e; wr(e,off,6); wr(e,sz,6); wr(e,h,6); return e; };
        std::vector<std::pair<EPos,EPos>> mv; for(auto&a:B) if(a.dat&&a.count) for(auto&b:B) if(b.bucket==a.bucket&&b.depth<a.depth&&b.count<cap) mv.push_back({a,b});
        if(!mv.empty()&&r.chance(3,4)){ auto m=mv[r.below(mv.size())]; u64 q=m.first.off+8+18*r.below(m.first.count); Bytes&x=F(m.first); Bytes ent(x.begin()+q,x.begin()+q+18); Bytes e=bogus(rd(ent,12,6)); if(rd(e,12,6)!=rd(ent,12,6)){ e=ent; wr_at(e,6,other(r,rd(ent,6,6),6),6); w="size"; } for(int z=0;z<18;z++) x[q+z]=e[z]; insert(m.second,ent); w="an entry in a spill record, beside the right one, with a wrong "+w; break; }
        std::vector<EPos> to; for(auto&b:B) if(b.count<cap) to.push_back(b); if(to.empty()) return; EPos t=to[r.below(to.size())]; insert(t,bogus(t.count&&r.chance(1,2)?rd(F(t),t.off+8+18*r.below(t.count)+12,6):r.next()&0xffffffffffffull)); w="an entry more than values, with a wrong "+w; break; }
      default: return; }
    (void)cyc; u64 bufs[3]={0,(2+d.k.buckets/8)*(d.k.bs+8)+16,1u<<24}; 
    for(int i=0;i<3;i++){ ToolRes t=run_tool(s,i?TL_VFAST:TL_VERIFY,f,s.c.hasher,bufs[i],o); g_stats.add("damaged_verifications"); std::string msg=fmt("verify (algorithm %d, buffer %llu) of a database with %s: ",t.vi.algorithm,(unsigned long long)bufs[i],w.c_str());
      if(t.e.cls>=E_BADALLOC) V("ver.exception",msg+"exception "+t.e.msg); if(!t.same) V("ver.changed",msg+t.what); if(t.e.cls==E_OK) V("ver.accepts",msg+"no error is reported"); } }
  // ---- create in the presence of other files or with invalid parameters ----
  void do_create2(const Op&o){ StoreM&s=S[o.s]; if(s.exist||s.st!=ST_CLOSED||s.creating) return; Rng r(mix3(P.seed,o.b,o.id)); enter(s); begin_life(s); int k=(int)o.a&31; u32 pre=0; u64 ks=s.c.ks,bs=s.c.bs; float lf=s.c.lf/65536.f; std::string dp=s.dp,kp=s.kp,lp=s.lp,w; bool nouid=r.chance(1,4),must=true;
    if(k<16){ pre=1+(u32)(k%7); w="files that already exist"; }
    else switch(k){ case 16: case 17: ks=0; w="key size 0"; break; case 18: ks=65536+r.below(3)*65536; w=fmt("key size %llu",(unsigned long long)ks); break; case 19: ks=65536+r.below(100000); w=fmt("key size %llu",(unsigned long long)ks); break; case 20: bs=65536+r.below(100000); w=fmt("block size %llu",(unsigned long long)bs); break; case 21: bs=65536*(1+r.below(3))+(r.chance(1,2)?0:512); w=fmt("block size %llu",(unsigned long long)bs); break; case 22: case 23: bs=r.below(104); w=fmt("block size %llu",(unsigned long long)bs); break;
      case 24: lf=0; w="load factor 0"; break; case 25: lf=-0.5f; w="load factor -0.5"; break; case 26: lf=1.0f; w="load factor 1"; break; case 27: lf=1e9f; w="load factor 1e9"; break; case 28: lf=__builtin_inff(); w="infinite load factor"; break; case 29: lf=r.chance(1,2)?-__builtin_inff():__builtin_nanf(""); w="load factor minus infinity or not a number"; break; case 30: lp=dp; w="one path for data and log file"; break; default: kp=dp; w="one path for data and key file"; }
    std::map<std::string,Bytes> had; const std::string* pp[3]={&s.dp,&s.kp,&s.lp}; auto sv=swap_out(s); for(int i=0;i<3;i++) if(pre>>i&1){ Bytes b(r.below(3)?r.below(400):0); for(auto&c:b) c=(u8)r.next(); if(r.chance(1,3)&&b.size()>8) memcpy(b.data(),i==0?"nudb.dat":i==1?"nudb.key":"nudb.log",8); fs.put(*pp[i],b); had[*pp[i]]=b; }
    bool q=fs.quiet; bool faulty=r.chance(1,3); if(!faulty) fs.quiet=true; u64 fired,af; u64 mut0=fs.mut_seen; int ino0=fs.next_ino; (void)mut0;
    sut_err e=call(PH_CREATE,&o,[&](sut_err*e){ if(nouid) sut_create_nouid(s.c.hasher,dp.c_str(),kp.c_str(),lp.c_str(),s.c.appnum,s.c.salt,ks,bs,lf,e); else sut_create(s.c.hasher,dp.c_str(),kp.c_str(),lp.c_str(),s.c.appnum,s.c.uid,s.c.salt,ks,bs,lf,e); },&fired,&af); fs.quiet=q; g_stats.add("op.create_refused"); std::string msg="create with "+w+": ";
    bool unl=false; for(auto&f:fs.faults) if(f.op==FS_UNLINK&&f.fired) unl=true;
    if(e.cls==E_OK&&must) V("cre.accepted",msg+"no error is reported"); if(e.cls>=E_BADALLOC&&!af) V("cre.exception",msg+"throws "+e.msg);
    if(!pre&&k<30&&fs.next_ino!=ino0) V("cre.touched",msg+"files were made although the parameters are invalid");
    for(int i=0;i<3;i++){ auto h=had.find(*pp[i]); if(h==had.end()){ if(fs.exists(*pp[i])&&!unl) V("cre.leftover",msg+*pp[i]+" was left behind"); } else if(!fs.exists(*pp[i])) V("cre.erased",msg+*pp[i]+" existed before and was erased"); else if(content(*pp[i])!=h->second) V("cre.overwritten",msg+*pp[i]+" existed before and was changed"); }
    check_fds(o.s,"a refused create"); swap_in(sv); check_foreign(); fs.dat_violation.clear(); end_life(s); leave(s); }
