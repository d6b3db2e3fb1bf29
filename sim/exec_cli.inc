  // ---- the command line tool: one call is one process (statics and exit handlers included) ----
  bool use_cli(StoreM&s,const Op&o){ return (P.flags&PF_CLI)&&s.c.hasher==0&&!g_cli&&mix3(P.seed,o.id,0xC11)%4; }
  std::vector<std::string> cli_args(const char*cmd,StoreM&s,const Op&o,int nfiles){ SimScope sc; Rng r(mix3(P.seed,o.id,0xA6)); std::vector<std::string> a; const std::string*f[3]={&s.dp,&s.kp,&s.lp}; static const char*const lo[3]={"--dat","--key","--log"}; static const char*const sh[3]={"-d","-k","-l"};
    if(r.chance(2,3)){ a.push_back(cmd); for(int i=0;i<nfiles;i++) a.push_back(*f[i]); } // positional
    else { std::vector<int> ord; for(int i=0;i<nfiles;i++) ord.push_back(i); for(int i=nfiles-1;i>0;i--) std::swap(ord[i],ord[r.below(i+1)]); bool late=r.chance(1,2); if(!late) a.push_back(cmd); for(int i:ord){ if(r.chance(1,2)) a.push_back(std::string(lo[i])+"="+*f[i]); else { a.push_back(r.chance(1,2)?lo[i]:sh[i]); a.push_back(*f[i]); } } if(late) a.push_back(cmd); }
    return a; }
  void cli_opt(std::vector<std::string>&a,const Op&o,const char*l,const char*sh,u64 v){ SimScope sc; std::string n=std::to_string(v); switch(mix3(P.seed,o.id,(u64)l[0])%4){ case 0: a.push_back(std::string("--")+l+"="+n); break; case 1: a.push_back(std::string("--")+l); a.push_back(n); break; case 2: a.push_back(sh+n); break; default: a.push_back(sh); a.push_back(n); } }
  std::string cli_cmd; int cli_rv=0;
  void cli(const std::vector<std::string>&a,sut_err*e){ // in the scope of the library
    static std::vector<char> keep; std::vector<const char*>*av; int rv=-1; size_t f0; u64 t0; 
    { SimScope sc; keep.assign(g_sut_lo,g_sut_hi); g_cout.s.clear(); g_cerr.s.clear(); static std::ios fresh(nullptr); for(auto*s:{&std::cout,&std::cerr}){ s->rdbuf(s==&std::cout?&g_cout:&g_cerr); s->clear(); s->copyfmt(fresh); s->exceptions(std::ios::goodbit); } av=new std::vector<const char*>; av->push_back("/usr/bin/nudb"); cli_cmd="nudb"; for(auto&x:a){ av->push_back(x.c_str()); cli_cmd+=" "+x; } f0=W->fibers.size(); t0=W->now; g_cli=true; cur()->npoll=0; trace("$ %s",cli_cmd.c_str()); }
    int ok; { ok=sut_cli((int)av->size(),av->data(),&rv,e); } 
    if(e->cls==E_OK) run_atexit();
    { SimScope sc; delete av; if(!ok){ fprintf(stderr,"the command line tool of the repository could not be built\n"); fflush(stdout); _exit(75); } g_stats.add("op.cli"); cli_rv=rv;
      if(e->cls!=E_OK) V("cli.crash",fmt("'%s' ends with an exception: %s",cli_cmd.c_str(),e->msg)); 
      int live=0; u64 polls=0; for(size_t i=f0;i<W->fibers.size();i++){ Fiber*x=W->fibers[i]; if(x->sut_thread&&x->st!=F_DONE) live++; polls+=x->npoll; } if(W->fibers.size()>f0) g_stats.add("probe.cli_clock_thread"); if(W->now>t0+SEC) g_stats.add("probe.cli_longer_than_a_second");
      if(live) V("cli.thread",fmt("'%s' ends with %d threads still running",cli_cmd.c_str(),live)); if(polls>100+5*((W->now-t0)/SEC)) V("cli.spin",fmt("'%s': a helper thread polled the clock %llu times without sleeping in %.3f s",cli_cmd.c_str(),(unsigned long long)polls,(W->now-t0)/1e9));
      for(auto&x:fs.fds) (void)x; logev(0xC11,(u64)rv); for(char c:g_cout.s) logev(0xC12,(u8)c); if(g_trace){ trace("%s%s[exit status %d]",g_cout.s.c_str(),g_cerr.s.c_str(),rv); }
      { u64 la=0,lt=0; for(size_t p=0;(p=g_cout.s.find("Remaining: ",p))!=std::string::npos;p++){ size_t q=g_cout.s.find('\n',p); std::string l=g_cout.s.substr(p,q-p); g_stats.add("probe.cli_remaining_time"); size_t b=l.find('('),m=l.find(" of "),n=l.find(" in "); if(b==std::string::npos||m==std::string::npos||n==std::string::npos||m<b||n<m) V("cli.output",fmt("'%s' prints '%s'",cli_cmd.c_str(),l.c_str())); u64 A=strtoull(digits(l.substr(b+1,m-b-1)).c_str(),0,10),B=strtoull(digits(l.substr(m+4,n-m-4)).c_str(),0,10); if(A>B||A<la||(lt&&B!=lt)||l.find(": -")!=std::string::npos) V("cli.output",fmt("'%s' prints '%s' after %llu of %llu",cli_cmd.c_str(),l.c_str(),(unsigned long long)la,(unsigned long long)lt)); la=A; lt=B; } }
      if(rv!=0){ e->cls=E_OTHER; e->val=rv; std::string m=g_cerr.s.empty()?g_cout.s:g_cerr.s; m=m.substr(0,m.find('\n')); snprintf(e->msg,sizeof e->msg,"exit status %d, %s",rv,m.c_str()); if(rv<0||rv>255) V("cli.status",fmt("'%s' ends with the status %d",cli_cmd.c_str(),rv)); if(m.empty()) V("cli.silent",fmt("'%s' fails without a message",cli_cmd.c_str())); g_stats.add("probe.cli_failed"); }
      memcpy(g_sut_lo,keep.data(),keep.size()); g_cli=false; } }
  static std::string cdec(u64 v){ std::string s=std::to_string(v); for(int i=(int)s.size()-3;i>0;i-=3) s.insert(i,","); return s; }
  static std::string chex(u64 v){ return fmt("0x%016llx",(unsigned long long)v); }
  // value of the first line that starts with the label after position at; the label ends with spaces
  bool line(const std::string&o,size_t at,const char*label,std::string&v){ std::string l=label; for(size_t p=at;p<o.size();){ size_t q=o.find('\n',p); if(q==std::string::npos) q=o.size(); if(!o.compare(p,l.size(),l)){ size_t b=p+l.size(); while(b<q&&o[b]==' ') b++; v=o.substr(b,q-b); return true; } p=q+1; } return false; }
  static std::string digits(const std::string&s){ std::string r; for(char c:s) if(c!=','&&c!=' '&&c!='\'') r+=c; return r; }
  void out_is(const std::string&o,size_t at,const char*label,const std::string&want,const char*kind){ std::string v; if(!line(o,at,label,v)) V(kind,fmt("'%s' does not print '%s'",cli_cmd.c_str(),label)); if(digits(v)!=digits(want)) V(kind,fmt("'%s' prints %s %s, true value is %s",cli_cmd.c_str(),label,v.c_str(),want.c_str())); }
  void cli_verify_out(int i,const Bytes&db,const Bytes&kb){ StoreM&s=S[i]; DbInfo d; std::string err; if(!dec_db(db,kb,s.c.hasher,d,err,s.legacy_spills)) return; g_stats.add("probe.cli_verify_output"); const std::string&o=g_cout.s; auto C=[&](const char*l,const std::string&w){ out_is(o,0,l,w,"cli.output"); };
    C("dat_path",s.dp); C("key_path",s.kp); C("version:",cdec(2)); C("uid:",chex(d.d.h.uid)); C("appnum:",chex(d.d.h.appnum)); C("key_size:",cdec(d.d.h.ks)); C("salt:",chex(d.k.salt)); C("pepper:",chex(d.k.pepper)); C("block_size:",cdec(d.k.bs)); C("capacity:",cdec(d.k.capacity)); C("buckets:",cdec(d.k.buckets)); C("key_count:",cdec(d.key_count)); C("value_count:",cdec(d.value_count)); C("value_bytes:",cdec(d.value_bytes)); C("spill_count:",cdec(d.spill_count)); C("spill_count_tot:",cdec(d.spill_count_tot)); C("spill_bytes:",cdec(d.spill_bytes)); C("spill_bytes_tot:",cdec(d.spill_bytes_tot)); C("key_file_size:",cdec(kb.size())); C("dat_file_size:",cdec(db.size()));
    std::string h; int n=9; while(n>0&&!d.hist[n]) n--; for(int k=0;k<=n;k++) h+=(k?", ":"")+std::to_string(d.hist[k]); std::string v; if(!line(o,0,"hist:",v)||v!=h) V("cli.output",fmt("'%s' prints the histogram %s, true is %s",cli_cmd.c_str(),v.c_str(),h.c_str())); }
  void cli_visit_out(const DatInfo&d){ g_stats.add("probe.cli_visit_output"); const std::string&o=g_cout.s; out_is(o,0,"value_count",cdec(d.recs.size()),"cli.output"); u64 hist[64]={0}; for(auto&r:d.recs){ int b=0; for(u64 x=r.size;x>1;x>>=1) b++; hist[b]++; } int n=63; while(n>0&&!hist[n]) n--; std::string h; for(int k=0;k<=n;k++) h+=(k?", ":"")+std::to_string(hist[k]); std::string v; if(!line(o,0,"sizes:",v)||v!=h) V("cli.output",fmt("'%s' prints the sizes %s, true is %s",cli_cmd.c_str(),v.c_str(),h.c_str())); out_is(o,0,"uid:",chex(d.h.uid),"cli.output"); out_is(o,0,"key_size:",cdec(d.h.ks),"cli.output"); }
  // info, help and command lines that must be refused; none of them may change a file
  void do_cli(const Op&o){ StoreM&s=S[o.s]; if(!(P.flags&PF_CLI)||s.st!=ST_CLOSED||!s.exist||gap(o.s)) return; s.st=ST_OPENING; enter(s); begin_life(s); Rng r(mix3(P.seed,o.id,0xBAD)); Bytes b[3]; bool had[3]; const std::string*f[3]={&s.dp,&s.kp,&s.lp}; for(int i=0;i<3;i++){ had[i]=fs.exists(*f[i]); b[i]=content(*f[i]); } size_t nn=fs.names.size();
    std::vector<std::string> a; bool bad=false,info=false; int nf=3; u64 fired=0,af=0;
    switch(o.a%4){ case 0: case 1: { info=true; nf=(int)r.range(1,3); a=cli_args("info",s,o,nf); break; }
      case 2: { a.push_back("help"); break; }
      default: { bad=true; static const char*const cm[]={"recover","rekey","verify","visit"}; int c=(int)r.below(4); static const int need[]={3,3,2,1}; switch(r.below(6)){
        case 0: if(r.chance(1,2)) a.push_back(r.chance(1,2)?"frobnicate":""); break; // unknown or no command
        case 1: a=cli_args(cm[c],s,o,(int)r.below(need[c])); if(c==1){ cli_opt(a,o,"count","-n",10); cli_opt(a,o,"buffer","-b",65536); } break; // too few files
        case 2: a=cli_args("rekey",s,o,3); if(r.chance(1,2)) cli_opt(a,o,"count","-n",10); else if(r.chance(1,2)) cli_opt(a,o,"buffer","-b",65536); break; // an option is missing
        case 3: a=cli_args(cm[c],s,o,need[c]); a.push_back(r.chance(1,2)?"--frob":"--buffer=many"); if(c==1){ cli_opt(a,o,"count","-n",10); } break; 
        case 4: a=cli_args("rekey",s,o,3); a.push_back(r.chance(1,2)?"--count=x":"--count="); cli_opt(a,o,"buffer","-b",65536); break;
        default: a.push_back("info"); break; } } }
    bool any=false; sut_err e=call(PH_CLI,&o,[&](sut_err*e){ cli(a,e); },&fired,&af); s.st=ST_CLOSED; leave(s); check_fds(o.s,"the command line tool"); g_stats.add(bad?"op.cli_refused":info?"op.cli_info":"op.cli_help"); (void)any;
    if(fs.names.size()!=nn) V("cli.changed",fmt("'%s' made or removed a file",cli_cmd.c_str())); for(int i=0;i<3;i++) if(fs.exists(*f[i])!=had[i]||content(*f[i])!=b[i]) V("cli.changed",fmt("'%s' changed %s",cli_cmd.c_str(),f[i]->c_str()));
    if(bad){ if(e.cls==E_OK) V("cli.accepted",fmt("'%s' ends with the status 0",cli_cmd.c_str())); return; }
    if(e.cls!=E_OK){ if(!fired&&!af) V("cli.failed",fmt("'%s' fails: %s",cli_cmd.c_str(),e.msg)); return; }
    if(!info){ for(const char*w:{"info","recover","rekey","verify","visit"}) if(g_cout.s.find(w)==std::string::npos) V("cli.output",fmt("the help text does not mention %s",w)); return; }
    if(fired||af) return; size_t at=0; static const char*const ty[3]={"nudb.dat","nudb.key","nudb.log"}; static const char*const hd[3]={"data file:","key file:","log file:"}; static const size_t sz[3]={92,104,62};
    for(int i=0;i<nf;i++){ const std::string&x=g_cout.s; size_t p=x.find(*f[i],at); if(p==std::string::npos) V("cli.output",fmt("'%s' says nothing about %s",cli_cmd.c_str(),f[i]->c_str())); at=p; if(!had[i]||b[i].size()<sz[i]||memcmp(b[i].data(),ty[i],8)) continue; size_t ls=x.rfind('\n',p); ls=ls==std::string::npos?0:ls+1; g_stats.add("probe.cli_info_output");
      auto C=[&](const char*l,const std::string&w){ out_is(x,ls,l,w,"cli.output"); }; C(hd[i],*f[i]); C("file size:",cdec(b[i].size())); C("version:",cdec(rd(b[i],8,2))); C("uid:",chex(rd(b[i],10,8))); C("appnum:",chex(rd(b[i],18,8))); C("key_size:",cdec(rd(b[i],26,2))); if(i){ C("salt:",chex(rd(b[i],28,8))); C("pepper:",chex(rd(b[i],36,8))); C("block_size:",cdec(rd(b[i],44,2))); } if(i==2){ C("key_file_size:",cdec(rd(b[i],46,8))); C("dat_file_size:",cdec(rd(b[i],54,8))); } } }
