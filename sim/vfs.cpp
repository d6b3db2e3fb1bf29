#include "vfs.h"
#include <cerrno>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <dlfcn.h>
namespace sim {
Fs* FS=nullptr;
const char* const fsop_name[]={"open","create","read","write","sync","trunc","unlink","stat","advise","close","rename"};
const char* const fact_name[]={"error","short","partial-then-error","stall","eof"};
static const int FD0=2000; static std::map<int,off_t>* g_pos; static off_t& fpos(int fd){ SimScope s; if(!g_pos) g_pos=new std::map<int,off_t>; return (*g_pos)[fd]; } static void reset_pos(int fd){ fpos(fd)=0; }
static bool simpath(const char*p){ return p && !strncmp(p,"/simfs/",7); }
// names look like /simfs/s<N>.<ext>[...]
int store_of(const std::string&p){ size_t i=p.rfind("/s"); if(i==std::string::npos) return -1; return atoi(p.c_str()+i+2); }
int role_of(const std::string&p){ size_t n=p.size(); if(n<4) return R_OTHER; std::string e=p.substr(n-4); return e==".dat"?R_DAT:e==".key"?R_KEY:e==".log"?R_LOG:R_OTHER; }
void Fs::put(const std::string&p,const std::vector<u8>&d){ InoP i=std::make_shared<Inode>(); i->id=next_ino++; i->data=d; i->durable=d; i->store=store_of(p); i->role=role_of(p); names[p]=i; durable_names[p]=i; }
void Fs::remove(const std::string&p){ names.erase(p); durable_names=names; journal.clear(); }
u64 Fs::hash() const { u64 h=7; for(auto&kv:names){ for(char c:kv.first) h=mix2(h,c); const auto&d=kv.second->data; u64 x=d.size(); size_t i=0; for(;i+8<=d.size();i+=8){ u64 w; memcpy(&w,&d[i],8); x=(x^w)*0x9E3779B97F4A7C15ull; x^=x>>31; } for(;i<d.size();i++) x=(x^d[i])*0x100000001b3ull; h=mix2(h,x); } return h; }
Fs Fs::clone() const { Fs f=*this; std::map<Inode*,InoP> m; auto cp=[&](const InoP&i){ auto it=m.find(i.get()); if(it!=m.end()) return it->second; InoP n=std::make_shared<Inode>(*i); n->wlock=nullptr; n->q.clear(); m[i.get()]=n; return n; };
  for(auto&kv:f.names) kv.second=cp(kv.second); for(auto&kv:f.durable_names) kv.second=cp(kv.second); for(auto&j:f.journal) j.ino=cp(j.ino); f.fds.clear(); return f; }
std::string Fs::describe() const { std::string s; for(auto&kv:names) s+=fmt(" %s:%zu",kv.first.c_str()+7,kv.second->data.size()); return s; }

static void apply_op(std::vector<u8>&d,const PendOp&o){ if(o.kind==1){ d.resize(o.len,0); return; } if(d.size()<o.off+o.data.size()) d.resize(o.off+o.data.size(),0); if(!o.data.empty()) memcpy(&d[o.off],o.data.data(),o.data.size()); }
void Fs::kill(){ fds.clear(); fdname.clear(); for(auto&kv:names){ kv.second->wlock=nullptr; kv.second->q.clear(); } crash_on=false; }
// After a power loss the durable content plus a legal subset of unsynced operations survives.
void Fs::power_loss(const CrashSpec& c){
  Rng r(mix2(c.seed,0xC0FFEE)); kill();
  // directory: a prefix of the not yet durable operations
  size_t k= c.style==1?0: c.style==2?journal.size(): r.below(journal.size()+1);
  std::map<std::string,InoP> nn=durable_names; for(size_t i=0;i<k;i++){ if(journal[i].kind==0) nn[journal[i].name]=journal[i].ino; else nn.erase(journal[i].name); }
  journal.clear();
  std::set<Inode*> done;
  for(auto&kv:nn){ Inode&f=*kv.second; if(!done.insert(&f).second) continue;
    std::vector<u8> cur=f.durable; std::vector<PendOp> ops; for(auto&o:f.pend) ops.push_back(o);
    size_t n=ops.size(); int st=c.style? c.style : (int)r.below(4); // 0 random 1 none 2 all 3 prefix
    size_t cut= st==1?0: st==2?n: r.below(n+1); u32 ow= st==1?0: st==2?100: (u32)r.pick(std::vector<int>{0,0,30,70,100}); if(st==3) ow=100;
    size_t lostn=0;
    for(size_t i=0;i<n;i++){ PendOp&o=ops[i]; if(o.lost){ lostn++; if(o.kind==0&&o.off+o.data.size()>cur.size()) cut=std::min(cut,i); continue; } // no holes: what follows a lost extension is lost with it
      if(o.kind==1){ if(i<cut) cur.resize(o.len,0); continue; }
      u64 end=o.off+o.data.size(); u64 in= o.off<cur.size()? std::min<u64>(end,cur.size())-o.off:0;
      // part inside the current size: sector-wise subset; before the cut and style 3: complete
      if(in){ u64 p=o.off; while(p<o.off+in){ u64 se=std::min((p/512+1)*512,o.off+in); bool keep= st==3? i<cut : (st==2||r.below(100)<ow); if(keep) memcpy(&cur[p],&o.data[p-o.off],se-p); else lostn++; p=se; } }
      if(end>cur.size()){ u64 from=cur.size(); u64 to=from; if(i<cut) to=end; else if(i==cut && st!=1 && !ops[i].lost){ // torn extension: a prefix
            to=std::max<u64>(from,o.off)+ (end>std::max<u64>(from,o.off)? r.below(end-std::max<u64>(from,o.off)+1):0); if(r.chance(1,3)) to=std::min<u64>(end,(to+511)/512*512); if(r.chance(1,3)) to=from; }
        if(to>from && to>o.off){ cur.resize(to,0); u64 s=std::max<u64>(from,o.off); memcpy(&cur[s],&o.data[s-o.off],to-s); } if(to<end) { lostn++; if(i<cut){} cut=std::min(cut,i); } }
    }
    if(lostn) g_stats.add("fault.unsynced_writes_lost",lostn); if(n) g_stats.add("power_loss_with_unsynced");
    f.data=cur; f.durable=cur; f.pend.clear(); }
  names=nn; durable_names=nn; g_stats.add("fault.power_loss");
}

// ---- system call core ----
struct Sys { int op; Inode* ino; const char* path; int store,role; Fault hit; Fault*orig=nullptr; };
static bool mutating(int op){ return op==FS_CREATE||op==FS_WRITE||op==FS_SYNC||op==FS_TRUNC||op==FS_UNLINK||op==FS_RENAME; }
static u64 lat(int op){ IoCfg&c=FS->io; u64 l=0; if(FS->quiet) return 0; if(c.lat_base_us||c.lat_jit_us) l=c.lat_base_us+(c.lat_jit_us? mix3(c.seed,FS->ord,11)%(c.lat_jit_us+1):0); if(op==FS_SYNC) l+=c.sync_us; if(op==FS_STAT||op==FS_ADVISE||op==FS_CLOSE) l=0; return l*1000; }
static bool crash_match(){ return FS->crash_on && (FS->crash.phase<0||(FS->crash.phase>>cur()->phase&1)); }
static void note_err(int store){ FS->errors_fired++; FS->err_by_store[store]++; cur()->err_fired++; int ph=cur()->phase; if(ph==0||ph==4||ph==9){ if(!FS->commit_err_time.count(store)) FS->commit_err_time[store]=W->now; FS->commit_err[store]++; } FS->last_err_seq=++W->seq; }
// returns matching fault or null
static Fault* pre(Sys&s){
  FS->ord++; if(s.op!=FS_READ&&s.op!=FS_STAT) FS->last_op_time=W->now; logev(0x70+s.op,((u64)(s.ino?s.ino->id:0)<<8)|s.role);
  bool cm=mutating(s.op)&&crash_match()&&FS->crash.trig>=1&&FS->crash.trig<=3;
  if(cm){ if(FS->mut_seen++==FS->crash.at){ if(FS->crash.trig==1){ g_stats.add("crash.before_op"); crash_now(); } if(!(FS->crash.trig==3&&s.op==FS_WRITE)) FS->crash.trig=12; else FS->crash.trig=13; FS->crash.at=FS->ord; } }
  Fault* hit=nullptr;
  if(!FS->quiet) for(auto&f:FS->faults){ if(f.op!=s.op&&!(f.op==FS_CREATE&&s.op==FS_OPEN&&0)) continue; if(!(f.roles&s.role)) continue; if(f.store>=0&&f.store!=s.store) continue; if(f.phase>=0&&!(f.phase>>cur()->phase&1)) continue; if(f.act==FA_EOF&&s.role==R_LOG) continue; // the end of the log is what tells how much of it was written
    u32 k=f.seen++; if(k>=f.nth && k-f.nth<f.count && !hit){ hit=&f; f.fired++; } }
  if(hit){ g_stats.add((std::string("fault.")+fsop_name[s.op]+"."+fact_name[hit->act]+(hit->act==FA_ERR||hit->act==FA_PARTIAL_ERR?fmt(".%d",hit->err):"")).c_str()); trace("FAULT %s role=%d act=%s err=%d",fsop_name[s.op],s.role,fact_name[hit->act],hit->err);
    logev(0x90+hit->act,hit->err); if(hit->act==FA_EOF||(hit->act==FA_ERR&&hit->err!=EINTR)) note_err(s.store);
    if(hit->act==FA_STALL){ FS->stall_active=true; FS->stall_from=W->now; FS->stall_fiber=cur()->id; u64 t=hit->arg; FS->stall_to=W->now+t; cur()->sim_stalled=true; sleep_for(t,"stalled I/O"); FS->stall_active=false; if(W->cur) W->cur->sim_stalled=false; } }
  if(hit){ s.hit=*hit; s.orig=hit; if(hit->act==FA_PARTIAL_ERR&&s.op==FS_WRITE){ hit->act=FA_ERR; hit->nth=0; hit->seen=0; hit->count=hit->count<1?1:hit->count; /* the next transfer fails */ } hit=&s.hit; }
  u64 l=lat(s.op); if(l) sleep_for(l,fsop_name[s.op]); else point(0x70+s.op);
  return hit;
}
static void post(Sys&s,i64 res){ logev(0xA0+s.op,(u64)res); if(FS->rec) FS->rec->push_back({s.op,s.store,s.role,0,0,0,cur()->id,++W->seq,W->now,(int)res});
  if(FS->crash_on&&(FS->crash.trig==12||FS->crash.trig==13)&&mutating(s.op)&&crash_match()){ g_stats.add("crash.after_op"); crash_now(); }
  point(0x80+s.op); }
static bool eintr(u64 salt){ IoCfg&c=FS->io; if(FS->quiet||!c.eintr_ppm) return false; if(mix3(c.seed,FS->ord,salt)%1000000<c.eintr_ppm){ g_stats.add("fault.EINTR"); return true;} return false; }
static size_t shorten(size_t n,u64 salt){ IoCfg&c=FS->io; if(FS->quiet||!c.short_ppm||n<2) return n; u64 h=mix3(c.seed,FS->ord,salt); if(h%1000000<c.short_ppm){ g_stats.add("fault.short_transfer"); u64 k=1+mix64(h)%(n-1); if((h>>40)%4==0) k=1; if((h>>40)%4==1) k=n-1; return k;} return n; }
static int fail(int e){ errno=e; return -1; }

// Data files larger than memory: logical offsets beyond the hole are translated to the bytes that are kept.
static u64 gap_of(const Inode&i){ if(i.role!=R_DAT||FS->gap.empty()) return 0; auto g=FS->gap.find(i.store); return g==FS->gap.end()?0:g->second; }
static u64 file_size(const Inode&i){ u64 n=i.data.size(); return n>=92?n+gap_of(i):n; }
static int fs_open(const char*path,int flags){
  std::string p(path); Sys s{(flags&O_CREAT)?FS_CREATE:FS_OPEN,nullptr,path,store_of(p),role_of(p)};
  Fault*f=pre(s); if(f&&f->act==FA_ERR){ post(s,-f->err); return fail(f->err);} if(eintr(5)){ trace("open %s -> interrupted",path); post(s,-EINTR); return fail(EINTR);}
  auto it=FS->names.find(p); InoP ino;
  if(it==FS->names.end()){ if(!(flags&O_CREAT)){ post(s,-ENOENT); return fail(ENOENT);} ino=std::make_shared<Inode>(); ino->id=FS->next_ino++; ino->store=s.store; ino->role=s.role; FS->names[p]=ino; FS->journal.push_back({0,p,ino}); trace("create %s",path); }
  else { if((flags&O_CREAT)&&(flags&O_EXCL)){ post(s,-EEXIST); return fail(EEXIST);} ino=it->second; if(flags&O_TRUNC){ if(ino->role==R_DAT&&ino->data.size()) FS->dat_violation="data file truncated by open"; ino->pend.push_back({1,0,{},0,FS->serial++}); ino->data.clear(); } trace("open %s flags=%x",path,flags); }
  int fd=FD0; while(FS->fds.count(fd)) fd++; reset_pos(fd); FS->fds[fd]={ino,flags}; FS->fdname[fd]=p; FS->fd_opened++; post(s,fd-FD0); return fd;
}
static bool getfd(int fd,InoP&i,int&fl){ auto it=FS->fds.find(fd); if(it==FS->fds.end()) return false; i=it->second.first; fl=it->second.second; return true; }
static void lock_ino(Inode&i){ while(i.wlock&&i.wlock!=cur()){ i.q.push_back(cur()); block("inode",i.id); i.q.erase(std::remove(i.q.begin(),i.q.end(),cur()),i.q.end()); } i.wlock=cur(); }
static void unlock_ino(Inode&i){ i.wlock=nullptr; for(Fiber*f:i.q) ready(f); }
static ssize_t fs_read(int fd,void*buf,size_t n,off_t off){
  InoP i; int fl; if(!getfd(fd,i,fl)) return fail(EBADF); if((fl&O_ACCMODE)==O_WRONLY) return fail(EBADF); if(off<0) return fail(EINVAL);
  Sys s{FS_READ,i.get(),nullptr,i->store,i->role}; Fault*f=pre(s);
  if(!getfd(fd,i,fl)) return fail(EBADF);
  if(f&&f->act==FA_ERR){ trace("pread %s off=%lld n=%zu -> errno %d",FS->fdname[fd].c_str()+7,(long long)off,n,f->err); post(s,-f->err); return fail(f->err);} if(f&&f->act==FA_EOF){ post(s,0); return 0; }
  if(eintr(3)){ post(s,-EINTR); return fail(EINTR);} 
  if(u64 g=gap_of(*i)){ u64 o=off; if(o<92) n=std::min<u64>(n,92-o); else if(o<92+g){ n=std::min<u64>(n,92+g-o); if(n){ access_range(buf,n,true,__builtin_return_address(0)); if(g_check_heap&&in_heap(buf)) heap_check(buf,n,true,__builtin_return_address(0)); memset(buf,0,n); } trace("pread %s off=%lld n=%zu in the hole",FS->fdname[fd].c_str()+7,(long long)off,n); post(s,(i64)n); return (ssize_t)n; } else off-=g; }
  size_t sz=i->data.size(); size_t m= (u64)off>=sz?0:std::min<u64>(n,sz-off); 
  if(f&&(f->act==FA_SHORT||f->act==FA_PARTIAL_ERR)&&m>1) m=1+f->arg%(m-1+(f->act==FA_PARTIAL_ERR?1:0)); m=shorten(m,5);
  if(i->role==R_LOG&&off>100000) g_stats.add("probe.log_read_in_parts");
  trace("pread %s off=%lld n=%zu -> %zu",FS->fdname[fd].c_str()+7,(long long)off,n,m);
  if(m){ access_range(buf,m,true,__builtin_return_address(0)); if(g_check_heap&&in_heap(buf)) heap_check(buf,m,true,__builtin_return_address(0)); }
  u32 ch=FS->quiet?0:FS->io.chunk; size_t done=0; while(done<m){ size_t k= ch? std::min<size_t>(m-done,ch):m-done; size_t now=i->data.size(); if((u64)off+done>=now){ m=done; break;} k=std::min<size_t>(k,now-off-done); memcpy((u8*)buf+done,&i->data[off+done],k); done+=k; if(done<m&&ch) point(0x88); }
  u64 h=m; for(size_t q=0;q<m;q+=97) h=mix2(h,((u8*)buf)[q]); logev(0xB0,h); post(s,(i64)m); return (ssize_t)m;
}
static ssize_t fs_write(int fd,const void*buf,size_t n,off_t off){
  InoP i; int fl; if(!getfd(fd,i,fl)) return fail(EBADF); if((fl&O_ACCMODE)==O_RDONLY) return fail(EBADF); if(off<0) return fail(EINVAL);
  if(n) { if(g_check_heap&&in_heap(buf)) heap_check(buf,n,false,__builtin_return_address(0)); access_range(buf,n,false,__builtin_return_address(0)); }
  Sys s{FS_WRITE,i.get(),nullptr,i->store,i->role}; { int ph=cur()->phase; if(ph==0||ph==4||ph==9){ auto&v=FS->commits[i->store]; if(i->role==R_LOG&&off==0){ CommitRec c; c.t0=W->now; c.seq0=++W->seq; v.push_back(c); } if(!v.empty()){ auto&c=v.back(); (i->role==R_DAT?c.dat:i->role==R_KEY?c.key:c.log)+=n; } } }
  Fault*f=pre(s);
  if(f&&f->act==FA_ERR){ trace("pwrite %s off=%lld n=%zu -> errno %d",FS->fdname[fd].c_str()+7,(long long)off,n,f->err); post(s,-f->err); return fail(f->err);} 
  if(eintr(3)){ post(s,-EINTR); return fail(EINTR);} 
  size_t m=n; if(f&&(f->act==FA_SHORT||f->act==FA_PARTIAL_ERR)&&m>1) m=1+f->arg%(m-1); if(f&&f->act==FA_PARTIAL_ERR&&n<2){ note_err(s.store); s.orig->seen=1; post(s,-f->err); return fail(f->err); }
  m=shorten(m,5);
  if(i->role==R_LOG&&off>100000) g_stats.add("probe.log_written_in_parts");
  lock_ino(*i);
  u64 o=(fl&O_APPEND)? i->data.size():(u64)off; if(u64 g=gap_of(*i)) if(!(fl&O_APPEND)&&o>=92){ if(o<92+g){ if(FS->dat_violation.empty()) FS->dat_violation=fmt("write of %zu bytes at offset %llu inside the data file of size %llu",n,(unsigned long long)o,(unsigned long long)file_size(*i)); trace("pwrite %s off=%llu n=%zu in the hole",FS->fdname[fd].c_str()+7,(unsigned long long)o,n); unlock_ino(*i); post(s,(i64)m); return (ssize_t)m; } o-=g; }
  if(FS->io.disk_cap && !FS->quiet){ u64 tot=0; for(auto&kv:FS->names) tot+=kv.second->data.size(); u64 grow= o+m>i->data.size()? o+m-i->data.size():0; if(tot+grow>FS->io.disk_cap){ u64 room= FS->io.disk_cap>tot?FS->io.disk_cap-tot:0; u64 can= (i->data.size()>o?i->data.size()-o:0)+room; m=std::min<u64>(m,can); g_stats.add("fault.disk_full"); if(!m){ unlock_ino(*i); note_err(s.store); post(s,-ENOSPC); return fail(ENOSPC);} } }
  u64 before=i->data.size();
  trace("pwrite %s off=%llu n=%zu -> %zu (size %llu)",FS->fdname[fd].c_str()+7,(unsigned long long)o,n,m,(unsigned long long)before);
  if(i->role==R_DAT && o<before && m && FS->dat_violation.empty()){ bool same=true; for(u64 q=o;q<std::min<u64>(before,o+m);q++) if(i->data[q]!=((const u8*)buf)[q-o]) same=false; FS->dat_violation=fmt("write of %zu bytes at offset %llu inside the data file of size %llu%s",m,(unsigned long long)o,(unsigned long long)before,same?" (equal bytes)":""); }
  bool mid= FS->crash_on && FS->crash.trig==13 && crash_match(); size_t stop= mid? mix3(FS->crash.seed,m,77)%(m+1):m; 
  u32 ch=FS->quiet?0:FS->io.chunk; size_t done=0; while(done<stop){ size_t k= ch? std::min<size_t>(stop-done,ch):stop-done; PendOp po{0,o+done,std::vector<u8>((const u8*)buf+done,(const u8*)buf+done+k),0,FS->serial++};
    if(ch && done && !i->pend.empty()){ PendOp&l=i->pend.back(); if(l.kind==0&&l.off+l.data.size()==po.off&&l.serial==FS->serial-2) { l.data.insert(l.data.end(),po.data.begin(),po.data.end()); l.serial=po.serial; apply_op(i->data,po); goto merged; } }
    apply_op(i->data,po); i->pend.push_back(std::move(po));
    merged: done+=k; if(done<stop&&ch) point(0x89); }
  unlock_ino(*i);
  if(mid){ g_stats.add("crash.middle_of_write"); crash_now(); }
  u64 h=m; for(size_t q=0;q<m;q+=97) h=mix2(h,((const u8*)buf)[q]); logev(0xB1,mix2(o,h)); post(s,(i64)m); return (ssize_t)m;
}
// the thread that ran a commit is done with it
void vfs_flusher_idle(int fiber){ for(auto&kv:FS->commits) if(!kv.second.empty()){ auto&l=kv.second.back(); if(l.fib==fiber&&l.t2&&!l.t3) l.t3=W->now; } }
static int fs_sync(int fd){
  InoP i; int fl; if(!getfd(fd,i,fl)) return fail(EBADF); Sys s{FS_SYNC,i.get(),nullptr,i->store,i->role};
  u64 upto=FS->serial; size_t dirn=FS->journal.size(); std::vector<DirOp> dj=FS->journal; 
  Fault*f=pre(s); 
  if(f&&f->act==FA_ERR){ trace("fsync %s -> errno %d",FS->fdname[fd].c_str()+7,f->err); if(f->err!=EINTR) for(auto&o:i->pend) if(o.serial<upto && o.kind==0 && mix3(FS->io.seed,o.serial,9)%2) o.lost=true; post(s,-f->err); return fail(f->err);} 
  if(eintr(3)){ post(s,-EINTR); return fail(EINTR);} 
  trace("fsync %s",FS->fdname[fd].c_str()+7);
  std::vector<PendOp> rest; for(auto&o:i->pend){ if(o.lost) { rest.push_back(o); continue;} if(o.serial<upto) apply_op(i->durable,o); else rest.push_back(o); } i->pend.swap(rest);
  // an fsync makes all earlier directory operations durable (ordered journal)
  size_t k=std::min(dirn,FS->journal.size()); bool same=true; for(size_t q=0;q<k;q++) if(FS->journal[q].name!=dj[q].name||FS->journal[q].kind!=dj[q].kind) { same=false; break; }
  if(same){ for(size_t q=0;q<k;q++){ if(FS->journal[q].kind==0) FS->durable_names[FS->journal[q].name]=FS->journal[q].ino; else FS->durable_names.erase(FS->journal[q].name); } FS->journal.erase(FS->journal.begin(),FS->journal.begin()+k); }
  if(i->role==R_LOG&&i->data.empty()&&FS->committed_size.count(i->store)){ int ph=cur()->phase; if(ph==0||ph==4||ph==9){ auto c=FS->commits.find(i->store); if(c!=FS->commits.end()&&!c->second.empty()&&c->second.back().t1&&!FS->commit_err[i->store]) for(auto&kv:FS->names) if(kv.second->store==i->store&&kv.second->role==R_DAT) FS->committed_size[i->store]=std::max<u64>(FS->committed_size[i->store],kv.second->data.size()); } } // a finished commit is never rolled back
  post(s,0); if(i->role==R_LOG&&i->data.empty()){ auto c=FS->commits.find(i->store); if(c!=FS->commits.end()&&!c->second.empty()){ auto&l=c->second.back(); if(l.t1&&!l.t2){ l.t2=W->now; l.fib=cur()->id; cur()->note_idle=true; } } } return 0;
}
static int fs_trunc(InoP i,u64 len){ if(i->role==R_LOG&&len==0&&FS->commits.count(i->store)&&!FS->commits[i->store].empty()&&!FS->commits[i->store].back().t1) FS->commits[i->store].back().t1=W->now; Sys s{FS_TRUNC,i.get(),nullptr,i->store,i->role}; Fault*f=pre(s); if(f&&f->act==FA_ERR){ trace("trunc role %d -> errno %d",i->role,f->err); post(s,-f->err); return fail(f->err);} if(eintr(3)){ post(s,-EINTR); return fail(EINTR);} 
  if(u64 g=gap_of(*i)){ if(len>=92+g) len-=g; else len=std::min<u64>(len,92); }
  lock_ino(*i); trace("trunc role %d %zu -> %llu",i->role,i->data.size(),(unsigned long long)len);
  if(i->role==R_DAT){ auto it=FS->committed_size.find(i->store); if(it!=FS->committed_size.end()&&len<it->second&&FS->dat_violation.empty()) FS->dat_violation=fmt("data file truncated to %llu bytes, below %llu committed bytes",(unsigned long long)len,(unsigned long long)it->second); if(len>i->data.size()&&FS->dat_violation.empty()) FS->dat_violation="data file extended by truncate"; }
  PendOp po{1,0,{},len,FS->serial++}; apply_op(i->data,po); i->pend.push_back(po); unlock_ino(*i); logev(0xB2,len); post(s,0); return 0; }
static int fs_unlink(const char*path){ std::string p(path); Sys s{FS_UNLINK,nullptr,path,store_of(p),role_of(p)}; Fault*f=pre(s); if(f&&f->act==FA_ERR){ post(s,-f->err); return fail(f->err);} auto it=FS->names.find(p); if(it==FS->names.end()){ post(s,-ENOENT); return fail(ENOENT);} trace("unlink %s",path);
  if(s.role==R_DAT && FS->committed_size.count(s.store) && FS->dat_violation.empty()) FS->dat_violation="data file unlinked";
  InoP ino=it->second; FS->names.erase(it); FS->journal.push_back({1,p,ino}); post(s,0); return 0; }
static int fs_rename(const char*a,const char*b){ std::string pa(a),pb(b); Sys s{FS_RENAME,nullptr,a,store_of(pa),role_of(pa)}; Fault*f=pre(s); if(f&&f->act==FA_ERR){ post(s,-f->err); return fail(f->err);} auto it=FS->names.find(pa); if(it==FS->names.end()){ post(s,-ENOENT); return fail(ENOENT);} if((s.role==R_DAT||role_of(pb)==R_DAT)&&FS->dat_violation.empty()) FS->dat_violation="data file renamed"; InoP ino=it->second; FS->names[pb]=ino; FS->names.erase(pa); ino->store=store_of(pb); ino->role=role_of(pb); FS->journal.push_back({0,pb,ino}); FS->journal.push_back({1,pa,ino}); post(s,0); return 0; }
static int fs_close(int fd){ InoP i; int fl; if(!getfd(fd,i,fl)) return fail(EBADF); Sys s{FS_CLOSE,i.get(),nullptr,i->store,i->role}; trace("close %s",FS->fdname[fd].c_str()+7); pre(s); FS->fds.erase(fd); FS->fdname.erase(fd); post(s,0); return 0; }
static int fs_stat(InoP i,struct stat*st){ Sys s{FS_STAT,i.get(),nullptr,i->store,i->role}; Fault*f=pre(s); if(f&&f->act==FA_ERR){ post(s,-f->err); return fail(f->err);} memset(st,0,sizeof *st); st->st_size=file_size(*i); st->st_mode=S_IFREG|0644; st->st_ino=i->id; st->st_nlink=1; st->st_blksize=4096; st->st_blocks=(i->data.size()+511)/512; post(s,(i64)file_size(*i)); return 0; }
}
using namespace sim;
#define REAL(ret,name,...) static ret(*r)(__VA_ARGS__)=nullptr; if(!r) r=(ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT,#name);
static inline bool sut(){ return g_in_sut; }
static bool sfd(int fd){ return fd>=FD0; }
static void foreign(const char*what,const char*p){ if(FS){ SimScope s; FS->foreign.push_back(std::string(what)+" "+(p?p:"?")); } }
extern "C" {
int open(const char*p,int fl,...){ int mode=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} if(sut()&&simpath(p)){ SimScope s; return fs_open(p,fl);} if(sut()&&FS){ foreign("open",p); errno=EACCES; return -1; } REAL(int,open,const char*,int,...) return r(p,fl,mode); }
int open64(const char*p,int fl,...){ int mode=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} if(sut()&&simpath(p)){ SimScope s; return fs_open(p,fl);} if(sut()&&FS){ foreign("open",p); errno=EACCES; return -1; } REAL(int,open64,const char*,int,...) return r(p,fl,mode); }
int openat(int d,const char*p,int fl,...){ int mode=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} if(sut()&&simpath(p)){ SimScope s; return fs_open(p,fl);} REAL(int,openat,int,const char*,int,...) return r(d,p,fl,mode); }
int creat(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int close(int fd){ if(sfd(fd)){ SimScope s; int e=errno; int rc=fs_close(fd); if(!rc) errno=e; return rc;} REAL(int,close,int) return r(fd); }
ssize_t pread(int fd,void*b,size_t n,off_t o){ if(sut()){ if(!sfd(fd)){errno=EBADF;return -1;} SimScope s; return fs_read(fd,b,n,o);} REAL(ssize_t,pread,int,void*,size_t,off_t) return r(fd,b,n,o); }
ssize_t pread64(int fd,void*b,size_t n,off_t o){ if(sut()) return pread(fd,b,n,o); REAL(ssize_t,pread64,int,void*,size_t,off_t) return r(fd,b,n,o); }
ssize_t pwrite(int fd,const void*b,size_t n,off_t o){ if(sut()){ if(!sfd(fd)){errno=EBADF;return -1;} SimScope s; return fs_write(fd,b,n,o);} REAL(ssize_t,pwrite,int,const void*,size_t,off_t) return r(fd,b,n,o); }
ssize_t pwrite64(int fd,const void*b,size_t n,off_t o){ if(sut()) return pwrite(fd,b,n,o); REAL(ssize_t,pwrite64,int,const void*,size_t,off_t) return r(fd,b,n,o); }
ssize_t preadv(int fd,const iovec*v,int c,off_t o){ if(sut()){ ssize_t t=0; for(int i=0;i<c;i++){ ssize_t k=pread(fd,v[i].iov_base,v[i].iov_len,o+t); if(k<0) return t?t:k; t+=k; if((size_t)k<v[i].iov_len) break; } return t; } REAL(ssize_t,preadv,int,const iovec*,int,off_t) return r(fd,v,c,o); }
ssize_t pwritev(int fd,const iovec*v,int c,off_t o){ if(sut()){ ssize_t t=0; for(int i=0;i<c;i++){ ssize_t k=pwrite(fd,v[i].iov_base,v[i].iov_len,o+t); if(k<0) return t?t:k; t+=k; if((size_t)k<v[i].iov_len) break; } return t; } REAL(ssize_t,pwritev,int,const iovec*,int,off_t) return r(fd,v,c,o); }
ssize_t read(int fd,void*b,size_t n){ if(sfd(fd)){ off_t&p=fpos(fd); ssize_t k=pread(fd,b,n,p); if(k>0) fpos(fd)+=k; return k;} REAL(ssize_t,read,int,void*,size_t) return r(fd,b,n); }
ssize_t write(int fd,const void*b,size_t n){ if(sfd(fd)){ off_t&p=fpos(fd); ssize_t k=pwrite(fd,b,n,p); if(k>0) fpos(fd)+=k; return k;} REAL(ssize_t,write,int,const void*,size_t) return r(fd,b,n); }
off_t lseek(int fd,off_t o,int w){ if(sfd(fd)){ SimScope s; InoP i; int fl; if(!getfd(fd,i,fl)){errno=EBADF;return -1;} off_t b=w==SEEK_SET?0:w==SEEK_CUR?fpos(fd):(off_t)file_size(*i); fpos(fd)=b+o; return b+o;} REAL(off_t,lseek,int,off_t,int) return r(fd,o,w); }
off_t lseek64(int fd,off_t o,int w){ return lseek(fd,o,w); }
int fsync(int fd){ if(sut()){ if(!sfd(fd)){errno=EBADF;return -1;} SimScope s; return fs_sync(fd);} REAL(int,fsync,int) return r(fd); }
int fdatasync(int fd){ if(sut()) return fsync(fd); REAL(int,fdatasync,int) return r(fd); }
int syncfs(int fd){ if(sut()) return fsync(fd); REAL(int,syncfs,int) return r(fd); }
int ftruncate(int fd,off_t n){ if(sut()){ SimScope s; InoP i; int fl; if(!sfd(fd)||!getfd(fd,i,fl)){errno=EBADF;return -1;} if((fl&O_ACCMODE)==O_RDONLY||n<0){errno=EINVAL;return -1;} return fs_trunc(i,n);} REAL(int,ftruncate,int,off_t) return r(fd,n); }
int ftruncate64(int fd,off_t n){ if(sut()) return ftruncate(fd,n); REAL(int,ftruncate64,int,off_t) return r(fd,n); }
int truncate(const char*p,off_t n){ if(sut()){ SimScope s; auto it=FS->names.find(p); if(it==FS->names.end()){errno=ENOENT;return -1;} return fs_trunc(it->second,n);} REAL(int,truncate,const char*,off_t) return r(p,n); }
int unlink(const char*p){ if(sut()){ if(!simpath(p)){ foreign("unlink",p); errno=EACCES; return -1;} SimScope s; return fs_unlink(p);} REAL(int,unlink,const char*) return r(p); }
int remove(const char*p){ if(sut()) return unlink(p); REAL(int,remove,const char*) return r(p); }
int rename(const char*a,const char*b){ if(sut()){ if(!simpath(a)||!simpath(b)){ foreign("rename",a); errno=EACCES; return -1;} SimScope s; return fs_rename(a,b);} REAL(int,rename,const char*,const char*) return r(a,b); }
int fstat(int fd,struct stat*st){ if(sut()){ SimScope s; InoP i; int fl; if(!sfd(fd)||!getfd(fd,i,fl)){errno=EBADF;return -1;} return fs_stat(i,st);} REAL(int,fstat,int,struct stat*) return r(fd,st); }
int stat(const char*p,struct stat*st){ if(sut()){ SimScope s; auto it=FS->names.find(p); if(it==FS->names.end()){errno=ENOENT;return -1;} return fs_stat(it->second,st);} REAL(int,stat,const char*,struct stat*) return r(p,st); }
int lstat(const char*p,struct stat*st){ if(sut()) return stat(p,st); REAL(int,lstat,const char*,struct stat*) return r(p,st); }
int access(const char*p,int m){ if(sut()){ SimScope s; if(!FS->names.count(p)){errno=ENOENT;return -1;} return 0;} REAL(int,access,const char*,int) return r(p,m); }
int posix_fadvise(int fd,off_t a,off_t b,int c){ if(sut()){ SimScope s; InoP i; int fl; if(!sfd(fd)||!getfd(fd,i,fl)) return EBADF; Sys y{FS_ADVISE,i.get(),nullptr,i->store,i->role}; Fault*f=pre(y); int rc= f&&f->act==FA_ERR? f->err:0; post(y,rc); return rc;} /* the result is the error, errno is not set */ REAL(int,posix_fadvise,int,off_t,off_t,int) return r(fd,a,b,c); }
int posix_fallocate(int fd,off_t o,off_t n){ if(sut()){ SimScope s; InoP i; int fl; if(!sfd(fd)||!getfd(fd,i,fl)) return EBADF; if((u64)(o+n)>file_size(*i)) { if(fs_trunc(i,o+n)) return errno; } return 0;} REAL(int,posix_fallocate,int,off_t,off_t) return r(fd,o,n); }
int statvfs(const char*p,struct statvfs*st){ if(sut()){ memset(st,0,sizeof *st); st->f_bsize=4096; st->f_frsize=4096; st->f_blocks=1<<20; st->f_bfree=st->f_bavail=1<<19; return 0;} REAL(int,statvfs,const char*,struct statvfs*) return r(p,st); }
int flock(int fd,int o){ if(sut()) return 0; REAL(int,flock,int,int) return r(fd,o); }
int fcntl(int fd,int c,...){ va_list a; va_start(a,c); void*x=va_arg(a,void*); va_end(a); if(sfd(fd)){ SimScope s; InoP i; int fl; if(!getfd(fd,i,fl)){errno=EBADF;return -1;} if(c==F_GETFL) return fl; return 0; } REAL(int,fcntl,int,int,...) return r(fd,c,x); }
int fstat64(int fd,struct stat64*st){ return fstat(fd,(struct stat*)st); } // the same layout on 64-bit targets
int stat64(const char*p,struct stat64*st){ return stat(p,(struct stat*)st); }
int lstat64(const char*p,struct stat64*st){ return lstat(p,(struct stat*)st); }
int fstatat(int d,const char*p,struct stat*st,int fl){ if(sut()) return fl&AT_EMPTY_PATH&&p&&!*p? fstat(d,st):stat(p,st); REAL(int,fstatat,int,const char*,struct stat*,int) return r(d,p,st,fl); }
int fstatat64(int d,const char*p,struct stat64*st,int fl){ return fstatat(d,p,(struct stat*)st,fl); }
int creat64(const char*p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int openat64(int d,const char*p,int fl,...){ int mode=0; if(fl&O_CREAT){ va_list a; va_start(a,fl); mode=va_arg(a,int); va_end(a);} return openat(d,p,fl,mode); }
ssize_t preadv64(int fd,const iovec*v,int c,off_t o){ return preadv(fd,v,c,o); }
ssize_t pwritev64(int fd,const iovec*v,int c,off_t o){ return pwritev(fd,v,c,o); }
ssize_t preadv2(int fd,const iovec*v,int c,off_t o,int fl){ if(sut()) return preadv(fd,v,c,o); REAL(ssize_t,preadv2,int,const iovec*,int,off_t,int) return r(fd,v,c,o,fl); }
ssize_t pwritev2(int fd,const iovec*v,int c,off_t o,int fl){ if(sut()) return pwritev(fd,v,c,o); REAL(ssize_t,pwritev2,int,const iovec*,int,off_t,int) return r(fd,v,c,o,fl); }
ssize_t readv(int fd,const iovec*v,int c){ if(sfd(fd)){ off_t&p=fpos(fd); ssize_t k=preadv(fd,v,c,p); if(k>0) fpos(fd)+=k; return k;} REAL(ssize_t,readv,int,const iovec*,int) return r(fd,v,c); }
ssize_t writev(int fd,const iovec*v,int c){ if(sfd(fd)){ off_t&p=fpos(fd); ssize_t k=pwritev(fd,v,c,p); if(k>0) fpos(fd)+=k; return k;} REAL(ssize_t,writev,int,const iovec*,int) return r(fd,v,c); }
int truncate64(const char*p,off_t n){ return truncate(p,n); }
int unlinkat(int d,const char*p,int fl){ if(sut()) return unlink(p); REAL(int,unlinkat,int,const char*,int) return r(d,p,fl); }
int renameat(int d,const char*a,int e,const char*b){ if(sut()) return rename(a,b); REAL(int,renameat,int,const char*,int,const char*) return r(d,a,e,b); }
int faccessat(int d,const char*p,int m,int fl){ if(sut()) return access(p,m); REAL(int,faccessat,int,const char*,int,int) return r(d,p,m,fl); }
int posix_fadvise64(int fd,off_t a,off_t b,int c){ return posix_fadvise(fd,a,b,c); }
int posix_fallocate64(int fd,off_t a,off_t b){ return posix_fallocate(fd,a,b); }
ssize_t readahead(int fd,off64_t o,size_t n){ if(sut()) return sfd(fd)?0:(errno=EBADF,-1); REAL(ssize_t,readahead,int,off64_t,size_t) return r(fd,o,n); }
int fcntl64(int fd,int c,...){ va_list a; va_start(a,c); void*x=va_arg(a,void*); va_end(a); return fcntl(fd,c,x); }
int sync_file_range(int fd,off64_t o,off64_t n,unsigned fl){ if(sut()) return sfd(fd)?0:(errno=EBADF,-1); REAL(int,sync_file_range,int,off64_t,off64_t,unsigned) return r(fd,o,n,fl); }
}
