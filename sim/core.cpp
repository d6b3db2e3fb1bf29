#include "core.h"
#include "sut_api.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <csetjmp>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <exception>
#include <algorithm>

extern "C" void sim_switch(void** save,void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim {
World* W=nullptr; bool g_in_sut=false; i64 g_mem_countdown=INT64_MAX, g_mem_loaded=INT64_MAX;
Stats g_stats; FILE* g_trace=nullptr;
static void* driver_sp; static sigjmp_buf driver_jmp; static volatile bool g_in_world=false;

u64 Rng::geo(u64 mean){ // 1..~20*mean
  double u=unit(); if(u<1e-9)u=1e-9; double v=-__builtin_log(u)*mean; return 1+(u64)v; }

std::string fmt(const char* f,...){ char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
void trace(const char* f,...){ if(!g_trace) return; fprintf(g_trace,"[%12.6f #%llu f%d] ",W?W->now/1e9:0.0,W?(unsigned long long)W->step:0ull,W&&W->cur?W->cur->id:-1);
  va_list a; va_start(a,f); vfprintf(g_trace,f,a); va_end(a); fputc('\n',g_trace); }

const size_t STK=256*1024; static u8* stk_base=nullptr; static bool stk_dirty[MAXF];
static u8* stack_for(int i){
  if(!stk_base){ stk_base=(u8*)mmap((void*)0x0f0000000000ull,(STK+65536)*MAXF,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(stk_base==MAP_FAILED){ perror("stack mmap"); _exit(3);} 
    for(int k=0;k<MAXF;k++) mprotect(stk_base+k*(STK+65536),4096,PROT_NONE); }
  return stk_base+i*(STK+65536)+4096;
}
static u64* ehg(){ return (u64*)abi::__cxa_get_globals(); }

static void load_countdown(){
  World&w=*W; i64 c=INT64_MAX;
  if(w.sc.mode==3){ while(w.expl_pos<w.sc.list.size() && w.sc.list[w.expl_pos].first<=w.step) w.expl_pos++;
    if(w.expl_pos<w.sc.list.size()) c=(i64)(w.sc.list[w.expl_pos].first-w.step); }
  else if(w.sc.mode==1){ while(!w.pct_changes.empty() && w.pct_changes.back()<=w.step) w.pct_changes.pop_back();
    if(!w.pct_changes.empty()) c=(i64)(w.pct_changes.back()-w.step); }
  else if(w.sc.mode==0 && w.sc.mem_mean) c=(i64)w.srng.geo(w.sc.mem_mean);
  if(w.crash_armed && w.crash_step){ i64 d=(i64)(w.crash_step>w.step? w.crash_step-w.step:1); if(d<c)c=d; }
  i64 lim=(i64)(w.step_limit>w.step?w.step_limit-w.step+1:1); if(lim<c)c=lim;
  if(c>200000) c=200000; // bounds the time between clock updates
  g_mem_countdown=g_mem_loaded=c;
}
void flush_steps(){ i64 d=g_mem_loaded-g_mem_countdown; if(d>0){ W->step+=d; W->now+=d*3; } g_mem_loaded=g_mem_countdown; }

[[noreturn]] void end_world(Outcome o){ W->out=o; g_in_sut=false; flush_steps();
  if(W->cur) W->cur->sp=nullptr; void* dummy; sim_switch(&dummy,driver_sp); abort(); }
[[noreturn]] void violation(const std::string& k,const std::string& m){ if(!W||!g_in_world){ fprintf(stderr,"violation outside world: %s %s\n",k.c_str(),m.c_str()); _exit(3);} 
  W->vkind=k; W->vmsg=m; logev(mix64(k.size()),k.empty()?0:k[0]); trace("VIOLATION %s: %s",k.c_str(),m.c_str()); end_world(O_VIOL); }
[[noreturn]] void crash_now(){ trace("CRASH"); logev(0xC4A5); end_world(O_CRASH); }

static void limits(){ World&w=*W;
  if(w.crash_armed && ((w.crash_step && w.step>=w.crash_step)||(w.crash_time && w.now>=w.crash_time))) { g_stats.add("crash_at_step"); crash_now(); }
  if(w.step>w.step_limit) violation("nontermination","step limit reached");
  if(w.now>w.time_limit) violation("nontermination","simulated time limit reached");
}

// value of the recorded/explicit/random choice at the current step (no step increment here)
static u32 decide(u32 n,u32 def,u32 ppm){
  World&w=*W; u32 v=def;
  if(n>1){
    if(w.sc.mode==3){ while(w.expl_pos<w.sc.list.size() && w.sc.list[w.expl_pos].first<w.step) w.expl_pos++;
      if(w.expl_pos<w.sc.list.size() && w.sc.list[w.expl_pos].first==w.step){ v=w.sc.list[w.expl_pos].second; if(v>=n) v=def; w.expl_pos++; } }
    else if(w.sc.mode!=2 && ppm){ if(w.srng.below(1000000)<ppm) v=(u32)w.srng.below(n); }
    if(v!=def) w.rec.push_back({w.step,v});
  }
  return v;
}
u32 choose(u32 kind,u32 n,u32 def,u32 ppm){ (void)kind; flush_steps(); W->step++; W->now+=20; u32 v=decide(n,def,ppm); load_countdown(); return v; }

static void wake_due(){ World&w=*W; for(Fiber*f:w.fibers) if((f->st==F_SLEEP||(f->st==F_BLOCK&&f->blocked_deadline)) && f->wake<=w.now){ if(f->st==F_BLOCK) f->timed_out=true; f->st=F_RUN; f->blocked_deadline=false; } }

static void do_switch(Fiber* to){
  World&w=*W; Fiber* from=w.cur; if(from==to) return;
  w.switches++; w.ilv=mix2(w.ilv,((u64)to->id<<48)^(from?(u64)from->id<<56:0)^w.points);
  logev(0x53ull<<8|to->id,w.step);
  from->eh[0]=ehg()[0]; from->eh[1]=ehg()[1]; from->err=errno;
  w.cur=to; ehg()[0]=to->eh[0]; ehg()[1]=to->eh[1]; errno=to->err;
  sim_switch(&from->sp,to->sp);
}

static Fiber* pick_next(bool cur_ok,bool at_sync){
  World&w=*W; std::vector<Fiber*>&F=w.fibers; static std::vector<Fiber*> R; R.clear();
  for(Fiber*f:F) if(f->st==F_RUN) R.push_back(f);
  if(R.empty()) return nullptr;
  u32 def=0; if(cur_ok){ for(u32 i=0;i<R.size();i++) if(R[i]==w.cur) def=i; }
  else { for(u32 i=0;i<R.size();i++) if(R[i]->id>w.cur->id){ def=i; break; } }
  if(R.size()==1) return R[0];
  if(w.sc.mode==1){
    if(!w.pct_changes.empty() && w.pct_changes.back()<=w.step){ while(!w.pct_changes.empty() && w.pct_changes.back()<=w.step) w.pct_changes.pop_back(); w.cur->prio=w.pct_low--; }
    u32 b=0; for(u32 i=1;i<R.size();i++) if(R[i]->prio>R[b]->prio) b=i;
    if(b!=def) w.rec.push_back({w.step,b});
    return R[b];
  }
  u32 ppm= cur_ok ? (at_sync? w.sc.sync_pct*10000u : 1000000u) : 1000000u;
  return R[decide((u32)R.size(),def,ppm)];
}

static void resched(bool cur_ok,bool at_sync){
  World&w=*W; flush_steps();
  if(at_sync){ w.step++; w.now+=20; w.points++; }
  wake_due(); limits();
  Fiber* n=nullptr;
  for(;;){
    n=pick_next(cur_ok,at_sync);
    if(n) break;
    u64 t=UINT64_MAX; for(Fiber*f:w.fibers) if(f->st==F_SLEEP||(f->st==F_BLOCK&&f->blocked_deadline)) t=std::min(t,f->wake);
    if(w.crash_armed && w.crash_time && w.crash_time>w.now && (t==UINT64_MAX||w.crash_time<=t)){ w.now=w.crash_time; limits(); }
    if(t==UINT64_MAX){ std::string m; for(Fiber*f:w.fibers) if(f->st==F_BLOCK) m+=fmt(" f%d:%s",f->id,f->wait_what); violation("deadlock","all threads blocked:"+m); }
    w.now=std::max(w.now,t); wake_due(); limits();
  }
  if(n!=w.cur) do_switch(n);
  load_countdown();
}
static void maybe_stall(){ World&w=*W; if(!w.sc.stall_ppm) return; 
  u32 v=choose(3,5,0,w.sc.stall_ppm); if(v){ static const u64 d[5]={0,50000,3000000,40000000,1300000000}; g_stats.add("fault.thread_stall"); w.cur->st=F_SLEEP; w.cur->wake=w.now+d[v]; resched(false,true); } }

void point(u32 kind){ SimScope s; logev(kind,W->cur->id); maybe_stall(); resched(true,true); }
void mem_slow(){ SimScope s; resched(true,false); }
void block(const char* what,u64 obj){ Fiber*f=W->cur; f->st=F_BLOCK; f->blocked_deadline=false; f->wait_what=what; f->wait_obj=obj; resched(false,true); f->wait_what=""; }
bool block_until(const char* what,u64 obj,u64 dl){ Fiber*f=W->cur; f->st=F_BLOCK; f->timed_out=false; f->blocked_deadline=true; f->wake=dl; f->wait_what=what; f->wait_obj=obj; resched(false,true); f->wait_what=""; f->blocked_deadline=false; return f->timed_out; }
void ready(Fiber*f){ if(f->st==F_BLOCK){ f->st=F_RUN; f->blocked_deadline=false; f->timed_out=false; } }
void sleep_for(u64 ns,const char* what){ Fiber*f=W->cur; if(!ns){ point(7); return;} flush_steps(); f->st=F_SLEEP; f->wake=W->now+ns; f->wait_what=what; resched(false,true); f->wait_what=""; }

void hb_acquire(const VC& v){ VC& c=W->cur->vc; for(int i=0;i<MAXF;i++) if(v.c[i]>c.c[i]) c.c[i]=v.c[i]; }
void hb_release(VC& v){ VC& c=W->cur->vc; for(int i=0;i<MAXF;i++) if(c.c[i]>v.c[i]) v.c[i]=c.c[i]; c.c[W->cur->id]++; }
void hb_release_store(VC& v){ v=W->cur->vc; W->cur->vc.c[W->cur->id]++; }

static void fiber_finish(Fiber* f){
  // thread_local and thread-specific destructors are run by sync.cpp before this
  f->st=F_DONE; logev(0xF1,f->id);
  if(f->joiner>=0) ready(W->fibers[f->joiner]);
  if(f->id==0) end_world(O_DONE);
  resched(false,true); abort();
}
static void fiber_entry(){
  Fiber* f=W->cur;
  try{
    if(f->sut_thread){ g_in_sut=true; f->ret=f->fn(f->arg); run_tls_dtors(f); g_in_sut=false; }
    else { g_in_sut=false; f->ret=f->fn(f->arg); }
  } catch(...) { g_in_sut=false; violation("terminate","exception left a thread function"); }
  fiber_finish(f);
}
Fiber* spawn(void*(*fn)(void*),void* arg,bool sut){
  World&w=*W; int id=(int)w.fibers.size(); if(id>=MAXF) violation("harness.fibers","too many threads in one simulated process");
  Fiber* f=new Fiber; f->id=id; f->fn=fn; f->arg=arg; f->sut_thread=sut; f->stack=stack_for(id); f->stack_sz=STK;
  if(stk_dirty[id]){ memset(f->stack,0,STK);} stk_dirty[id]=true;
  void** sp=(void**)(f->stack+STK-64); *--sp=nullptr; *--sp=(void*)fiber_entry; for(int i=0;i<6;i++) *--sp=nullptr; f->sp=sp;
  if(w.cur){ f->vc=w.cur->vc; w.cur->vc.c[w.cur->id]++; } f->vc.c[id]=1;
  f->prio= w.sc.mode==1? (1ull<<32)+w.srng.below(1ull<<31) : 0;
  w.fibers.push_back(f); return f;
}
void join_fiber(Fiber*f){ while(f->st!=F_DONE){ f->joiner=W->cur->id; block("join",f->id);} hb_acquire(f->vc); f->joined=true; }

struct MainArg{ void(*fn)(void*); void*arg; };
static void* main_tramp(void*p){ MainArg*m=(MainArg*)p; m->fn(m->arg); return nullptr; }

Outcome run_world(World& w,void(*fn)(void*),void*arg){
  W=&w; w.srng=Rng(w.sc.seed); w.out=O_DONE; w.cur=nullptr;
  if(w.sc.mode==1){ for(u32 i=0;i<w.sc.pct_depth;i++) w.pct_changes.push_back(w.step+1+w.srng.below(w.sc.pct_len)); std::sort(w.pct_changes.rbegin(),w.pct_changes.rend()); w.pct_low=1u<<20; }
  heap_reset(); race_reset(); sync_reset(); sut_restore();
  MainArg m{fn,arg};
  g_mem_countdown=g_mem_loaded=INT64_MAX;
  Fiber* f=spawn(main_tramp,&m,false); w.cur=f; load_countdown();
  u64 eh0=ehg()[0],eh1=ehg()[1]; ehg()[0]=0; ehg()[1]=0;
  g_in_world=true;
  if(sigsetjmp(driver_jmp,1)==0){ sim_switch(&driver_sp,f->sp); }
  g_in_world=false; g_in_sut=false;
  ehg()[0]=eh0; ehg()[1]=eh1;
  for(Fiber*x:w.fibers) delete x; w.fibers.clear(); w.cur=nullptr;
  return w.out;
}

// ---- signals ----
static void on_segv(int sig,siginfo_t* si,void*){
  if(!g_in_world || !g_in_sut){ char b[128]; int n=snprintf(b,sizeof b,"simulator: fatal signal %d addr %p in_world=%d in_sut=%d\n",sig,si->si_addr,(int)g_in_world,(int)g_in_sut); (void)!write(2,b,n); _exit(70); }
  g_in_sut=false; W->vkind= sig==SIGFPE?"crash.fpe": "crash.segv"; W->vmsg=fmt("signal %d",sig); W->out=O_VIOL; logev(0x5E6); siglongjmp(driver_jmp,1);
}
static void on_terminate(){ if(g_in_world) { std::string m="std::terminate";
    if(std::exception_ptr e=std::current_exception()){ try{ std::rethrow_exception(e);}catch(std::exception&x){ m+=": "; m+=x.what(); }catch(...){} }
    g_in_sut=false; violation("terminate",m); }
  fprintf(stderr,"terminate in simulator\n"); _exit(71); }
void install_handlers(){
  static u8 alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER;
  sigaction(SIGSEGV,&sa,nullptr); sigaction(SIGBUS,&sa,nullptr); sigaction(SIGFPE,&sa,nullptr); sigaction(SIGILL,&sa,nullptr);
  std::set_terminate(on_terminate);
}

// ---- snapshot of the library's writable globals ----
int g_xfile=0;
char *g_sut_lo=nullptr,*g_sut_hi=nullptr,*g_sut_text=nullptr; static std::vector<char> snap;
std::string pc_str(const void*pc){ u64 o=(u64)pc-(u64)g_sut_text; return g_sut_text&&o<(256u<<20)?fmt("pc=%#llx",(unsigned long long)o):std::string("in a library call"); }
static int phdr_cb(struct dl_phdr_info* i,size_t,void* key){
  if(!i->dlpi_name) return 0; const char* b=strrchr(i->dlpi_name,'/'); b=b?b+1:i->dlpi_name;
  if(strcmp(b,(const char*)key)) return 0;
  char *lo=nullptr,*hi=nullptr,*rhi=nullptr;
  for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k];
    if(p.p_type==PT_LOAD&&(p.p_flags&PF_W)){ char*a=(char*)i->dlpi_addr+p.p_vaddr; if(!lo||a<lo)lo=a; if(a+p.p_memsz>hi)hi=a+p.p_memsz; }
    if(p.p_type==PT_GNU_RELRO){ rhi=(char*)(((u64)i->dlpi_addr+p.p_vaddr+p.p_memsz+4095)&~4095ull); if(((u64)i->dlpi_addr+p.p_vaddr+p.p_memsz)&4095) rhi=(char*)(((u64)i->dlpi_addr+p.p_vaddr+p.p_memsz)&~4095ull); } }
  if(rhi&&rhi>lo) lo=rhi; g_sut_lo=lo; g_sut_hi=hi; g_sut_text=(char*)i->dlpi_addr; return 1;
}
struct Range { char*lo; size_t n; std::vector<char> d; }; static std::vector<Range> extra;
static int phdr_boost(struct dl_phdr_info* i,size_t,void*){ if(!i->dlpi_name||!strstr(i->dlpi_name,"libboost_")) return 0; char*lo=nullptr,*hi=nullptr,*rhi=nullptr;
  for(int k=0;k<i->dlpi_phnum;k++){ auto&p=i->dlpi_phdr[k]; if(p.p_type==PT_LOAD&&(p.p_flags&PF_W)){ lo=(char*)i->dlpi_addr+p.p_vaddr; hi=lo+p.p_memsz; } if(p.p_type==PT_GNU_RELRO) rhi=(char*)(((u64)i->dlpi_addr+p.p_vaddr+p.p_memsz)&~4095ull); }
  if(rhi&&rhi>lo) lo=rhi; if(lo&&hi>lo) extra.push_back({lo,(size_t)(hi-lo),std::vector<char>(lo,hi)}); return 0; }
void sut_snapshot(){ dl_iterate_phdr(phdr_boost,nullptr); dl_iterate_phdr(phdr_cb,(void*)"sut.so"); if(!g_sut_lo){ fprintf(stderr,"sut.so not found\n"); _exit(3);} 
  if(g_sut_hi>g_sut_lo) snap.assign(g_sut_lo,g_sut_hi); else g_sut_hi=g_sut_lo; }
void sut_restore(){ for(auto&r:extra) memcpy(r.lo,r.d.data(),r.n); if(!snap.empty()) memcpy(g_sut_lo,snap.data(),snap.size()); sut_set_xfile(g_xfile); }
}
