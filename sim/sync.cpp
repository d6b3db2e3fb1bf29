// pthread, clock, random and termination seams.
#include "core.h"
namespace sim { void vfs_flusher_idle(int fiber); }
#include <pthread.h>
#include <semaphore.h>
#include <ctime>
#include <cerrno>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/time.h>
#include <dlfcn.h>
#include <algorithm>
#include <string>
namespace sim {
void atomic_release(const void*p); void atomic_acquire(const void*p);
struct Mtx { Fiber* owner=nullptr; int count=0; int type=0; std::vector<Fiber*> q; VC vc; };
struct Cnd { std::vector<Fiber*> q; clockid_t clk=CLOCK_REALTIME; };
struct RW { Fiber* w=nullptr; int readers=0; std::vector<Fiber*> q; VC vw,vr; };
static std::unordered_map<const void*,Mtx> M; static std::unordered_map<const void*,Cnd> C; static std::unordered_map<const void*,RW> R;
static std::unordered_map<const void*,std::vector<Fiber*>> G; static std::unordered_map<const void*,VC> GV; // guards/once
static u32 next_key=1; static std::map<u32,void(*)(void*)> key_dtor; static u64 rnd_state=1;
bool g_cli=false; static std::vector<std::pair<void(*)(void*),void*>> g_atexit;
void run_atexit(){ while(!g_atexit.empty()){ auto d=g_atexit.back(); { SimScope s; g_atexit.pop_back(); } SutScope in; d.first(d.second); } }
void sync_reset(){ g_cli=false; g_atexit.clear(); M.clear(); C.clear(); R.clear(); G.clear(); GV.clear(); next_key=1; key_dtor.clear(); rnd_state=W?mix64(W->sc.seed^0x5eed):1; }
u64 g_rnd_seed=1; u64 sim_rand(){ rnd_state=mix2(rnd_state,g_rnd_seed); return rnd_state; }
static inline bool sut(){ return g_in_sut; }
static u64 oid(const void*p){ return in_heap(p)?(u64)p:((char*)p>=g_sut_lo&&(char*)p<g_sut_hi?(u64)((char*)p-g_sut_lo):1); }
template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
#define REAL(ret,name,...) static ret(*r)(__VA_ARGS__)=nullptr; if(!r) r=(ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT,#name);

static int m_lock(pthread_mutex_t*m,bool try_,u64 deadline){
  SimScope s; point(0x10); Mtx&x=M[m]; Fiber*f=cur();
  if(x.owner==f && x.type==PTHREAD_MUTEX_RECURSIVE){ x.count++; return 0; }
  if(x.owner==f && x.type==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  while(x.owner){ if(try_) return EBUSY; x.q.push_back(f);
    if(deadline!=UINT64_MAX){ bool to=block_until("mutex",oid(m),deadline); x.q.erase(std::remove(x.q.begin(),x.q.end(),f),x.q.end()); if(to&&x.owner) return ETIMEDOUT; }
    else { block("mutex",oid(m)); x.q.erase(std::remove(x.q.begin(),x.q.end(),f),x.q.end()); } }
  x.owner=f; x.count=1; hb_acquire(x.vc); logev(0x11,(oid(m)<<8)|f->id); return 0;
}
static void m_release(pthread_mutex_t*m){ Mtx&x=M[m]; x.owner=nullptr; x.count=0; hb_release_store(x.vc); for(Fiber*q:x.q) ready(q); logev(0x12,oid(m)); }
static int m_unlock(pthread_mutex_t*m){
  SimScope s; point(0x13); Mtx&x=M[m]; Fiber*f=cur();
  if(x.owner!=f){ if(x.type==PTHREAD_MUTEX_NORMAL||!x.type) violation("sync.misuse","mutex unlocked by a thread that does not hold it"); return EPERM; }
  if(--x.count>0) return 0; m_release(m); return 0;
}
static u64 abs_to_sim(clockid_t c,const timespec*t){ u64 v=(u64)t->tv_sec*1000000000ull+t->tv_nsec; if(t->tv_sec<0) v=0; if(c==CLOCK_REALTIME) v= v>W->rt_off? v-W->rt_off:0; return v; }
static int c_wait(pthread_cond_t*c,pthread_mutex_t*m,u64 deadline){
  SimScope s; point(0x20); Cnd&x=C[c]; Fiber*f=cur(); Mtx&mm=M[m];
  if(mm.owner!=f) violation("sync.misuse","condition wait without holding the mutex");
  if(deadline<=W->now) f->npoll++;
  if(f->note_idle&&deadline!=UINT64_MAX){ f->note_idle=false; vfs_flusher_idle(f->id); }
  int saved=mm.count; x.q.push_back(f); m_release(m); bool to=false;
  logev(0x21,oid(c));
  u32 sp= W->sc.spurious_ppm? choose(5,2,0,W->sc.spurious_ppm):0;
  if(sp){ g_stats.add("fault.spurious_wakeup"); sleep_for(1000+ (W->step%7)*100000,"spurious"); }
  else if(deadline==UINT64_MAX) block("cond",oid(c)); else to=block_until("cond",oid(c),deadline);
  { Cnd&y=C[c]; y.q.erase(std::remove(y.q.begin(),y.q.end(),f),y.q.end()); }
  // re-acquire
  { Mtx&x2=M[m]; while(x2.owner){ x2.q.push_back(f); block("mutex",oid(m)); x2.q.erase(std::remove(x2.q.begin(),x2.q.end(),f),x2.q.end()); } x2.owner=f; x2.count=saved; hb_acquire(x2.vc); }
  logev(0x22,to); return to?ETIMEDOUT:0;
}
static int c_signal(pthread_cond_t*c,bool all){ SimScope s; point(0x23); auto it=C.find(c); if(it==C.end()) return 0; std::vector<Fiber*>&q=it->second.q; std::vector<Fiber*> w; for(Fiber*f:q) if(f->st==F_BLOCK) w.push_back(f);
  if(w.empty()) return 0; if(all){ for(Fiber*f:w) ready(f); q.clear(); }
  else { u32 k= w.size()>1? choose(6,(u32)w.size(),0,500000):0; ready(w[k]); q.erase(std::remove(q.begin(),q.end(),w[k]),q.end()); }
  logev(0x24,oid(c)); return 0; }
void run_tls_dtors(Fiber*f){ // called with g_in_sut==true
  while(!f->tls_dtors.empty()){ auto d=f->tls_dtors.back(); f->tls_dtors.pop_back(); d.first(d.second); }
  for(int round=0;round<4;round++){ std::vector<std::pair<void(*)(void*),void*>> todo; { SimScope s; for(auto&kv:f->tsd) if(kv.second&&key_dtor.count(kv.first)&&key_dtor[kv.first]){ todo.push_back({key_dtor[kv.first],kv.second}); kv.second=nullptr; } }
    if(todo.empty()) break; for(auto&t:todo) t.first(t.second); { SimScope s; todo.clear(); todo.shrink_to_fit(); } }
}
static u64 now_mono(){ flush_steps(); return W->now+1000000000ull; }
}
using namespace sim;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*m){ if(sut()) return m_lock(m,false,UINT64_MAX); REAL(int,pthread_mutex_lock,pthread_mutex_t*) return r(m); }
int pthread_mutex_trylock(pthread_mutex_t*m){ if(sut()) return m_lock(m,true,UINT64_MAX); REAL(int,pthread_mutex_trylock,pthread_mutex_t*) return r(m); }
int pthread_mutex_timedlock(pthread_mutex_t*m,const timespec*t){ if(sut()) return m_lock(m,false,abs_to_sim(CLOCK_REALTIME,t)); REAL(int,pthread_mutex_timedlock,pthread_mutex_t*,const timespec*) return r(m,t); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t c,const timespec*t){ if(sut()) return m_lock(m,false,abs_to_sim(c,t)- (c==CLOCK_REALTIME?0:1000000000ull)); REAL(int,pthread_mutex_clocklock,pthread_mutex_t*,clockid_t,const timespec*) return r(m,c,t); }
int pthread_mutex_unlock(pthread_mutex_t*m){ if(sut()) return m_unlock(m); REAL(int,pthread_mutex_unlock,pthread_mutex_t*) return r(m); }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ if(sut()){ SimScope s; Mtx x; if(a){ int t=0; pthread_mutexattr_gettype(a,&t); x.type=t; } M[m]=x; return 0; } REAL(int,pthread_mutex_init,pthread_mutex_t*,const pthread_mutexattr_t*) return r(m,a); }
int pthread_mutex_destroy(pthread_mutex_t*m){ if(sut()){ SimScope s; auto it=M.find(m); if(it!=M.end()){ if(it->second.owner) violation("sync.misuse","mutex destroyed while locked"); M.erase(it);} return 0; } REAL(int,pthread_mutex_destroy,pthread_mutex_t*) return r(m); }
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a){ if(sut()){ SimScope s; Cnd x; if(a){ clockid_t k=CLOCK_REALTIME; pthread_condattr_getclock(a,&k); x.clk=k; } C[c]=x; return 0;} REAL(int,pthread_cond_init,pthread_cond_t*,const pthread_condattr_t*) return r(c,a); }
int pthread_cond_destroy(pthread_cond_t*c){ if(sut()){ SimScope s; auto it=C.find(c); if(it!=C.end()){ bool w=false; for(Fiber*f:it->second.q) if(f->st==F_BLOCK) w=true; if(w) violation("sync.misuse","condition variable destroyed while a thread waits on it"); C.erase(it);} return 0; } REAL(int,pthread_cond_destroy,pthread_cond_t*) return r(c); }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(sut()) return c_wait(c,m,UINT64_MAX); REAL(int,pthread_cond_wait,pthread_cond_t*,pthread_mutex_t*) return r(c,m); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const timespec*t){ if(sut()){ clockid_t k; { SimScope s; k=C[c].clk; } u64 d=abs_to_sim(k,t); if(k!=CLOCK_REALTIME) d= d>1000000000ull?d-1000000000ull:0; return c_wait(c,m,d);} REAL(int,pthread_cond_timedwait,pthread_cond_t*,pthread_mutex_t*,const timespec*) return r(c,m,t); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const timespec*t){ if(sut()){ u64 d=abs_to_sim(k,t); if(k!=CLOCK_REALTIME) d= d>1000000000ull?d-1000000000ull:0; return c_wait(c,m,d);} REAL(int,pthread_cond_clockwait,pthread_cond_t*,pthread_mutex_t*,clockid_t,const timespec*) return r(c,m,k,t); }
int pthread_cond_signal(pthread_cond_t*c){ if(sut()) return c_signal(c,false); REAL(int,pthread_cond_signal,pthread_cond_t*) return r(c); }
int pthread_cond_broadcast(pthread_cond_t*c){ if(sut()) return c_signal(c,true); REAL(int,pthread_cond_broadcast,pthread_cond_t*) return r(c); }
// rwlock
static int rw_lock(pthread_rwlock_t*l,bool wr,bool try_){ SimScope s; point(0x30); Fiber*f=cur(); for(;;){ RW&x=R[l]; if(wr? (!x.w&&!x.readers):!x.w){ if(wr){ x.w=f; hb_acquire(x.vw); hb_acquire(x.vr);} else { x.readers++; hb_acquire(x.vw);} logev(0x31,oid(l)); return 0; } if(x.w==f) return EDEADLK; if(try_) return EBUSY; x.q.push_back(f); block("rwlock",oid(l)); auto&q=R[l].q; q.erase(std::remove(q.begin(),q.end(),f),q.end()); } }
static int rw_unlock(pthread_rwlock_t*l){ SimScope s; point(0x32); RW&x=R[l]; if(x.w==cur()){ x.w=nullptr; hb_release(x.vw);} else if(x.readers>0){ x.readers--; hb_release(x.vr);} else violation("sync.misuse","rwlock unlocked while not held"); if(!x.w&&!x.readers) for(Fiber*q:x.q) ready(q); logev(0x33,oid(l)); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*l){ if(sut()) return rw_lock(l,false,false); REAL(int,pthread_rwlock_rdlock,pthread_rwlock_t*) return r(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t*l){ if(sut()) return rw_lock(l,true,false); REAL(int,pthread_rwlock_wrlock,pthread_rwlock_t*) return r(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*l){ if(sut()) return rw_lock(l,false,true); REAL(int,pthread_rwlock_tryrdlock,pthread_rwlock_t*) return r(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t*l){ if(sut()) return rw_lock(l,true,true); REAL(int,pthread_rwlock_trywrlock,pthread_rwlock_t*) return r(l); }
int pthread_rwlock_unlock(pthread_rwlock_t*l){ if(sut()) return rw_unlock(l); REAL(int,pthread_rwlock_unlock,pthread_rwlock_t*) return r(l); }
int pthread_rwlock_init(pthread_rwlock_t*l,const pthread_rwlockattr_t*a){ if(sut()){ SimScope s; R[l]=RW(); return 0;} REAL(int,pthread_rwlock_init,pthread_rwlock_t*,const pthread_rwlockattr_t*) return r(l,a); }
int pthread_rwlock_destroy(pthread_rwlock_t*l){ if(sut()){ SimScope s; R.erase(l); return 0;} REAL(int,pthread_rwlock_destroy,pthread_rwlock_t*) return r(l); }
// threads
int pthread_create(pthread_t*t,const pthread_attr_t*a,void*(*fn)(void*),void*arg){ if(sut()){ SimScope s; point(0x40); Fiber*f=spawn(fn,arg,true); if(a){ int d=0; pthread_attr_getdetachstate(a,&d); f->detached=d==PTHREAD_CREATE_DETACHED; } *t=(pthread_t)(0x7000000000ull+f->id); logev(0x41,f->id); point(0x42); return 0; } REAL(int,pthread_create,pthread_t*,const pthread_attr_t*,void*(*)(void*),void*) return r(t,a,fn,arg); }
int pthread_join(pthread_t t,void**v){ if(sut()){ SimScope s; point(0x43); u64 i=(u64)t-0x7000000000ull; if(i>=W->fibers.size()) return ESRCH; Fiber*f=W->fibers[i]; if(f==cur()) return EDEADLK; if(f->joined||f->detached) return EINVAL; join_fiber(f); if(v)*v=f->ret; return 0; } REAL(int,pthread_join,pthread_t,void**) return r(t,v); }
int pthread_detach(pthread_t t){ if(sut()){ SimScope s; u64 i=(u64)t-0x7000000000ull; if(i<W->fibers.size()) W->fibers[i]->detached=true; return 0; } REAL(int,pthread_detach,pthread_t) return r(t); }
pthread_t pthread_self(void){ if(sut()) return (pthread_t)(0x7000000000ull+cur()->id); REAL(pthread_t,pthread_self,void) return r(); }
int pthread_key_create(pthread_key_t*k,void(*d)(void*)){ if(sut()){ SimScope s; *k=0x40000000u+next_key; key_dtor[0x40000000u+next_key]=d; next_key++; return 0;} REAL(int,pthread_key_create,pthread_key_t*,void(*)(void*)) return r(k,d); }
int pthread_key_delete(pthread_key_t k){ if(k>=0x40000000u){ SimScope s; key_dtor.erase(k); return 0;} REAL(int,pthread_key_delete,pthread_key_t) return r(k); }
void* pthread_getspecific(pthread_key_t k){ if(k>=0x40000000u){ if(!W||!W->cur) return nullptr; SimScope s; auto it=W->cur->tsd.find(k); return it==W->cur->tsd.end()?nullptr:it->second; } REAL(void*,pthread_getspecific,pthread_key_t) return r(k); }
int pthread_setspecific(pthread_key_t k,const void*v){ if(k>=0x40000000u){ SimScope s; W->cur->tsd[k]=(void*)v; return 0;} REAL(int,pthread_setspecific,pthread_key_t,const void*) return r(k,v); }
int pthread_once(pthread_once_t*o,void(*f)(void)){ if(sut()){ { SimScope s; point(0x50); while(*o==1){ G[o].push_back(cur()); block("once",0);} if(*o==2){ hb_acquire(GV[o]); return 0;} *o=1; } f(); { SimScope s; *o=2; hb_release(GV[o]); for(Fiber*q:G[o]) ready(q); G.erase(o);} return 0; } REAL(int,pthread_once,pthread_once_t*,void(*)(void)) return r(o,f); }
int sched_yield(void){ if(sut()){ SimScope s; if(W->sc.mode==1) W->cur->prio=W->pct_low--; W->now+=1000; sleep_for(1000,"yield"); return 0;} REAL(int,sched_yield,void) return r(); }
// guards of function-local statics
int __cxa_guard_acquire(u64*g){ u8*b=(u8*)g; if(sut()){ SimScope s; point(0x51); while(b[1]&&!b[0]){ G[g].push_back(cur()); block("static init",0);} if(b[0]){ atomic_acquire(g); return 0;} b[1]=1; return 1; } if(__atomic_load_n(b,2)) return 0; return 1; }
void __cxa_guard_release(u64*g){ u8*b=(u8*)g; b[0]=1; b[1]=0; if(sut()){ SimScope s; atomic_release(g); for(Fiber*q:G[g]) ready(q); G.erase(g);} }
void __cxa_guard_abort(u64*g){ u8*b=(u8*)g; b[1]=0; if(sut()){ SimScope s; for(Fiber*q:G[g]) ready(q); G.erase(g);} }
int __cxa_thread_atexit(void(*d)(void*),void*o,void*dso){ if(sut()){ SimScope s; W->cur->tls_dtors.push_back({d,o}); return 0;} (void)dso; return 0; }
struct EmuTls { size_t size,align; void*idx; void*init; };
void* __emutls_get_address(EmuTls*c){ Fiber*f=W->cur; SimScope s; auto it=f->tls.find(c); if(it!=f->tls.end()) return it->second; void*p; { bool a=g_alloc_arm; g_alloc_arm=false; p=sut_alloc(c->size,c->align,true); g_alloc_arm=a; } if(c->init) memcpy(p,c->init,c->size); else memset(p,0,c->size); f->tls[c]=p; return p; }
// clocks
int clock_gettime(clockid_t c,timespec*t){ if(sut()){ SimScope s; u64 v=now_mono(); if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) v=W->now+W->rt_off; t->tv_sec=v/1000000000ull; t->tv_nsec=v%1000000000ull; logev(0x60,v); return 0;} REAL(int,clock_gettime,clockid_t,timespec*) return r(c,t); }
int gettimeofday(timeval*t,void*z){ if(sut()){ SimScope s; u64 v=(now_mono()-1000000000ull)+W->rt_off; t->tv_sec=v/1000000000ull; t->tv_usec=v/1000%1000000; return 0;} REAL(int,gettimeofday,timeval*,void*) return r(t,z); }
time_t time(time_t*t){ if(sut()){ SimScope s; time_t v=((now_mono()-1000000000ull)+W->rt_off)/1000000000ull; if(t)*t=v; return v;} REAL(time_t,time,time_t*) return r(t); }
static int do_sleep(const timespec*q){ SimScope s; u64 d=(u64)q->tv_sec*1000000000ull+q->tv_nsec; g_stats.add("sut_sleep"); cur()->nslept++; cur()->slept+=d; logev(0x61,d); sleep_for(d,"sleep"); return 0; }
int nanosleep(const timespec*q,timespec*rem){ if(sut()) return do_sleep(q); REAL(int,nanosleep,const timespec*,timespec*) return r(q,rem); }
int clock_nanosleep(clockid_t c,int fl,const timespec*q,timespec*rem){ if(sut()){ if(fl&TIMER_ABSTIME){ u64 n=c==CLOCK_REALTIME?W->now+W->rt_off:now_mono(); u64 a=(u64)q->tv_sec*1000000000ull+q->tv_nsec; u64 d=a>n?a-n:0; timespec x{(time_t)(d/1000000000ull),(long)(d%1000000000ull)}; return do_sleep(&x);} return do_sleep(q);} REAL(int,clock_nanosleep,clockid_t,int,const timespec*,timespec*) return r(c,fl,q,rem); }
int usleep(useconds_t u){ if(sut()){ timespec x{(time_t)(u/1000000),(long)(u%1000000)*1000}; return do_sleep(&x);} REAL(int,usleep,useconds_t) return r(u); }
unsigned sleep(unsigned u){ if(sut()){ timespec x{(time_t)u,0}; do_sleep(&x); return 0;} REAL(unsigned,sleep,unsigned) return r(u); }
// randomness
u32 arc4random(void){ if(sut()){ SimScope s; return (u32)sim_rand(); } REAL(u32,arc4random,void) return r(); }
int getentropy(void*b,size_t n){ if(sut()){ SimScope s; for(size_t i=0;i<n;i++) ((u8*)b)[i]=(u8)sim_rand(); return 0;} REAL(int,getentropy,void*,size_t) return r(b,n); }
ssize_t getrandom(void*b,size_t n,unsigned fl){ if(sut()){ getentropy(b,n); return n;} REAL(ssize_t,getrandom,void*,size_t,unsigned) return r(b,n,fl); }
int rand(void){ if(sut()){ SimScope s; return (int)(sim_rand()&0x7fffffff);} REAL(int,rand,void) return r(); }
void sim_rd_init(void*,const std::string*) asm("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void sim_rd_init(void*,const std::string*){}
void sim_rd_fini(void*) asm("_ZNSt13random_device7_M_finiEv"); void sim_rd_fini(void*){}
unsigned sim_rd_get(void*) asm("_ZNSt13random_device9_M_getvalEv"); unsigned sim_rd_get(void*){ SimScope s; return (unsigned)sim_rand(); }
// termination
void __assert_fail(const char*e,const char*f,unsigned l,const char*fn){ const char*b=strrchr(f,'/'); if(W&&W->cur){ g_in_sut=false; violation("assert",fmt("assertion failed: %s at %s:%u (%s)",e,b?b+1:f,l,fn?fn:"")); } fprintf(stderr,"assert %s %s:%u\n",e,f,l); _exit(72); }
void abort(void){ if(W&&W->cur&&g_in_sut){ g_in_sut=false; violation("abort","abort() called"); } fprintf(stderr,"abort in simulator\n"); _exit(73); }
void exit_sut(int){}
// the library's own string functions (linked with --wrap)
int sim_memcmp(const void*,const void*,size_t);
int __wrap_memcmp(const void*a,const void*b,size_t n){ return sim_memcmp(a,b,n); }
int __wrap_bcmp(const void*a,const void*b,size_t n){ return sim_memcmp(a,b,n); }
// what the command line tool registers while it runs is called when it ends
int __wrap___cxa_atexit(void(*f)(void*),void*o,void*){ if(sut()&&g_cli){ SimScope s; g_atexit.push_back({f,o}); } return 0; }
// other libraries: their statics live until the simulated process ends, nothing is to be called
int __cxa_atexit(void(*f)(void*),void*o,void*d){ if(sut()) return 0; REAL(int,__cxa_atexit,void(*)(void*),void*,void*) return r(f,o,d); }
void* __tsan_memcpy(void*,const void*,size_t); void* __tsan_memmove(void*,const void*,size_t); void* __tsan_memset(void*,int,size_t);
void* __wrap_memcpy(void*d,const void*s,size_t n){ return __tsan_memcpy(d,s,n); }
void* __wrap_memmove(void*d,const void*s,size_t n){ return __tsan_memmove(d,s,n); }
void* __wrap_memset(void*d,int c,size_t n){ return __tsan_memset(d,c,n); }
}
