// Deterministic simulator core: PRNG, event log hash, fibers, scheduler, simulated clock.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <deque>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

inline u64 mix64(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
inline u64 mix2(u64 a,u64 b){ return mix64(a*0x9E3779B97F4A7C15ull ^ mix64(b)); }
inline u64 mix3(u64 a,u64 b,u64 c){ return mix2(mix2(a,b),c); }

struct Rng {
  u64 s=1;
  explicit Rng(u64 seed=1):s(mix64(seed)){}
  u64 next(){ s+=0x9E3779B97F4A7C15ull; return mix64(s); }
  u64 below(u64 n){ return n? (u64)(((unsigned __int128)next()*n)>>64):0; }
  u64 range(u64 a,u64 b){ return a+below(b-a+1); }
  bool chance(u32 num,u32 den){ return below(den)<num; }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  template<class T> const T& pick(const std::vector<T>& v){ return v[below(v.size())]; }
  // geometric-like countdown with the given mean
  u64 geo(u64 mean);
};

const int MAXF=64;           // fibers per simulated process
struct VC { u32 c[MAXF]; VC(){ memset(c,0,sizeof c);} };

enum FState { F_RUN, F_BLOCK, F_SLEEP, F_DONE };

struct Fiber {
  int id=0; FState st=F_RUN; void* sp=nullptr; u8* stack=nullptr; size_t stack_sz=0;
  void* (*fn)(void*)=nullptr; void* arg=nullptr; void* ret=nullptr;
  bool sut_thread=false, detached=false, joined=false; int joiner=-1;
  u64 wake=0; bool timed_out=false; bool in_wait_sleep=false; // blocked with deadline
  bool blocked_deadline=false;
  u64 prio=0;
  VC vc; u64 eh[2]={0,0}; int err=0;
  std::map<void*,void*> tls; std::vector<std::pair<void(*)(void*),void*>> tls_dtors;
  std::map<u32,void*> tsd;
  // what it is doing, for reports
  const char* wait_what=""; u64 wait_obj=0; int op=-1; bool sim_stalled=false;
  int phase=0; u64 err_fired=0; u64 nslept=0, slept=0, npoll=0; bool server=false; bool note_idle=false;
};

// ---- schedule policy ----
struct SchedCfg {
  int mode=0;              // 0 random walk, 1 PCT, 2 run-to-block (no preemption), 3 explicit list
  u64 seed=1;
  u32 mem_mean=0;          // mean memory accesses between preemption decisions, 0=never at accesses
  u32 sync_pct=30;         // chance (percent) to switch at a sync/syscall point
  u32 pct_depth=3; u32 pct_len=20000;
  u32 spurious_ppm=0;      // chance of a spurious condvar wakeup per wait (ppm)
  u32 stall_ppm=0;         // chance that a fiber is descheduled at a point (ppm)
  std::vector<std::pair<u64,u32>> list; // explicit: (step,value)
};

enum Outcome { O_DONE, O_CRASH, O_VIOL, O_LIMIT };

struct Stats {
  std::map<std::string,u64> n;
  void add(const char*k,u64 v=1){ n[k]+=v; }
};
extern Stats g_stats;

struct World {
  SchedCfg sc; Rng srng{1};
  std::vector<Fiber*> fibers; Fiber* cur=nullptr;
  u64 step=0, now=0, points=0, switches=0;
  u64 step_limit=0, time_limit=0;
  u64 log=0xcbf29ce484222325ull; u64 ilv=0; // event log hash, interleaving hash
  std::vector<std::pair<u64,u32>> rec;   // recorded non default choices
  size_t expl_pos=0;
  u64 seq=0;                             // global event sequence
  Outcome out=O_DONE; std::string vkind, vmsg;
  u64 crash_step=0;                      // crash when step reaches this (0=off)
  u64 crash_time=0;                      // crash when now reaches this
  bool crash_armed=false;
  u64 pct_change_next=0; std::vector<u64> pct_changes; u64 pct_low=0;
  u64 rt_off=1700000000ull*1000000000ull;
};
extern World* W;
extern bool g_in_sut;          // current fiber executes library code
extern i64 g_mem_countdown;    // memory accesses until the next scheduling decision
extern i64 g_mem_loaded;

struct SimScope { bool old; SimScope():old(g_in_sut){g_in_sut=false;} ~SimScope(){g_in_sut=old;} };
struct SutScope { bool old; SutScope():old(g_in_sut){g_in_sut=true;} ~SutScope(){g_in_sut=old;} };

inline void logev(u64 a){ W->log=(W->log^a)*0x100000001b3ull; W->log^=W->log>>29; }
inline void logev(u64 a,u64 b){ logev(a*0x9E3779B97F4A7C15ull+b); }
extern FILE* g_trace;
void trace(const char* fmt,...) __attribute__((format(printf,1,2)));

// run fn(arg) as main fiber of a fresh simulated process; returns the outcome
Outcome run_world(World& w, void(*fn)(void*), void* arg);
[[noreturn]] void violation(const std::string& kind,const std::string& msg);
[[noreturn]] void crash_now();
[[noreturn]] void end_world(Outcome o);

Fiber* spawn(void*(*fn)(void*),void* arg,bool sut);
void join_fiber(Fiber* f);
void point(u32 kind);                 // scheduling point
void mem_slow();                      // scheduling decision at a memory access
u32 choose(u32 kind,u32 n,u32 def,u32 pct); // scheduling-level random choice, recorded
void block(const char* what,u64 obj); // block current until ready()
bool block_until(const char* what,u64 obj,u64 deadline); // true if timed out
void ready(Fiber* f);
void sleep_for(u64 ns,const char* what="sleep");
void flush_steps();                   // fold the memory access counter into step/now
inline Fiber* cur(){ return W->cur; }

// happens-before
void hb_acquire(const VC& v); void hb_release(VC& v); void hb_release_store(VC& v);

// heap (heap.cpp)
void heap_reset(); u64 heap_live_blocks(); u64 heap_live_bytes(); u64 heap_alloc_count();
bool in_heap(const void*p); void heap_check(const void*p,size_t n,bool w,void*pc);
void* sut_alloc(size_t n,size_t align,bool nothrow); void sut_free(void*p,int how);
// fail allocations [at, at+n) counted from the arming, made by the given fiber (-2: any thread of the library)
void alloc_arm(int fiber,i64 at,i64 n); void alloc_disarm(); extern u64 g_alloc_failed; extern bool g_alloc_arm; u64 alloc_seen();
std::string heap_live_summary(u64 since_id); u64 heap_next_id();
extern bool g_check_heap, g_check_race;
// race (race.cpp)
void race_reset(); void access_range(const void*p,size_t n,bool w,void*pc);
void sync_reset(); // sync.cpp
extern bool g_cli; void run_atexit(); // exit handlers of the command line tool
void sut_snapshot(); void sut_restore(); extern int g_xfile; void install_handlers(); void run_tls_dtors(Fiber*f);
extern char *g_sut_lo,*g_sut_hi; // writable data of the library under test
extern char *g_sut_text; std::string pc_str(const void*pc); // position in the library under test, the same in every process
std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
}
