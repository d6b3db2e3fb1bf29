// The __tsan_* entry points: preemption, heap checking and happens-before race detection.
#include "core.h"
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
namespace sim {
static u64* const RS=(u64*)0x120000000000ull; // 4 cells per 8 heap bytes
static const u64 HB=0x100000000000ull, HSZ=1ull<<30;
static std::vector<u64> gs; // shadow for globals
bool g_check_race=true; static bool mapped=false; static u64 used_hi=0;
static std::unordered_map<const void*,VC> avc;
void race_reset(){ if(!mapped){ mapped=true; if(mmap(RS,HSZ/8*32,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=RS){ perror("race mmap"); _exit(3);} }
  if(used_hi){ size_t n=(used_hi-HB)/8*32+64; if(n>(8u<<20)) madvise(RS,(n+4095)&~4095ull,MADV_DONTNEED); else memset(RS,0,n); used_hi=0; }
  if(g_sut_hi>g_sut_lo) gs.assign((g_sut_hi-g_sut_lo)/8*4+8,0); avc.clear(); }
// cell: clk(32) | tid(8) | mask(8) | flags(1 w,2 atomic)
static inline u64 mk(u32 clk,int tid,u8 mask,u8 fl){ return ((u64)clk<<32)|((u64)(u8)tid<<24)|((u64)mask<<16)|fl|0x100; }
static void report(const void*a,u64 old,u64 nw,void*pc){ SimScope s;
  violation("race",fmt("data race: %s%s by thread %d and %s%s by thread %d, %s (%s)",(old&2)?"atomic ":"",(old&1)?"write":"read",(int)(u8)(old>>24),(nw&2)?"atomic ":"",(nw&1)?"write":"read",(int)(u8)(nw>>24),pc_str(pc).c_str(), in_heap(a)?"heap":"global")); }
static inline void granule(u64*c,const void*a,u8 mask,u8 fl,void*pc){
  Fiber*f=W->cur; int tid=f->id; u64 me=mk(f->vc.c[tid],tid,mask,fl);
  for(int i=0;i<4;i++) if(c[i]==me) return;
  int slot=-1;
  for(int i=0;i<4;i++){ u64 o=c[i]; if(!o){ if(slot<0) slot=i; continue; }
    int ot=(u8)(o>>24); u8 om=(u8)(o>>16);
    if(ot==tid){ if(om==mask && ((o&1)<=(me&1)) && slot<0) slot=i; continue; }
    u32 oc=(u32)(o>>32); bool ordered= oc<=f->vc.c[ot];
    if(!ordered && (om&mask) && ((o|me)&1) && !((o&2)&&(me&2))) report(a,o,me,pc);
    if(ordered && slot<0 && (om&~mask)==0 && ((me&1)||!(o&1))) slot=i; }
  if(slot<0){ for(int i=0;i<4;i++){ u64 o=c[i]; int ot=(u8)(o>>24); if(ot!=tid && (u32)(o>>32)<=f->vc.c[ot]){ slot=i; break; } } }
  if(slot<0) slot=(int)(W->step&3);
  c[slot]=me;
}
static inline u64* shadow(u64 a){ if(a-HB<HSZ){ if(a+8>used_hi) used_hi=a+8; return RS+((a-HB)>>3)*4; } if((char*)a>=g_sut_lo&&(char*)a<g_sut_hi) return &gs[((char*)a-g_sut_lo)/8*4]; return nullptr; }
static inline void acc(const void*p,size_t n,u8 fl,void*pc){
  u64 a=(u64)p; if(g_check_heap && a-HB<HSZ) heap_check(p,n,fl&1,pc);
  if(!g_check_race || W->fibers.size()<2) return;
  u64 e=a+n; for(u64 g=a&~7ull; g<e; g+=8){ u64*c=shadow(g); if(!c) return; u32 lo=g<a?a-g:0, hi=e-g<8?e-g:8; granule(c,(void*)g,(u8)((0xFFu>>(8-(hi-lo)))<<lo),fl,pc); }
}
void access_range(const void*p,size_t n,bool w,void*pc){ acc(p,n,w?1:0,pc); }
static inline void pre(){ if(--g_mem_countdown<=0) mem_slow(); }
#define PC __builtin_return_address(0)
}
using namespace sim;
static inline __attribute__((always_inline)) void A(const void*p,size_t n,u8 fl,void*pc){ if(!g_in_sut) return; pre(); acc(p,n,fl,pc); }
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*p){A(p,n,0,PC);} void __tsan_write##n(void*p){A(p,n,1,PC);} void __tsan_unaligned_read##n(void*p){A(p,n,0,PC);} void __tsan_unaligned_write##n(void*p){A(p,n,1,PC);} void __tsan_read_write##n(void*p){A(p,n,1,PC);} void __tsan_unaligned_read_write##n(void*p){A(p,n,1,PC);} 
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void**p){A(p,8,0,PC);} void __tsan_vptr_update(void**p,void*v){ if(g_in_sut && *p!=v) A(p,8,1,PC);} 
void __tsan_read_range(void*p,size_t n){A(p,n,0,PC);} void __tsan_write_range(void*p,size_t n){A(p,n,1,PC);}
// memory intrinsics: interruptible in the middle so that torn copies are visible
static void cp(u8*d,const u8*s,size_t n){ 
  if(g_mem_countdown>(i64)(n/64)+2 || n<=8){ memcpy(d,s,n); g_mem_countdown-=(i64)(n/64); return; }
  size_t i=0; while(i<n){ size_t k=n-i<64?n-i:64; memcpy(d+i,s+i,k); i+=k; pre(); } }
void* __tsan_memcpy(void*d,const void*s,size_t n){ if(g_in_sut&&n){ pre(); acc(s,n,0,PC); acc(d,n,1,PC); cp((u8*)d,(const u8*)s,n); return d;} return memcpy(d,s,n); }
void* __tsan_memmove(void*d,const void*s,size_t n){ if(g_in_sut&&n){ pre(); acc(s,n,0,PC); acc(d,n,1,PC);} return memmove(d,s,n); }
void* __tsan_memset(void*d,int c,size_t n){ if(g_in_sut&&n){ pre(); acc(d,n,1,PC);} return memset(d,c,n); }
}
namespace sim {
static void at_pre(){ if(g_in_sut) pre(); }
static inline bool acq(int mo){ return mo==1||mo==2||mo==4||mo==5; } // consume acquire acq_rel seq_cst
static inline bool rel(int mo){ return mo==3||mo==4||mo==5; }
static void at_load(const void*p,size_t n,int mo,void*pc){ if(!g_in_sut) return; acc(p,n,2,pc); if(acq(mo)){ SimScope s; auto it=avc.find(p); if(it!=avc.end()) hb_acquire(it->second);} }
static void at_store(const void*p,size_t n,int mo,void*pc){ if(!g_in_sut) return; acc(p,n,3,pc); SimScope s; if(rel(mo)) hb_release_store(avc[p]); else avc.erase(p); }
static void at_rmw(const void*p,size_t n,int mo,void*pc){ if(!g_in_sut) return; acc(p,n,3,pc); SimScope s; if(acq(mo)){ auto it=avc.find(p); if(it!=avc.end()) hb_acquire(it->second);} if(rel(mo)) hb_release(avc[p]); }
void atomic_release(const void*p){ SimScope s; hb_release(avc[p]); }
void atomic_acquire(const void*p){ SimScope s; auto it=avc.find(p); if(it!=avc.end()) hb_acquire(it->second); }
}
#define AT(N,T) extern "C" { \
T __tsan_atomic##N##_load(const volatile T*a,int mo){ at_pre(); at_load((void*)a,sizeof(T),mo,PC); return __atomic_load_n(a,5); } \
void __tsan_atomic##N##_store(volatile T*a,T v,int mo){ at_pre(); at_store((void*)a,sizeof(T),mo,PC); __atomic_store_n(a,v,5); } \
T __tsan_atomic##N##_exchange(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_exchange_n(a,v,5); } \
T __tsan_atomic##N##_fetch_add(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_fetch_add(a,v,5); } \
T __tsan_atomic##N##_fetch_sub(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_fetch_sub(a,v,5); } \
T __tsan_atomic##N##_fetch_and(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_fetch_and(a,v,5); } \
T __tsan_atomic##N##_fetch_or(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_fetch_or(a,v,5); } \
T __tsan_atomic##N##_fetch_xor(volatile T*a,T v,int mo){ at_pre(); at_rmw((void*)a,sizeof(T),mo,PC); return __atomic_fetch_xor(a,v,5); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T*a,T*c,T v,int mo,int fmo){ at_pre(); T e=*c; bool ok=__atomic_load_n(a,5)==e; if(ok) at_rmw((void*)a,sizeof(T),mo,PC); else at_load((void*)a,sizeof(T),fmo,PC); if(ok){ __atomic_store_n(a,v,5); return 1;} *c=__atomic_load_n(a,5); return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T*a,T*c,T v,int mo,int fmo){ return __tsan_atomic##N##_compare_exchange_strong(a,c,v,mo,fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T*a,T c,T v,int mo,int fmo){ __tsan_atomic##N##_compare_exchange_strong(a,&c,v,mo,fmo); return c; } }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
extern "C" { void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){} }
// library-visible string functions: range checked
extern "C" {
int sim_memcmp(const void*a,const void*b,size_t n){ if(g_in_sut&&n){ pre(); acc(a,n,0,PC); acc(b,n,0,PC);} const u8*x=(const u8*)a,*y=(const u8*)b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
}
