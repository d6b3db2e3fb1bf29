// Heap of the library under test: fixed addresses, never reused within a simulated process,
// red zones, use-after-free detection, allocation failure injection, leak accounting.
#include "core.h"
#include <new>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <malloc.h>
namespace sim {
static u8* const HB=(u8*)0x100000000000ull; static const size_t HSZ=1ull<<30;
static u8* const AS=(u8*)0x110000000000ull; // 1 byte per 8 heap bytes: 0 unaddressable, 1..8 bytes ok, 0xFD freed
static size_t brk_=0; static bool mapped=false;
static u64 live_n=0,live_b=0,cnt=0;
static i64 fail_at=-1,fail_n=0,armed_cnt=0; static int fail_fiber=-1; u64 g_alloc_failed=0; bool g_alloc_arm=false;
void alloc_arm(int f,i64 at,i64 n){ fail_fiber=f; fail_at=at; fail_n=n; armed_cnt=0; g_alloc_arm=true; } void alloc_disarm(){ g_alloc_arm=false; } u64 alloc_seen(){ return armed_cnt; }
bool g_check_heap=true;
struct Hdr { u64 magic,size; u32 id,how; u64 pad; };
static const u64 LIVE=0x4C4956454C495645ull, DEAD=0x4445414444454144ull;
static std::vector<Hdr*> blocks; static std::map<std::pair<size_t,int>,std::deque<u8*>> big;
static void map_(){ if(mapped) return; mapped=true;
  if(mmap(HB,HSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=HB || mmap(AS,HSZ/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=AS){ perror("heap mmap"); _exit(3);} }
void heap_reset(){ map_(); if(brk_){ if(brk_>(4u<<20)){ madvise(HB,(brk_+4095)&~4095ull,MADV_DONTNEED); madvise(AS,(brk_/8+4095)&~4095ull,MADV_DONTNEED);} else { memset(HB,0,brk_); memset(AS,0,brk_/8+8);} }
  brk_=0; live_n=live_b=cnt=0; armed_cnt=0; g_alloc_arm=false; blocks.clear(); big.clear(); }
u64 heap_live_blocks(){return live_n;} u64 heap_live_bytes(){return live_b;} u64 heap_alloc_count(){return cnt;} u64 heap_next_id(){ return blocks.size(); }
bool in_heap(const void*p){ return (u8*)p>=HB&&(u8*)p<HB+HSZ; }
std::string heap_live_summary(u64 since){ std::string s; int k=0; for(size_t i=since;i<blocks.size()&&k<8;i++) if(blocks[i]->magic==LIVE){ s+=fmt(" [#%llu %llu bytes]",(unsigned long long)i,(unsigned long long)blocks[i]->size); k++; } return s; }
void* sut_alloc(size_t n,size_t align,bool nothrow){
  SimScope sc; map_();
  if(g_alloc_arm && W && W->cur && (fail_fiber==-2? W->cur->sut_thread : W->cur->id==fail_fiber)){ armed_cnt++; if(armed_cnt>fail_at && armed_cnt<=fail_at+fail_n){ g_alloc_failed++; g_stats.add("fault.alloc"); logev(0xA110C,armed_cnt); trace("alloc %zu FAILS",n); if(nothrow) return nullptr; throw std::bad_alloc(); } }
  if(n>(256u<<20)){ logev(0xA110D,n); if(nothrow) return nullptr; throw std::bad_alloc(); }
  if(align<16) align=16;
  // large blocks are used again by the thread that freed them once much memory has been handed out
  if(n>=(256u<<10)&&align==16&&brk_>(96u<<20)&&W&&W->cur){ auto it=big.find({n,W->cur->id}); if(it!=big.end()&&it->second.size()){ u8*p=it->second.front(); it->second.pop_front(); Hdr*h=(Hdr*)(p-sizeof(Hdr)); h->magic=LIVE; u8*a=AS+(p-HB)/8; memset(a,8,n/8); if(n%8) a[n/8]=n%8; memset(p,0xA5,16384); live_n++; live_b+=n; cnt++; return p; } }
  size_t o=brk_+sizeof(Hdr)+16; o=(o+align-1)&~(align-1); size_t end=o+((n+7)&~7ull)+16; end=(end+15)&~15ull;
  if(end>HSZ) { if(W&&W->cur&&heap_live_bytes()<(i64)(HSZ/2)){ trace("simulated heap used up"); g_stats.add("runs_out_of_heap"); end_world(O_LIMIT); } if(nothrow) return nullptr; throw std::bad_alloc(); }
  u8* p=HB+o; Hdr*h=(Hdr*)(p-sizeof(Hdr)); h->magic=LIVE; h->size=n; h->id=(u32)blocks.size(); h->how=0; blocks.push_back(h); brk_=end;
  u8* a=AS+o/8; memset(a,8,n/8); if(n%8) a[n/8]=n%8;
  size_t fill=n<16384?n:16384; memset(p,0xA5,fill);
  live_n++; live_b+=n; cnt++; return p;
}
void sut_free(void*p,int how){ (void)how; if(!p) return; SimScope sc; Hdr*h=(Hdr*)((u8*)p-sizeof(Hdr));
  if(((u64)p&15) || h->magic!=LIVE){ if(g_check_heap && W && W->cur) violation("heap.bad-free",h->magic==DEAD?"memory freed twice":"free of a pointer that was not allocated"); return; }
  size_t n=h->size; size_t o=(u8*)p-HB;
  // red zone after the block must be intact
  if(g_check_race && W&&W->cur&&n<=4096) { g_in_sut=false; access_range(p,n,true,__builtin_return_address(0)); }
  h->magic=DEAD; memset(AS+o/8,0xFD,(n+7)/8); live_n--; live_b-=n;
  memset(p,0xDD,n<16384?n:16384); if(n>=(256u<<10)&&W&&W->cur) big[{n,W->cur->id}].push_back((u8*)p);
}
void heap_check(const void*p,size_t n,bool w,void*pc){
  if(!n) return; size_t o=(u8*)p-HB; if(o>=HSZ) return; size_t e=o+n; 
  for(size_t g=o/8; g*8<e; g++){ u8 s=AS[g]; size_t lo=g*8<o?o-g*8:0, hi=e-g*8<8?e-g*8:8; (void)lo;
    if(s==8) continue; if(s==0xFD){ SimScope sc; violation("heap.use-after-free",fmt("%s of %zu bytes at freed memory, %s",w?"write":"read",n,pc_str(pc).c_str())); }
    if(s>=1&&s<8&&hi<=s) continue; { SimScope sc; violation("heap.overflow",fmt("%s of %zu bytes outside an allocated block, %s",w?"write":"read",n,pc_str(pc).c_str())); } }
}
}
using namespace sim;
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t,size_t); extern "C" void* __libc_realloc(void*,size_t); extern "C" void* __libc_memalign(size_t,size_t);
extern "C" {
void* malloc(size_t n){ if(g_in_sut) return sut_alloc(n,16,true); return __libc_malloc(n); }
void free(void*p){ if(in_heap(p)) { sut_free(p,0); return;} __libc_free(p); }
void* calloc(size_t a,size_t b){ if(g_in_sut){ void*p=sut_alloc(a*b,16,true); if(p) memset(p,0,a*b); return p;} return __libc_calloc(a,b); }
void* realloc(void*p,size_t n){ if(g_in_sut||in_heap(p)){ if(!p) return sut_alloc(n,16,true); if(!in_heap(p)) return __libc_realloc(p,n); if(!n){ sut_free(p,0); return nullptr;} void*q=sut_alloc(n,16,true); if(!q) return q; size_t o=((Hdr*)((u8*)p-sizeof(Hdr)))->size; memcpy(q,p,o<n?o:n); sut_free(p,0); return q;} return __libc_realloc(p,n); }
void* memalign(size_t a,size_t n){ if(g_in_sut) return sut_alloc(n,a,true); return __libc_memalign(a,n); }
void* aligned_alloc(size_t a,size_t n){ return memalign(a,n); }
int posix_memalign(void**r,size_t a,size_t n){ void*p=memalign(a,n); if(!p) return ENOMEM; *r=p; return 0; }
}
static void* nw(size_t n,size_t a=16){ if(g_in_sut) return sut_alloc(n,a,false); void*p=a>16?__libc_memalign(a,n):__libc_malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
static void* nwn(size_t n,size_t a=16){ if(g_in_sut) return sut_alloc(n,a,true); return a>16?__libc_memalign(a,n):__libc_malloc(n?n:1); }
void* operator new(size_t n){ return nw(n); } void* operator new[](size_t n){ return nw(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { return nwn(n); } void* operator new[](size_t n,const std::nothrow_t&) noexcept { return nwn(n); }
void* operator new(size_t n,std::align_val_t a){ return nw(n,(size_t)a); } void* operator new[](size_t n,std::align_val_t a){ return nw(n,(size_t)a); }
void operator delete(void*p) noexcept { free(p);} void operator delete[](void*p) noexcept { free(p);}
void operator delete(void*p,size_t) noexcept { free(p);} void operator delete[](void*p,size_t) noexcept { free(p);}
void operator delete(void*p,std::align_val_t) noexcept { free(p);} void operator delete[](void*p,std::align_val_t) noexcept { free(p);}
void operator delete(void*p,size_t,std::align_val_t) noexcept { free(p);} void operator delete[](void*p,size_t,std::align_val_t) noexcept { free(p);}
void operator delete(void*p,const std::nothrow_t&) noexcept { free(p);} void operator delete[](void*p,const std::nothrow_t&) noexcept { free(p);}
