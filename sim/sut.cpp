// The library under test behind a C interface. Built with -fsanitize=thread instrumentation, without its runtime.
#include <nudb/nudb.hpp>
#include "sut_api.h"
#include <cstring>
#include <new>
#pragma GCC visibility push(default)
void* __dso_handle __attribute__((visibility("hidden"))) = &__dso_handle;
using namespace nudb;
// deliberately poor hash functions: legal Hashers, they force collisions, spills and long chains
struct few_hasher { uint64_t s; explicit few_hasher(uint64_t x):s(x){} typedef uint64_t result_type; result_type operator()(void const*p,std::size_t n) const noexcept { return (detail::XXH64(p,n,s)%7+1)*0x9E3779B97F4A7C15ull; } };
struct onebucket_hasher { uint64_t s; explicit onebucket_hasher(uint64_t x):s(x){} typedef uint64_t result_type; result_type operator()(void const*p,std::size_t n) const noexcept { return detail::XXH64(p,n,s)&0xffffffff00000000ull&~0x0000000f00000000ull; } };
struct const_hasher { uint64_t s; explicit const_hasher(uint64_t x):s(x){} typedef uint64_t result_type; result_type operator()(void const*p,std::size_t n) const noexcept { if(n==8&&!std::memcmp(p,&s,8)) return detail::XXH64(p,n,s); return 0x1234567890abcdefull; } };
// another File type: its names are not those of the native files (the '@' after the last slash is dropped)
static int xf;
struct xfile : native_file { static path_type un(path_type const&p){ auto i=p.rfind('/')+1; path_type r; char b[64]; std::size_t n=0; for(std::size_t j=0;j<p.size()&&n<63;j++) if(j!=i||p[j]!='@') b[n++]=p[j]; r.assign(b,n); return r; }
  void create(file_mode m,path_type const&p,error_code&ec){ native_file::create(m,un(p),ec); } void open(file_mode m,path_type const&p,error_code&ec){ native_file::open(m,un(p),ec); } static void erase(path_type const&p,error_code&ec){ native_file::erase(un(p),ec); } };
struct xp { char b[64]; operator path_type() const { return path_type(b); } explicit xp(const char*p){ const char*s=std::strrchr(p,'/'); std::size_t n=s&&xf? s+1-p:0; std::memcpy(b,p,n); if(xf) b[n++]='@'; std::strcpy(b+n,p+(xf?n-1:n)); } };
struct ibase { virtual ~ibase(){}; virtual void open(const char*,const char*,const char*,error_code&)=0; virtual void close(error_code&)=0; virtual void fetch(const void*,sut_cb,void*,error_code&)=0; virtual void insert(const void*,const void*,size_t,error_code&)=0; virtual void burst(size_t)=0; virtual void props(sut_props*)=0; virtual bool is_open()=0; };
template<class H,class F> struct istore : ibase { basic_store<H,F> db; istore(){} explicit istore(context&c):db(c){}
  void open(const char*a,const char*b,const char*c,error_code&ec) override { db.open(xp(a),xp(b),xp(c),ec);} void close(error_code&ec) override { db.close(ec);} 
  void fetch(const void*k,sut_cb cb,void*x,error_code&ec) override { db.fetch(k,[&](void const*d,std::size_t n){ cb(x,d,n); },ec);} void insert(const void*k,const void*d,size_t n,error_code&ec) override { db.insert(k,d,n,ec);} void burst(size_t n) override { db.set_burst(n);} bool is_open() override { return db.is_open(); }
  void props(sut_props*p) override { std::memset(p,0,sizeof *p); p->open=db.is_open(); if(!p->open) return; p->appnum=db.appnum(); p->key_size=db.key_size(); p->block_size=db.block_size(); auto cp=[](char*d,path_type const&s){ std::size_t k=0; for(std::size_t i=0;i<s.size()&&k<63;i++) if(!xf||s[i]!='@') d[k++]=s[i]; d[k]=0; }; cp(p->dat,db.dat_path()); cp(p->key,db.key_path()); cp(p->log,db.log_path());} };
static void put(sut_err*e,error_code const&ec){ e->cls=E_OK; e->val=0; e->msg[0]=0; if(!ec) return; 
#define T(n) if(ec==error::n){ e->cls=E_NUDB; e->val=N_##n; std::strncpy(e->msg,#n,95); return; }
 T(key_not_found)T(key_exists)T(short_read)T(log_file_exists)T(no_key_file)T(too_many_buckets)T(not_data_file)T(not_key_file)T(not_log_file)T(different_version)T(invalid_key_size)T(invalid_block_size)T(short_key_file)T(short_bucket)T(short_spill)T(short_data_record)T(short_value)T(hash_mismatch)T(invalid_load_factor)T(invalid_capacity)T(invalid_bucket_count)T(invalid_bucket_size)T(incomplete_data_file_header)T(incomplete_key_file_header)T(invalid_log_record)T(invalid_log_spill)T(invalid_log_offset)T(invalid_log_index)T(invalid_spill_size)T(uid_mismatch)T(appnum_mismatch)T(key_size_mismatch)T(salt_mismatch)T(pepper_mismatch)T(block_size_mismatch)T(orphaned_value)T(missing_value)T(size_mismatch)T(duplicate_value)
 if(ec.category()==error_code{make_error_code(error::key_exists)}.category()){ e->cls=E_NUDB; e->val=N_unknown; std::strncpy(e->msg,"nudb error",95); return; }
 e->cls=(ec.category()==boost::system::system_category()||ec.category()==boost::system::generic_category())?E_SYSTEM:E_OTHER; e->val=ec.value(); std::strncpy(e->msg,"system error",95); }
template<class F> static void guard(sut_err*e,F&&f){ e->cls=0; e->val=0; e->msg[0]=0; try{ error_code ec; f(ec); put(e,ec);} catch(std::bad_alloc&){ e->cls=E_BADALLOC; } catch(std::exception&x){ e->cls=E_EXC; std::strncpy(e->msg,x.what(),95); } catch(...){ e->cls=E_UNKNOWN_EXC; } e->msg[95]=0; }
#define HC(n,h,f,...) case n: { typedef h H; typedef f F; __VA_ARGS__; break;}
#define H4(h,...) switch(h|(xf?4:0)){ HC(1,few_hasher,native_file,__VA_ARGS__) HC(2,onebucket_hasher,native_file,__VA_ARGS__) HC(3,const_hasher,native_file,__VA_ARGS__) HC(4,xxhasher,xfile,__VA_ARGS__) HC(5,few_hasher,xfile,__VA_ARGS__) HC(6,onebucket_hasher,xfile,__VA_ARGS__) HC(7,const_hasher,xfile,__VA_ARGS__) default: { typedef xxhasher H; typedef native_file F; __VA_ARGS__; break;} }
#define H4N(h,...) switch(h){ HC(1,few_hasher,native_file,__VA_ARGS__) HC(2,onebucket_hasher,native_file,__VA_ARGS__) HC(3,const_hasher,native_file,__VA_ARGS__) default: { typedef xxhasher H; __VA_ARGS__; break;} }
extern "C" {
void* sut_ctx_new(void){ return new context; }
void sut_ctx_delete(void*c,sut_err*e){ guard(e,[&](error_code&){ delete (context*)c; }); }
void sut_ctx_start(void*c,sut_err*e){ guard(e,[&](error_code&){ ((context*)c)->start(); }); }
void sut_ctx_stop(void*c,sut_err*e){ guard(e,[&](error_code&){ ((context*)c)->stop_all(); }); }
void sut_ctx_run(void*c,sut_err*e){ guard(e,[&](error_code&){ ((context*)c)->run(); }); }
void sut_ctx_flush(void*c,sut_err*e){ guard(e,[&](error_code&){ ((context*)c)->flush(); }); }
void* sut_store_new(int h,void*c,sut_err*e){ ibase*p=nullptr; guard(e,[&](error_code&){ H4(h, p= c? new istore<H,F>(*(context*)c): new istore<H,F>()) }); return p; }
void sut_store_delete(void*s,sut_err*e){ guard(e,[&](error_code&){ delete (ibase*)s; }); }
void sut_open(void*s,const char*a,const char*b,const char*c,sut_err*e){ guard(e,[&](error_code&ec){ ((ibase*)s)->open(a,b,c,ec); }); }
void sut_close(void*s,sut_err*e){ guard(e,[&](error_code&ec){ ((ibase*)s)->close(ec); }); }
void sut_fetch(void*s,const void*k,sut_cb cb,void*x,sut_err*e){ guard(e,[&](error_code&ec){ ((ibase*)s)->fetch(k,cb,x,ec); }); }
void sut_insert(void*s,const void*k,const void*d,size_t n,sut_err*e){ guard(e,[&](error_code&ec){ ((ibase*)s)->insert(k,d,n,ec); }); }
void sut_set_burst(void*s,size_t n){ ((ibase*)s)->burst(n); }
void sut_get_props(void*s,sut_props*p){ ((ibase*)s)->props(p); }
int sut_is_open(void*s){ return ((ibase*)s)->is_open(); }
void sut_create(int h,const char*a,const char*b,const char*c,uint64_t an,uint64_t uid,uint64_t salt,uint64_t ks,uint64_t bs,float lf,sut_err*e){ guard(e,[&](error_code&ec){ H4(h,(create<H,F>(xp(a),xp(b),xp(c),an,uid,salt,ks,bs,lf,ec))) }); }
void sut_create_nouid(int h,const char*a,const char*b,const char*c,uint64_t an,uint64_t salt,uint64_t ks,uint64_t bs,float lf,sut_err*e){ guard(e,[&](error_code&ec){ H4(h,(create<H,F>(xp(a),xp(b),xp(c),an,salt,ks,bs,lf,ec))) }); }
void sut_recover(int h,const char*a,const char*b,const char*c,sut_err*e){ guard(e,[&](error_code&ec){ H4(h,(recover<H,F>(xp(a),xp(b),xp(c),ec))) }); }
void sut_rekey(int h,const char*a,const char*b,const char*c,uint64_t bs,float lf,uint64_t items,uint64_t buf,sut_pcb pc,void*x,sut_err*e){ guard(e,[&](error_code&ec){ auto pr=[&](std::uint64_t u,std::uint64_t v){ if(pc) pc(x,u,v); }; H4(h,(rekey<H,F>(xp(a),xp(b),xp(c),bs,lf,items,buf,ec,pr))) }); }
void sut_visit(const char*p,sut_vcb cb,sut_pcb pc,void*x,void*px,sut_err*e){ guard(e,[&](error_code&ec){ visit(p,[&](void const*k,std::size_t ks,void const*d,std::size_t n,error_code&c){ int r=cb(x,k,ks,d,n); if(r) c=error_code{r,boost::system::generic_category()}; },[&](std::uint64_t u,std::uint64_t v){ if(pc) pc(px,u,v); },ec); }); }
void sut_verify(int h,sut_vinfo*o,const char*a,const char*b,uint64_t buf,sut_pcb pc,void*x,sut_err*e){ std::memset(o,0,sizeof *o); guard(e,[&](error_code&ec){ verify_info v; auto pr=[&](std::uint64_t u,std::uint64_t w){ if(pc) pc(x,u,w); }; H4N(h,(verify<H>(v,a,b,buf,pr,ec)))
  o->algorithm=v.algorithm; o->version=v.version; o->uid=v.uid; o->appnum=v.appnum; o->key_size=v.key_size; o->salt=v.salt; o->pepper=v.pepper; o->block_size=v.block_size; o->load_factor=v.load_factor; o->capacity=v.capacity; o->buckets=v.buckets; o->bucket_size=v.bucket_size; o->key_file_size=v.key_file_size; o->dat_file_size=v.dat_file_size; o->key_count=v.key_count; o->value_count=v.value_count; o->value_bytes=v.value_bytes; o->spill_count=v.spill_count; o->spill_count_tot=v.spill_count_tot; o->spill_bytes=v.spill_bytes; o->spill_bytes_tot=v.spill_bytes_tot; o->avg_fetch=v.avg_fetch; o->waste=v.waste; o->overhead=v.overhead; o->actual_load=v.actual_load; for(size_t i=0;i<v.hist.size()&&i<10;i++) o->hist[i]=v.hist[i]; }); }
void sut_set_xfile(int x){ xf=x; }
uint64_t sut_make_salt(void){ return make_salt(); } uint64_t sut_make_uid(void){ return make_uid(); }
uint64_t sut_block_size(const char*p){ return block_size(p); }
}
