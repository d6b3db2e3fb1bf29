// Support for the demonstrations: an in-memory File type with volatile and durable contents
// and a hook in front of every operation. No real file is touched through it.
#pragma once
#include <nudb/nudb.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <atomic>
#include <chrono>
#include <vector>

namespace mem {
using nudb::error_code; using nudb::path_type; using nudb::file_mode;
struct Ino { std::string v, d; };                       // volatile (page cache) and durable bytes
struct Ev { std::string op, path; std::uint64_t off; std::size_t n; error_code* ec; };
typedef std::map<std::string,std::string> Snap;
struct Disk { std::uint64_t gap=0; // logical size of a hole after the 92 byte header of .dat files
  std::uint64_t down(std::string const& p,std::uint64_t o) const { return gap&&p.size()>4&&p.compare(p.size()-4,4,".dat")==0&&o>=92+gap? o-gap:o; }
  std::uint64_t up(std::string const& p,std::uint64_t o) const { return gap&&p.size()>4&&p.compare(p.size()-4,4,".dat")==0? o+gap:o; }
  std::mutex m; std::map<std::string,std::shared_ptr<Ino>> names; std::function<void(Ev&)> hook; };
inline Disk& disk(){ static Disk d; return d; }
inline error_code sys(int e){ return error_code{e,boost::system::system_category()}; }
inline bool fire(char const* op,std::string const& p,std::uint64_t off,std::size_t n,error_code& ec){ if(! disk().hook) return true; error_code x; Ev e{op,p,off,n,&x}; disk().hook(e); if(x) ec=x; return ! x; }
inline Snap after_kill(){ std::lock_guard<std::mutex> l(disk().m); Snap s; for(auto& x:disk().names) s[x.first]=x.second->v; return s; }
inline Snap after_power_loss(){ std::lock_guard<std::mutex> l(disk().m); Snap s; for(auto& x:disk().names) s[x.first]=x.second->d; return s; }
inline void restore(Snap const& s){ std::lock_guard<std::mutex> l(disk().m); disk().names.clear(); for(auto& x:s){ auto i=std::make_shared<Ino>(); i->v=i->d=x.second; disk().names[x.first]=i; } }
inline void dump(Snap const& s,std::string const& dir){ for(auto& x:s){ std::ofstream f(dir+"/"+x.first,std::ios::binary); f.write(x.second.data(),x.second.size()); } }
inline bool exists(std::string const& p){ std::lock_guard<std::mutex> l(disk().m); return disk().names.count(p)>0; }
inline std::string bytes(std::string const& p){ std::lock_guard<std::mutex> l(disk().m); auto i=disk().names.find(p); return i==disk().names.end()? std::string("<absent>"):i->second->v; }
class file {
  std::shared_ptr<Ino> i_; std::string p_; bool app_=false;
public:
  file()=default; file(file const&)=delete; file& operator=(file const&)=delete; file(file&&)=default; file& operator=(file&&)=default; ~file()=default;
  bool is_open() const { return i_!=nullptr; }
  void close(){ i_.reset(); }
  void create(file_mode m,path_type const& p,error_code& ec){ if(!fire("create",p,0,0,ec)) return; std::lock_guard<std::mutex> l(disk().m); if(disk().names.count(p)){ ec=sys(EEXIST); return; } i_=disk().names[p]=std::make_shared<Ino>(); p_=p; app_=m==file_mode::append; }
  void open(file_mode m,path_type const& p,error_code& ec){ if(!fire("open",p,0,0,ec)) return; std::lock_guard<std::mutex> l(disk().m); auto x=disk().names.find(p); if(x==disk().names.end()){ ec=sys(ENOENT); return; } i_=x->second; p_=p; app_=m==file_mode::append; }
  static void erase(path_type const& p,error_code& ec){ if(!fire("erase",p,0,0,ec)) return; std::lock_guard<std::mutex> l(disk().m); if(!disk().names.erase(p)) ec=sys(ENOENT); }
  std::uint64_t size(error_code& ec) const { if(!fire("size",p_,0,0,ec)) return 0; std::lock_guard<std::mutex> l(disk().m); return disk().up(p_,i_->v.size()); }
  void read(std::uint64_t off,void* b,std::size_t n,error_code& ec){ if(!fire("read",p_,off,n,ec)) return; std::unique_lock<std::mutex> l(disk().m); off=disk().down(p_,off); if(off+n>i_->v.size()){ ec=nudb::error::short_read; return; } std::memcpy(b,i_->v.data()+off,n); l.unlock(); fire("read.done",p_,off,n,ec); }
  void write(std::uint64_t off,void const* b,std::size_t n,error_code& ec){ if(!fire("write",p_,off,n,ec)) return; std::lock_guard<std::mutex> l(disk().m); off=disk().down(p_,off); if(app_) off=i_->v.size(); if(i_->v.size()<off+n) i_->v.resize(off+n); std::memcpy(&i_->v[off],b,n); }
  void sync(error_code& ec){ if(!fire("sync",p_,0,0,ec)) return; std::lock_guard<std::mutex> l(disk().m); i_->d=i_->v; }
  void trunc(std::uint64_t n,error_code& ec){ if(!fire("trunc",p_,n,0,ec)) return; std::lock_guard<std::mutex> l(disk().m); i_->v.resize(disk().down(p_,n)); }
};
} // mem

#define CHECK(c,msg) do{ if(!(c)){ std::printf("FAIL line %d: %s\n",__LINE__,msg); std::fflush(stdout); std::_Exit(1);} }while(0)
typedef nudb::error_code error_code;
typedef nudb::basic_store<nudb::xxhasher,mem::file> mstore;
inline std::string K(unsigned i,std::size_t n=8){ std::string s(n,'k'); for(std::size_t j=0;j<4&&j<n;j++) s[j]=(char)(i>>(8*j)); return s; }
inline std::string V(unsigned i,std::size_t n=20){ std::string s(n,'v'); for(std::size_t j=0;j<n;j++) s[j]=(char)(i*131+j*7+1); return s; }
template<class H=nudb::xxhasher> void mk(unsigned bs=256,float lf=0.5f,unsigned ks=8,char const* base="db"){ error_code ec; std::string b=base; nudb::create<H,mem::file>(b+".dat",b+".key",b+".log",1,77,123,ks,bs,lf,ec); CHECK(!ec,"create"); }
template<class S> error_code op(S& s,char const* base="db"){ error_code ec; std::string b=base; s.open(b+".dat",b+".key",b+".log",ec); return ec; }
template<class S> error_code ins(S& s,unsigned i,std::size_t n=20,std::size_t ks=8){ error_code ec; auto k=K(i,ks); auto v=V(i,n); s.insert(k.data(),v.data(),n,ec); return ec; }
// 0 found with the right value, 1 not found, 2 wrong value, 3 other error
template<class S> int get(S& s,unsigned i,std::size_t n=20,std::size_t ks=8){ error_code ec; auto k=K(i,ks); auto v=V(i,n); int r=-1; s.fetch(k.data(),[&](void const* p,std::size_t m){ r= m==n&&!std::memcmp(p,v.data(),n)?0:2; },ec); if(ec==nudb::error::key_not_found) return 1; if(ec) return 3; return r<0?3:r; }
inline void ms(int n){ std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
