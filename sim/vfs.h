// Simulated file system with volatile and durable state, faults and crash semantics.
#pragma once
#include "core.h"
#include <memory>
#include <set>
namespace sim {
enum FsOp { FS_OPEN,FS_CREATE,FS_READ,FS_WRITE,FS_SYNC,FS_TRUNC,FS_UNLINK,FS_STAT,FS_ADVISE,FS_CLOSE,FS_RENAME,FS_NOPS };
extern const char* const fsop_name[];
enum FileRole { R_DAT=1,R_KEY=2,R_LOG=4,R_OTHER=8 };
enum FAct { FA_ERR, FA_SHORT, FA_PARTIAL_ERR, FA_STALL, FA_EOF };
extern const char* const fact_name[];
struct Fault { int op=FS_WRITE; int roles=7; int store=-1; int phase=-1; u32 nth=0, count=1; int act=FA_ERR; int err=5; u64 arg=0;
  u32 seen=0, fired=0; };
struct PendOp { int kind; u64 off; std::vector<u8> data; u64 len; u64 serial; bool lost=false; }; // kind 0 write 1 trunc
struct Inode { int id=0; std::vector<u8> data, durable; std::vector<PendOp> pend; int store=-1, role=R_OTHER; 
  Fiber* wlock=nullptr; std::vector<Fiber*> q; u64 born_serial=0; };
typedef std::shared_ptr<Inode> InoP;
struct DirOp { int kind; std::string name; InoP ino; }; // 0 link 1 unlink
enum CrashMode { CM_KILL, CM_POWER };
struct CrashSpec { int mode=CM_POWER; int phase=-1; int trig=0; // trig: 0 none 1 at k-th mutating fs op (before) 2 after 3 middle 4 at step 5 at time
  u64 at=0; u64 seed=1; int style=0; }; // style: 0 random 1 keep nothing unsynced 2 keep everything 3 prefix cuts
struct IoCfg { u64 seed=1; u32 lat_base_us=0, lat_jit_us=0, sync_us=0; u32 eintr_ppm=0, short_ppm=0; u32 chunk=0; // chunk: copy granularity of transfers visible to others, 0 = atomic
  u64 disk_cap=0; };
struct DatWatch { bool on=true; }; 
struct FsTraceOp { int op; int store; int role; u64 off,len; u64 size_before; int fiber; u64 seq; u64 now; int res; };
// one commit as seen from the disk: first log write to log truncation
struct CommitRec { u64 t0=0,seq0=0,t1=0,t2=0,t3=0; int fib=-1; u64 dat=0,key=0,log=0; };
struct Fs {
  std::map<int,std::vector<CommitRec>> commits; u64 last_op_time=0;
  std::map<std::string,InoP> names, durable_names; std::vector<DirOp> journal; // not yet durable dir ops
  std::map<int,std::pair<InoP,int>> fds; std::map<int,std::string> fdname; int next_ino=1; u64 serial=1; u64 ord=0;
  std::vector<Fault> faults; IoCfg io; CrashSpec crash; bool crash_on=false; u64 mut_seen=0; int phase=0; bool quiet=false;
  u64 errors_fired=0; std::map<int,u64> commit_err_time, commit_err; std::map<int,u64> err_by_store; u64 used=0;
  std::string dat_violation; // first violation of data-file immutability
  std::map<int,u64> committed_size; // per store: data file bytes that must never disappear (set by the harness)
  std::map<int,u64> gap; // per store: a hole of that many zero bytes follows the header of the data file; only the rest is kept in memory
  u64 last_err_seq=0; bool stall_active=false; u64 stall_from=0, stall_to=0; int stall_fiber=-1;
  std::vector<FsTraceOp>* rec=nullptr; std::vector<std::string> foreign; u64 fd_opened=0;
  void set_phase(int p){ phase=p; }
  void power_loss(const CrashSpec&); void kill();
  bool exists(const std::string&p){ return names.count(p)>0; }
  std::vector<u8>* content(const std::string&p){ auto i=names.find(p); return i==names.end()?nullptr:&i->second->data; }
  void put(const std::string&p,const std::vector<u8>&d); // harness: durable write
  void remove(const std::string&p);
  u64 hash() const; Fs clone() const; std::string describe() const;
};
extern Fs* FS;
int store_of(const std::string&p); int role_of(const std::string&p);
}
