#pragma once
#include "core.h"
#include "vfs.h"
namespace sim {
enum OpT { OP_CREATE,OP_OPEN,OP_CLOSE,OP_INSERT,OP_FETCH,OP_FLUSH,OP_BURST,OP_SLEEP,OP_CTXSTART,OP_CTXSTOP,OP_CTXRUN,OP_RECOVER,OP_VERIFY,OP_REKEY,OP_VISIT,OP_SPAWN,OP_JOIN,OP_AUDIT,OP_CRASH,OP_DESTROY,OP_SCAN,OP_DAMAGE,OP_CREATE2,OP_ENCODE,OP_PROPS,OP_REUSE,OP_BGALLOC,OP_CLI,OP_NOPS };
extern const char* const op_name[];
enum Phase { PH_BG=0,PH_CREATE=1,PH_OPEN=2,PH_CLIENT=3,PH_CLOSE=4,PH_RECOVER=5,PH_REKEY=6,PH_VERIFY=7,PH_VISIT=8,PH_FLUSH=9,PH_SCAN=10,PH_CTX=11,PH_CLI=12 };
extern const char* const ph_name[];
struct Op { int t=0; int s=0; u32 k=0; u32 n=0; u64 a=0,b=0,c=0; u32 id=0; int af=-1; u32 afn=1; }; // af: allocation failure index inside the call
struct StoreCfg { u32 ks=8, bs=256, nkeys=32; u32 lf=32768; u64 appnum=1,uid=2,salt=3; int hasher=0; u64 gap=0; }; // gap: size of a hole after the data file header
struct Era { int ctx=0; std::vector<Op> main; std::vector<std::vector<Op>> thr; std::vector<Fault> faults; CrashSpec crash; };
struct Plan { std::string prop; u64 seed=0; std::vector<StoreCfg> stores; std::vector<Era> eras; SchedCfg sched; std::vector<std::vector<std::pair<u64,u32>>> lists; IoCfg io;
  u64 flags=0; u64 bound_ns=0; u64 step_limit=60000000, time_limit_s=3600; u32 next_id=1; };
enum { PF_NOERR=1,        // any unexpected error is a violation even if faults fired (transient faults)
  PF_BGBOUND=2,           // background durability bound applies
  PF_LATENCY=4,           // latency bound on clients during stalls
  PF_EQUIV=8,             // compare with the undisturbed twin run
  PF_LEAK=16, PF_NOAUDIT=32, PF_ISOLATE=64, PF_RECEQ=128, PF_THROTTLE=256, PF_NOSCANVERIFY=512,
  PF_XFILE=2048, PF_LONGPATH=4096 /* names too long for the buffer inside a string */, PF_CLI=1024 /* tools are run through the command line tool where possible */ };
std::string plan_text(const Plan&); bool plan_parse(const std::string&,Plan&);
Plan gen_plan(const std::string& prop,u64 seed);
struct VKinds { std::vector<std::string> prefixes; };
bool kind_relevant(const std::string& prop,const std::string& kind);
struct Result { Outcome out=O_DONE; std::string kind,msg; u64 hash=0; u64 fshash=0; u64 ilv=0; u64 simtime=0,steps=0,points=0,switches=0; bool nontrivial=false; std::vector<std::vector<std::pair<u64,u32>>> rec; std::string history; };
Result run_plan(const Plan&,bool want_history=false);
}
