// Independent implementation of the documented NuDB file format (decoder and encoder). Shares no code with NuDB.
#pragma once
#include "core.h"
#include <map>
namespace sim {
typedef std::vector<u8> Bytes;
u64 xxh64(const void* p,size_t n,u64 seed);
u64 hash_of(int hasher,const void* p,size_t n,u64 salt);   // the Hashers compiled into the library wrapper
inline u64 hash48(int hasher,const void*p,size_t n,u64 salt){ return (hash_of(hasher,p,n,salt)>>16)&0xffffffffffffull; }
struct DatHdr { u64 version=0,uid=0,appnum=0,ks=0; };
struct KeyHdr { u64 version=0,uid=0,appnum=0,ks=0,salt=0,pepper=0,bs=0,lf=0; u64 capacity=0,buckets=0,modulus=0; };
struct LogHdr { u64 version=0,uid=0,appnum=0,ks=0,salt=0,pepper=0,bs=0,kfs=0,dfs=0; };
struct DRec { u64 off,size; Bytes key,val; };
struct SRec { u64 off; u64 bsize; };   // off: of the record; bucket starts at off+8
struct Ent { u64 off,size,hash; };
struct Bkt { u64 count=0,spill=0; std::vector<Ent> e; };
struct DatInfo { DatHdr h; std::vector<DRec> recs; std::vector<SRec> spills; std::map<u64,size_t> at; std::map<u64,size_t> spill_at; };
struct DbInfo { DatInfo d; KeyHdr k; u64 key_count=0,value_count=0,value_bytes=0,spill_count=0,spill_count_tot=0,spill_bytes=0,spill_bytes_tot=0; u64 hist[10]={0}; u64 max_chain=0; bool partial_spills=false; };
extern u64 dec_gap; // size of the hole after the header of the data file being decoded (see vfs)
bool dec_dat(const Bytes& d,DatInfo& o,std::string& err);
bool dec_key_hdr(const Bytes& k,int hasher,KeyHdr& h,std::string& err);
bool dec_bucket(const Bytes& f,u64 off,u64 capacity,Bkt& b,std::string& err);
// complete check of a database; any_spill: records written with another block size may be present (after a rekey)
bool dec_db(const Bytes& dat,const Bytes& key,int hasher,DbInfo& o,std::string& err,bool any_spill=false);
bool dec_log_hdr(const Bytes& l,LogHdr& h);
u64 bsize(u64 cap); u64 bcap(u64 bs); u64 place(u64 h,u64 buckets);
// encoder: builds dat and key file images holding the given pairs
struct EncCfg { u64 ks,bs,lf,appnum,uid,salt; int hasher; u64 buckets; u64 seed; bool tail_spills; u64 gap=0; };
void encode_db(const EncCfg& c,const std::vector<std::pair<Bytes,Bytes>>& kv,Bytes& dat,Bytes& key);
void wr(Bytes&b,u64 v,int n); void wr_at(Bytes&b,size_t o,u64 v,int n); u64 rd(const Bytes&b,size_t o,int n);
}
