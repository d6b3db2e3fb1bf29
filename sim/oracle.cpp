#include "oracle.h"
#include <algorithm>
#include <set>
namespace sim {
// ---- XXH64 from its specification ----
static const u64 P1=11400714785074694791ull,P2=14029467366897019727ull,P3=1609587929392839161ull,P4=9650029242287828579ull,P5=2870177450012600261ull;
static inline u64 rotl(u64 x,int r){ return (x<<r)|(x>>(64-r)); }
static inline u64 le64(const u8*p){ u64 v=0; for(int i=7;i>=0;i--) v=v<<8|p[i]; return v; }
static inline u64 le32(const u8*p){ u64 v=0; for(int i=3;i>=0;i--) v=v<<8|p[i]; return v; }
static inline u64 rnd(u64 a,u64 i){ a+=i*P2; a=rotl(a,31); return a*P1; }
static inline u64 mrg(u64 a,u64 v){ a^=rnd(0,v); return a*P1+P4; }
u64 xxh64(const void* q,size_t n,u64 seed){ const u8*p=(const u8*)q,*e=p+n; u64 h;
  if(n>=32){ u64 v1=seed+P1+P2,v2=seed+P2,v3=seed,v4=seed-P1; while(p+32<=e){ v1=rnd(v1,le64(p)); v2=rnd(v2,le64(p+8)); v3=rnd(v3,le64(p+16)); v4=rnd(v4,le64(p+24)); p+=32; }
    h=rotl(v1,1)+rotl(v2,7)+rotl(v3,12)+rotl(v4,18); h=mrg(h,v1); h=mrg(h,v2); h=mrg(h,v3); h=mrg(h,v4); } else h=seed+P5;
  h+=n; while(p+8<=e){ h^=rnd(0,le64(p)); h=rotl(h,27)*P1+P4; p+=8; } if(p+4<=e){ h^=le32(p)*P1; h=rotl(h,23)*P2+P3; p+=4; } while(p<e){ h^=(*p++)*P5; h=rotl(h,11)*P1; }
  h^=h>>33; h*=P2; h^=h>>29; h*=P3; h^=h>>32; return h; }
u64 hash_of(int k,const void*p,size_t n,u64 s){ switch(k){
  case 1: return (xxh64(p,n,s)%7+1)*0x9E3779B97F4A7C15ull;
  case 2: return xxh64(p,n,s)&0xffffffff00000000ull&~0x0000000f00000000ull;
  case 3: if(n==8&&!memcmp(p,&s,8)) return xxh64(p,n,s); return 0x1234567890abcdefull;
  default: return xxh64(p,n,s); } }
void wr(Bytes&b,u64 v,int n){ for(int i=n-1;i>=0;i--) b.push_back((u8)(v>>(8*i))); }
void wr_at(Bytes&b,size_t o,u64 v,int n){ for(int i=0;i<n;i++) b[o+i]=(u8)(v>>(8*(n-1-i))); }
u64 rd(const Bytes&b,size_t o,int n){ u64 v=0; for(int i=0;i<n;i++) v=v<<8|b[o+i]; return v; }
u64 bsize(u64 cap){ return 8+18*cap; }
u64 bcap(u64 bs){ return bs<104?0:(bs-8)/18; }
static u64 ceil2(u64 n){ u64 m=1; while(m<n) m*=2; return m; }
u64 place(u64 h,u64 buckets){ u64 m=ceil2(buckets); u64 n=h%m; if(n>=buckets) n-=m/2; return n; }
u64 dec_gap=0; static u64 phys(u64 v){ return !dec_gap||!v?v: v>=92+dec_gap? v-dec_gap: ~0ull; }
bool dec_dat(const Bytes& d,DatInfo& o,std::string& err){
  if(d.size()<92){ err="data file shorter than its header"; return false; }
  if(memcmp(d.data(),"nudb.dat",8)){ err="data file type"; return false; }
  o.h.version=rd(d,8,2); o.h.uid=rd(d,10,8); o.h.appnum=rd(d,18,8); o.h.ks=rd(d,26,2);
  if(o.h.version!=2){ err="data file version"; return false; } if(!o.h.ks){ err="data file key size"; return false; }
  for(int i=28;i<92;i++) if(d[i]){ err="reserved bytes of the data file header are not zero"; return false; }
  size_t p=92; while(p<d.size()){ if(p+6>d.size()){ err=fmt("data file ends inside a record at %zu",p); return false; } u64 n=rd(d,p,6);
    if(n){ if(p+6+o.h.ks+n>d.size()){ err=fmt("data record at %zu runs past the end of the file",p); return false; }
      DRec r; r.off=p; r.size=n; r.key.assign(d.begin()+p+6,d.begin()+p+6+o.h.ks); r.val.assign(d.begin()+p+6+o.h.ks,d.begin()+p+6+o.h.ks+n); o.at[p]=o.recs.size(); o.recs.push_back(std::move(r)); p+=6+o.h.ks+n; }
    else { if(p+8>d.size()){ err=fmt("data file ends inside a spill record at %zu",p); return false; } u64 m=rd(d,p+6,2); if(p+8+m>d.size()){ err=fmt("spill record at %zu runs past the end of the file",p); return false; }
      if(m<8){ err=fmt("spill record at %zu is too small",p); return false; } o.spill_at[p+8]=o.spills.size(); o.spills.push_back({p,m}); p+=8+m; } }
  return true; }
bool dec_key_hdr(const Bytes& k,int hasher,KeyHdr& h,std::string& err){
  if(k.size()<104){ err="key file shorter than its header"; return false; } if(memcmp(k.data(),"nudb.key",8)){ err="key file type"; return false; }
  h.version=rd(k,8,2); h.uid=rd(k,10,8); h.appnum=rd(k,18,8); h.ks=rd(k,26,2); h.salt=rd(k,28,8); h.pepper=rd(k,36,8); h.bs=rd(k,44,2); h.lf=rd(k,46,2);
  if(h.version!=2){ err="key file version"; return false; }
  for(int i=48;i<104;i++) if(k[i]){ err="reserved bytes of the key file header are not zero"; return false; }
  u8 le[8]; for(int i=0;i<8;i++) le[i]=(u8)(h.salt>>(8*i)); if(hash_of(hasher,le,8,h.salt)!=h.pepper){ err="pepper does not match the hash of the salt"; return false; }
  h.capacity=bcap(h.bs); if(!h.capacity){ err="block size"; return false; }
  if(k.size()<2*h.bs||k.size()%h.bs){ err=fmt("key file size %zu is not a whole number of blocks",k.size()); return false; }
  h.buckets=k.size()/h.bs-1; h.modulus=ceil2(h.buckets); return true; }
bool dec_bucket(const Bytes& f,u64 off,u64 cap,Bkt& b,std::string& err){
  if(off+8>f.size()){ err=fmt("bucket at %llu is outside the file",(unsigned long long)off); return false; }
  b.count=rd(f,off,2); b.spill=phys(rd(f,off+2,6)); b.e.clear(); if(b.count>cap){ err=fmt("bucket at %llu holds %llu entries, capacity is %llu",(unsigned long long)off,(unsigned long long)b.count,(unsigned long long)cap); return false; }
  if(off+bsize(b.count)>f.size()){ err="bucket runs past the end of the file"; return false; }
  for(u64 i=0;i<b.count;i++){ size_t q=off+8+18*i; b.e.push_back({phys(rd(f,q,6)),rd(f,q+6,6),rd(f,q+12,6)}); if(i&&b.e[i].hash<b.e[i-1].hash){ err=fmt("entries of the bucket at %llu are not sorted by hash",(unsigned long long)off); return false; } }
  return true; }
bool dec_db(const Bytes& dat,const Bytes& key,int hasher,DbInfo& o,std::string& err,bool any_spill){
  if(!dec_dat(dat,o.d,err)) return false; if(!dec_key_hdr(key,hasher,o.k,err)) return false;
  if(o.d.h.uid!=o.k.uid||o.d.h.appnum!=o.k.appnum||o.d.h.ks!=o.k.ks){ err="data and key file headers do not belong together"; return false; }
  u64 bsz=bsize(o.k.capacity); std::set<Bytes> keys;
  for(auto&r:o.d.recs){ if(!keys.insert(r.key).second){ err=fmt("key stored twice in the data file (record at %llu)",(unsigned long long)r.off); return false; } o.value_count++; o.value_bytes+=r.size; }
  for(auto&s:o.d.spills){ if(s.bsize!=bsz&&!any_spill){ err=fmt("spill record at %llu has size %llu, expected %llu",(unsigned long long)s.off,(unsigned long long)s.bsize,(unsigned long long)bsz); return false; } o.spill_count_tot++; Bkt b; std::string e2; o.spill_bytes_tot+=8+s.bsize; if(dec_bucket(dat,s.off+8,s.bsize?(s.bsize-8)/18:0,b,e2)){ if(bsize(b.count)!=s.bsize) o.partial_spills=true; } else { err="spill record: "+e2; return false; } }
  std::vector<u8> seen(o.d.recs.size(),0); std::set<u64> used;
  for(u64 n=0;n<o.k.buckets;n++){ Bkt b; if(!dec_bucket(key,(n+1)*o.k.bs,o.k.capacity,b,err)){ err=fmt("bucket %llu: ",(unsigned long long)n)+err; return false; }
    u64 chain=0; for(;;){ for(auto&e:b.e){ auto it=o.d.at.find(e.off); if(it==o.d.at.end()){ err=fmt("bucket %llu refers to offset %llu where there is no value record",(unsigned long long)n,(unsigned long long)e.off); return false; }
        DRec&r=o.d.recs[it->second]; if(r.size!=e.size){ err=fmt("bucket %llu: size of the entry does not match the record",(unsigned long long)n); return false; }
        u64 h=hash48(hasher,r.key.data(),r.key.size(),o.k.salt); if(h!=e.hash){ err=fmt("bucket %llu: hash of the entry does not match the key",(unsigned long long)n); return false; }
        if(place(h,o.k.buckets)!=n){ err=fmt("key is in bucket %llu but its hash selects %llu of %llu",(unsigned long long)n,(unsigned long long)place(h,o.k.buckets),(unsigned long long)o.k.buckets); return false; }
        if(seen[it->second]++){ err=fmt("record at %llu is indexed twice",(unsigned long long)e.off); return false; } o.key_count++; }
      if(!b.spill) break; auto sp=o.d.spill_at.find(b.spill); if(sp==o.d.spill_at.end()){ err=fmt("bucket %llu: spill offset %llu is not a spill record",(unsigned long long)n,(unsigned long long)b.spill); return false; }
      if(!used.insert(b.spill).second){ err="spill record used twice"; return false; } u64 so=b.spill; if(o.d.spills[sp->second].bsize!=bsz){ err="spill record in use has the wrong size"; return false; }
      if(!dec_bucket(dat,so,o.k.capacity,b,err)) return false; chain++; o.spill_count++; o.spill_bytes+=8+bsize(b.count); }
    if(chain>o.max_chain) o.max_chain=chain; o.hist[chain>9?9:chain]++; }
  for(size_t i=0;i<seen.size();i++) if(!seen[i]){ err=fmt("record at %llu is not reachable from the index",(unsigned long long)o.d.recs[i].off); return false; }
  return true; }
bool dec_log_hdr(const Bytes& l,LogHdr& h){ if(l.size()<62||memcmp(l.data(),"nudb.log",8)) return false; h.version=rd(l,8,2); h.uid=rd(l,10,8); h.appnum=rd(l,18,8); h.ks=rd(l,26,2); h.salt=rd(l,28,8); h.pepper=rd(l,36,8); h.bs=rd(l,44,2); h.kfs=rd(l,46,8); h.dfs=rd(l,54,8); return true; }
void encode_db(const EncCfg& c,const std::vector<std::pair<Bytes,Bytes>>& kv,Bytes& dat,Bytes& key){
  Rng r(c.seed); dat.clear(); key.clear(); for(char ch:std::string("nudb.dat")) dat.push_back(ch); wr(dat,2,2); wr(dat,c.uid,8); wr(dat,c.appnum,8); wr(dat,c.ks,2); dat.resize(92,0);
  u64 cap=bcap(c.bs); std::vector<std::vector<Ent>> B(c.buckets);
  auto spill=[&](const std::vector<Ent>& e,u64 next){ u64 off=dat.size()+8+c.gap; wr(dat,0,6); wr(dat,bsize(cap),2); size_t s=dat.size(); dat.resize(s+bsize(cap),0); wr_at(dat,s,e.size(),2); wr_at(dat,s+2,next,6); for(size_t i=0;i<e.size();i++){ wr_at(dat,s+8+18*i,e[i].off,6); wr_at(dat,s+8+18*i+6,e[i].size,6); wr_at(dat,s+8+18*i+12,e[i].hash,6);} return off; };
  for(auto&p:kv){ if(c.tail_spills&&r.chance(1,8)) spill({},0); u64 off=dat.size()+c.gap; wr(dat,p.second.size(),6); dat.insert(dat.end(),p.first.begin(),p.first.end()); dat.insert(dat.end(),p.second.begin(),p.second.end()); u64 h=hash48(c.hasher,p.first.data(),p.first.size(),c.salt); B[place(h,c.buckets)].push_back({off,p.second.size(),h}); }
  auto srt=[](std::vector<Ent>&v){ std::stable_sort(v.begin(),v.end(),[](const Ent&a,const Ent&b){return a.hash<b.hash;}); };
  for(char ch:std::string("nudb.key")) key.push_back(ch); wr(key,2,2); wr(key,c.uid,8); wr(key,c.appnum,8); wr(key,c.ks,2); wr(key,c.salt,8); u8 le[8]; for(int i=0;i<8;i++) le[i]=(u8)(c.salt>>(8*i)); wr(key,hash_of(c.hasher,le,8,c.salt),8); wr(key,c.bs,2); wr(key,c.lf,2); key.resize(c.bs*(c.buckets+1),0);
  for(u64 n=0;n<c.buckets;n++){ auto&v=B[n]; u64 next=0; // full spill buckets first, the rest stays in the key file
    size_t pos=0; while(v.size()-pos>cap){ u64 k= c.tail_spills? r.range(1,cap):cap; std::vector<Ent> e(v.begin()+pos,v.begin()+pos+k); srt(e); next=spill(e,next); pos+=k; }
    std::vector<Ent> e(v.begin()+pos,v.end()); srt(e); size_t s=(n+1)*c.bs; wr_at(key,s,e.size(),2); wr_at(key,s+2,next,6); for(size_t i=0;i<e.size();i++){ wr_at(key,s+8+18*i,e[i].off,6); wr_at(key,s+8+18*i+6,e[i].size,6); wr_at(key,s+8+18*i+12,e[i].hash,6);} }
}
}
