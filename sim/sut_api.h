// C interface between the simulator and the instrumented library under test.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
// error classes
enum { E_OK=0, E_NUDB=1, E_SYSTEM=2, E_OTHER=3, E_BADALLOC=10, E_EXC=11, E_UNKNOWN_EXC=12 };
// stable codes for nudb::error
enum { N_OK=0,N_key_not_found,N_key_exists,N_short_read,N_log_file_exists,N_no_key_file,N_too_many_buckets,N_not_data_file,N_not_key_file,N_not_log_file,N_different_version,N_invalid_key_size,N_invalid_block_size,N_short_key_file,N_short_bucket,N_short_spill,N_short_data_record,N_short_value,N_hash_mismatch,N_invalid_load_factor,N_invalid_capacity,N_invalid_bucket_count,N_invalid_bucket_size,N_incomplete_data_file_header,N_incomplete_key_file_header,N_invalid_log_record,N_invalid_log_spill,N_invalid_log_offset,N_invalid_log_index,N_invalid_spill_size,N_uid_mismatch,N_appnum_mismatch,N_key_size_mismatch,N_salt_mismatch,N_pepper_mismatch,N_block_size_mismatch,N_orphaned_value,N_missing_value,N_size_mismatch,N_duplicate_value,N_unknown };
typedef struct { int cls; int val; char msg[96]; } sut_err;
typedef void (*sut_cb)(void* arg,const void* data,size_t size);
typedef int (*sut_vcb)(void* arg,const void* key,size_t ks,const void* data,size_t n); // non zero: end the visit with that system error
typedef void (*sut_pcb)(void* arg,uint64_t amount,uint64_t total);
typedef struct { int algorithm; uint64_t version,uid,appnum,key_size,salt,pepper,block_size,capacity,buckets,bucket_size,key_file_size,dat_file_size,key_count,value_count,value_bytes,spill_count,spill_count_tot,spill_bytes,spill_bytes_tot; float load_factor,avg_fetch,waste,overhead,actual_load; uint64_t hist[10]; } sut_vinfo;
void* sut_ctx_new(void); void sut_ctx_delete(void*,sut_err*); void sut_ctx_start(void*,sut_err*); void sut_ctx_stop(void*,sut_err*); void sut_ctx_run(void*,sut_err*); void sut_ctx_flush(void*,sut_err*);
void* sut_store_new(int hasher,void* ctx,sut_err*); void sut_store_delete(void*,sut_err*);
void sut_open(void*,const char*,const char*,const char*,sut_err*); void sut_close(void*,sut_err*);
void sut_fetch(void*,const void* key,sut_cb,void*,sut_err*); void sut_insert(void*,const void* key,const void* data,size_t n,sut_err*);
void sut_set_burst(void*,size_t);
typedef struct { int open; uint64_t appnum,key_size,block_size; char dat[64],key[64],log[64]; } sut_props;
void sut_get_props(void*,sut_props*);
int sut_is_open(void*);
void sut_create(int hasher,const char*,const char*,const char*,uint64_t appnum,uint64_t uid,uint64_t salt,uint64_t ks,uint64_t bs,float lf,sut_err*);
void sut_create_nouid(int hasher,const char*,const char*,const char*,uint64_t appnum,uint64_t salt,uint64_t ks,uint64_t bs,float lf,sut_err*);
void sut_recover(int hasher,const char*,const char*,const char*,sut_err*);
void sut_rekey(int hasher,const char*,const char*,const char*,uint64_t bs,float lf,uint64_t items,uint64_t buf,sut_pcb,void*,sut_err*);
void sut_visit(const char*,sut_vcb,sut_pcb,void*,void*,sut_err*);
void sut_verify(int hasher,sut_vinfo*,const char*,const char*,uint64_t buf,sut_pcb,void*,sut_err*);
void sut_set_xfile(int);
uint64_t sut_make_salt(void); uint64_t sut_make_uid(void);
uint64_t sut_block_size(const char*);
int sut_cli(int ac,char const*const*av,int*rv,sut_err*);
#ifdef __cplusplus
}
#endif
