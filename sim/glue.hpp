#pragma once
#include "model.hpp"
extern "C" {
unsigned long hy_size(void); int hy_fmt(int il); void hy_construct(void*); void hy_construct5(void*,int,int,int,int,int); void hy_construct6(void*,int,int,int,int,int,void*); void hy_construct7(void*,int,int,int,int,int,void*,float*);
void hy_create0(void*,int,int,int,int,int); void hy_create5(void*,int,int,int,int,int); void hy_create7(void*,int,int,int,int,int,void*,float*); void hy_copydata(void*,void*,long); void hy_copywl(void*,float*,long); int hy_empty(void*);
void hy_save(void*,const char*); void hy_open(void*,const char*,const char*); void hy_open_size(void*,const char*,int,int,int,int,int); void hy_copy(void*,void*); void hy_convert(void*,int); void hy_range(void*,void*,int,int,int,int,int,int); void hy_release(void*);
void hy_hmread(void*,const char*,const char*); void hy_hmread_size(void*,const char*,int,int,int,int,int); void hy_conv(int,void*,void*); void hy_destroy(void*); void hy_view(void*,struct HyGlue*);
void vg_push(int,void**,const void*); void vg_pop(int,void**); void vg_erase(int,void**,size_t); void vg_init(int,void**,const void*,size_t); void vg_free(int,void**); size_t vg_size(int,void**); size_t vg_cap(int,void**); int vg_empty(int,void**); void* vg_begin(int,void**); void* vg_end(int,void**); void vg_get(int,void**,size_t,void*); size_t vg_esize(int);
}
bool lib_dead();
// disk helpers shared by several drivers
extern const char* const PATHS[]; extern const int NPATHS;
std::string hdr_of(const std::string&p);
// how a load ended
struct Loaded { Out o{O_RET,0}; bool obj=false; bool isimg=false; Cube c; Img m; std::vector<float> f; bool failed() const { return o.kind!=O_RET||!obj; } };
enum Loader { LD_C, LD_CSIZE, LD_SM, LD_BMP, LD_SPEC, LD_HY, LD_HYSIZE, LD_HMREAD, LD_HMSIZE, LD_N };
extern const char* const LDN[LD_N];
struct LoadArg { std::string path,hdr; int s=1,l=1,b=1,dt=1,il=0; };
Loaded do_load(int ld,const LoadArg&a,int prefill=0);
enum Saver { SV_C, SV_HY, SV_BMP, SV_N };
extern const char* const SVN[SV_N];
Out do_save_cube(int sv,const std::string&path,const Cube&c,int placement);
Out do_save_bmp(const std::string&path,const Img&m,int placement);
Cube rd_hy(void*h,const char*who);
void put_loaded(const Loaded&); Loaded get_loaded(BlobReader&);
Cube random_cube(Rng&r,int big=0);
