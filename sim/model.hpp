// Plain-array models and helpers shared by the property drivers.
#pragma once
#include "sim.hpp"
#include <cmath>
extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#include "highgui/hypercv_gui.h"
#include "satellite/hypercv_satellite.h"
}
#undef inline
static const int DTYPES[9]={1,2,3,4,5,12,13,14,15};
static const char* const ILN[3]={"bsq","bil","bip"};
int dt_size(int dt);
struct Cube { int s=0,l=0,b=0,dt=1,il=0; std::string d; std::vector<float> w; bool hasw=false;
  size_t es() const { return dt_size(dt); } size_t n() const { return (size_t)s*l*b; } size_t bytes() const { return n()*es(); }
  size_t idx(int line,int samp,int band,int lay) const { return lay==0? ((size_t)band*l+line)*s+samp: lay==1? ((size_t)line*b+band)*s+samp: ((size_t)line*s+samp)*b+band; }
  const char* at(int line,int samp,int band) const { return d.data()+idx(line,samp,band,il)*es(); }
  char* at(int line,int samp,int band){ return &d[idx(line,samp,band,il)*es()]; }
  bool same(const Cube&o,std::string*why=nullptr,bool wl=true) const; };
struct Img { int r=0,c=0,dt=1,ch=1; std::string d; size_t es() const { return dt_size(dt); } size_t bytes() const { return (size_t)r*c*ch*es(); } bool same(const Img&o,std::string*why=nullptr) const; };
enum ValMode { V_RANDOM, V_SMALL, V_RAMP, V_CONST, V_EXTREME, V_PALETTE };
void fill_values(std::string&d,int dt,int mode,Rng&r);      // never NaN
Cube gen_cube(int s,int l,int b,int dt,int il,int vmode,int wmode,u64 seed);   // wmode 0 none, 1.. kinds
Img gen_img(int r,int c,int dt,int ch,int vmode,u64 seed);
Cube relayout(const Cube&,int il);
float wl_text(float f);                                      // value after "%f" and atof
// real objects <-> models (inside a life)
hyper_mat mk_cube(const Cube&,int placement=0);              // 0: via the library, 1: separate blocks with exact bounds
simple_mat mk_img(const Img&,int placement=0);
Cube rd_cube(hyper_mat,const char*who);                      // checks that the object is well formed and owns its bytes
Img rd_img(simple_mat,const char*who);
void free_cube(hyper_mat,int placement); void free_img(simple_mat,int placement);
void put_cube(const Cube&); Cube get_cube(BlobReader&); void put_img(const Img&); Img get_img(BlobReader&);
bool mem_ok(const void*p,size_t n);
std::string desc(const Cube&); std::string desc(const Img&);
// reference codecs
std::string bmp_encode(const Img&rgb,int variant,Rng&r);     // variants: 0 plain 24, 1 24 with gap, 2 8-bit palette, 3 8-bit palette with few colours, 4 32-bit, 5 top-down, 6 RLE flag, 7 v4 header
bool bmp_decode(const std::string&f,Img&out,std::string&why);
bool hdr_parse(const std::string&t,Cube&out,std::string&why); // independent ENVI header reader (strict)
std::string hdr_text(const Cube&,int style,Rng&r); std::string hdr_foreign(Cube&c,long offset,int byteorder,Rng&r);
void env_common(Plan&p,Rng&r);
void apply_env(const Plan&p,u64 salt=0);
#define WITH_LIB(code) lib([&]{ code; })
// wrappers implemented in instrumented glue files
struct HyGlue { int lines,samples,bands,dataType,format; char interleave[3]; void*data; float*wl; int elemSize; long dataSize; };
