// Compiled with the library's own flags: gives the simulator a C interface to the header-only C++ cube class.
#include <iostream>
#include <new>
#include <cstring>
#include <string>
#include <cstdio>
#include <cstdlib>
#include "c_include/hypercv_core.h"
#include "cxx_include/hypercv_core.hpp"
using hypercv::HyMat;
struct HyGlue { int lines,samples,bands,dataType,format; char interleave[3]; void*data; float*wl; int elemSize; long dataSize; };
static HyMat& H(void*p){ return *(HyMat*)p; }
extern "C" {
unsigned long hy_size(void){ return sizeof(HyMat); }
int hy_fmt(int il){ return il==0?HYPERCV_BSQ: il==1?HYPERCV_BIL:HYPERCV_BIP; }
void hy_construct(void*p){ new(p) HyMat(); }
void hy_construct5(void*p,int s,int l,int b,int dt,int f){ new(p) HyMat(s,l,b,dt,f); }
void hy_construct6(void*p,int s,int l,int b,int dt,int f,void*d){ new(p) HyMat(s,l,b,dt,f,d); }
void hy_construct7(void*p,int s,int l,int b,int dt,int f,void*d,float*w){ new(p) HyMat(s,l,b,dt,f,d,w); }
void hy_create0(void*p,int s,int l,int b,int dt,int f){ H(p).samples=s; H(p).lines=l; H(p).bands=b; H(p).dataType=dt; H(p).format=f; H(p).create(); }
void hy_create5(void*p,int s,int l,int b,int dt,int f){ H(p).create(s,l,b,dt,f); }
void hy_create7(void*p,int s,int l,int b,int dt,int f,void*d,float*w){ H(p).create(s,l,b,dt,f,d,w); }
void hy_copydata(void*p,void*d,long n){ H(p).CopyData(d,n); }
void hy_copywl(void*p,float*w,long n){ H(p).CopyWaveLength(w,n); }
int hy_empty(void*p){ return H(p).empty(); }
void hy_save(void*p,const char*path){ H(p).save(path); }
void hy_open(void*p,const char*i,const char*h){ H(p).open(i,h); }
void hy_open_size(void*p,const char*i,int s,int l,int b,int dt,int f){ H(p).open(i,s,l,b,dt,f); }
void hy_copy(void*p,void*q){ new(q) HyMat(H(p).copy()); }
void hy_convert(void*p,int f){ H(p).convertTo(f); }
void hy_range(void*p,void*q,int r0,int c0,int b0,int r1,int c1,int b1){ new(q) HyMat(H(p).range(r0,c0,b0,r1,c1,b1)); }
void hy_release(void*p){ H(p).release(); }
void hy_hmread(void*q,const char*i,const char*h){ new(q) HyMat(hypercv::hmread(i,h)); }
void hy_hmread_size(void*q,const char*i,int s,int l,int b,int dt,int f){ new(q) HyMat(hypercv::hmread(i,s,l,b,dt,f)); }
void hy_conv(int w,void*p,void*q){ switch(w){ case 0: new(q) HyMat(hypercv::bil2bsq(H(p))); break; case 1: new(q) HyMat(hypercv::bil2bip(H(p))); break; case 2: new(q) HyMat(hypercv::bip2bil(H(p))); break; case 3: new(q) HyMat(hypercv::bip2bsq(H(p))); break; case 4: new(q) HyMat(hypercv::bsq2bip(H(p))); break; default: new(q) HyMat(hypercv::bsq2bil(H(p))); } }
void hy_destroy(void*p){ H(p).~HyMat(); }
void hy_view(void*p,struct HyGlue*g){ HyMat&m=H(p); g->lines=m.lines; g->samples=m.samples; g->bands=m.bands; g->dataType=m.dataType; g->format=m.format==HYPERCV_BSQ?0:m.format==HYPERCV_BIL?1:m.format==HYPERCV_BIP?2:-1; memcpy(g->interleave,m.interleave,3); g->data=m.data; g->wl=m.wavelength; g->elemSize=m.elemSize; g->dataSize=m.dataSize; }
}
