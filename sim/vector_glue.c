/* Compiled with the library's own flags: the dynamic-array macros instantiated for several element types. */
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include "c_include/hypercv_core.h"
#include "c_include/vector.h"
typedef struct { char c[3]; } vg3; typedef struct { float x,y,z; } vg12; typedef struct { double x,y; } vg16;
#define VG(N,T) \
 void vg_push_##N(void**v,const void*e){ T*p=(T*)*v; T x; memcpy(&x,e,sizeof x); vector_push_back(p,x); *v=p; } \
 void vg_pop_##N(void**v){ T*p=(T*)*v; vector_pop_back(p); *v=p; } \
 void vg_erase_##N(void**v,size_t i){ T*p=(T*)*v; vector_erase(p,i); *v=p; } \
 void vg_init_##N(void**v,const void*e,size_t n){ T*p=(T*)*v; T x; memcpy(&x,e,sizeof x); vector_init(p,x,n); *v=p; } \
 void vg_free_##N(void**v){ T*p=(T*)*v; vector_free(p); *v=p; } \
 size_t vg_size_##N(void**v){ T*p=(T*)*v; return vector_size(p); } \
 size_t vg_cap_##N(void**v){ T*p=(T*)*v; return vector_capacity(p); } \
 int vg_empty_##N(void**v){ T*p=(T*)*v; return vector_empty(p); } \
 void* vg_begin_##N(void**v){ T*p=(T*)*v; return vector_begin(p); } \
 void* vg_end_##N(void**v){ T*p=(T*)*v; return vector_end(p); } \
 void vg_get_##N(void**v,size_t i,void*o){ T*p=(T*)*v; memcpy(o,&p[i],sizeof(T)); }
VG(0,char) VG(1,short) VG(2,vg3) VG(3,int) VG(4,double) VG(5,vg12) VG(6,vg16)
#define SEL(R,F,ARGS) switch(t){ case 0: R vg_##F##_0 ARGS; break; case 1: R vg_##F##_1 ARGS; break; case 2: R vg_##F##_2 ARGS; break; case 3: R vg_##F##_3 ARGS; break; case 4: R vg_##F##_4 ARGS; break; case 5: R vg_##F##_5 ARGS; break; default: R vg_##F##_6 ARGS; break; }
void vg_push(int t,void**v,const void*e){ SEL(,push,(v,e)) }
void vg_pop(int t,void**v){ SEL(,pop,(v)) }
void vg_erase(int t,void**v,size_t i){ SEL(,erase,(v,i)) }
void vg_init(int t,void**v,const void*e,size_t n){ SEL(,init,(v,e,n)) }
void vg_free(int t,void**v){ SEL(,free,(v)) }
size_t vg_size(int t,void**v){ size_t r=0; SEL(r=,size,(v)) return r; }
size_t vg_cap(int t,void**v){ size_t r=0; SEL(r=,cap,(v)) return r; }
int vg_empty(int t,void**v){ int r=0; SEL(r=,empty,(v)) return r; }
void* vg_begin(int t,void**v){ void*r=0; SEL(r=,begin,(v)) return r; }
void* vg_end(int t,void**v){ void*r=0; SEL(r=,end,(v)) return r; }
void vg_get(int t,void**v,size_t i,void*o){ SEL(,get,(v,i,o)) }
size_t vg_esize(int t){ switch(t){ case 0: return 1; case 1: return 2; case 2: return 3; case 3: return 4; case 4: return 8; case 5: return 12; default: return 16; } }
