// C19: cubes whose size passes 2^31 or 2^32 bytes or elements. The cube lies in sparse simulated memory.
#include "glue.hpp"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <array>
static u8* const BIG=(u8*)0x280000000000ull; static const u64 BIG_SZ=96ull<<30; static u64 g_big_used=0;
static void big_init(){ void*r=mmap(BIG,BIG_SZ,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(r!=(void*)BIG){ perror("big"); _exit(2);} g_big_used=1u<<20; }
// a sparse block of n bytes, exact at its end (1) or at its start (0)
static u8* big_block(u64 n,int at_end){ u64 pg=(n+4095)&~4095ull; u8*p=BIG+g_big_used; if(g_big_used+pg+(1u<<20)>BIG_SZ){ dprintf(2,"big memory full\n"); _exit(95);} if(mprotect(p,pg,PROT_READ|PROT_WRITE)){ perror("big"); _exit(2);} g_big_used+=pg+(1u<<20); return at_end?p+pg-n:p; }
// offsets of the pages of [p,p+n) that hold something other than zero
static std::vector<u64> touched(u8*p,u64 n){ std::vector<u64> v; int fd=open("/proc/self/pagemap",O_RDONLY); u64 a=(u64)p&~4095ull,e=((u64)p+n+4095)&~4095ull; static u64 buf[1<<16]; for(u64 x=a;x<e;){ u64 k=std::min<u64>((e-x)>>12,1u<<16); ssize_t g= fd<0?-1:pread(fd,buf,k*8,(x>>12)*8); if(g!=(ssize_t)(k*8)){ dprintf(2,"no page map\n"); _exit(95);} for(u64 i=0;i<k;i++) if(buf[i]>>62){ const u64*w=(const u64*)(x+i*4096); bool nz=false; for(int j=0;j<512&&!nz;j++) nz=w[j]!=0; if(nz) v.push_back(x+i*4096); } x+=k<<12; } if(fd>=0) close(fd); return v; }
struct BigCube { int s,l,b,dt,il,es; u64 seed; u8*d=nullptr; float*w=nullptr; u64 n() const { return (u64)s*l*b; } u64 idx(u64 r,u64 c,u64 k) const { return il==0?(k*l+r)*s+c: il==1?(r*b+k)*s+c:(r*s+c)*b+k; } };
static void elem_of(u64 seed,u64 i,int es,u8*o){ for(int k=0;k<es;k+=8){ u64 h=mix64(seed^(i*977+k)); for(int j=k;j<es&&j<k+8;j++){ u8 x=(u8)(h>>(8*(j-k))); o[j]=x?x:1; } } }
static void put_at(BigCube&c,u64 i){ elem_of(c.seed,i,c.es,c.d+i*c.es); }
static float wave_of(const BigCube&c,int k){ return 400.f+(float)(mix64(c.seed+k)%100000)/8; }
static hyper_mat as_hm(BigCube&c){ hyper_mat m=(hyper_mat)sim_malloc(sizeof(HyperMat)); m->samples=c.s; m->lines=c.l; m->bands=c.b; m->data_type=c.dt; memcpy(m->interleave,ILN[c.il],3); m->data=c.d; m->wavelength=c.w; return m; }
// sizes around a limit of bytes or elements; the long dimension is 0 samples, 1 lines, 2 bands
static BigCube big_dims(u64 seed,int dt,int il,u64 plane_max){ Rng r(seed); BigCube c; c.seed=seed|1; c.dt=dt; c.es=dt_size(dt); c.il=il; static const u64 LIM[]={1ull<<31,1ull<<32,3ull<<31,1ull<<33}; u64 lim=LIM[r.below(4)]; u64 want= r.chance(1,3)? (1ull<<31)+r.below(1u<<20): lim/c.es+r.below(1u<<22)/c.es; if(want*c.es>(20ull<<30)) want=(20ull<<30)/c.es; if(want>(3ull<<31)) want=3ull<<31;
  u64 a,b; if(plane_max){ a=1+r.below(90); b=1+r.below(plane_max/a); if(a*b<plane_max/4){ a=64; b=plane_max/64; } c.s=(int)a; c.l=(int)b; c.b=(int)(want/(a*b)+1); }
  else { u64 x=200+r.below(3000),y=200+r.below(3000); u64 z=want/(x*y)+1; int*d[3]={&c.s,&c.l,&c.b}; int k=(int)r.below(3); *d[k]=(int)z; *d[(k+1)%3]=(int)x; *d[(k+2)%3]=(int)y; } return c; }
static void big_alloc(BigCube&c,int at_end){ c.d=big_block(c.n()*c.es,at_end); c.w=(float*)big_block(4ull*c.b,at_end); }
enum { G_RANGE,G_HYRANGE,G_TOIMG,G_FROMIMG,G_SPLICE,G_REFUSE,G_N };
static void refuse_big(const Step&s,Rng&r);
static void do_big(const Step&s){ int op=(int)((u64)s.g(0)%G_N); u64 seed=(u64)s.g(1); Rng r(seed^0xb16); int dt=DTYPES[(u64)s.g(2)%9],il=(int)((u64)s.g(3)%3),at_end=(int)(r.below(2)); big_init(); static const char*const N[]={"hyper_mat_get_range","HyMat::range","hyper_mat_2_simple_mat","simple_mat_2_hyper_mat","hyper_mat_splicing","huge request"}; const char*who=N[op]; g_where=who; { char pn[60]; snprintf(pn,60,"big %s",who); probe(pn); }
  if(op==G_REFUSE){ refuse_big(s,r); return; }
  if(op==G_RANGE||op==G_HYRANGE){ BigCube c=big_dims(seed,dt,il,0); big_alloc(c,at_end); auto pick=[&](int n,int&a,int&b){ int len=1+(int)r.below(std::min(n,5)); a= r.chance(1,2)? n-len-(int)r.below(std::min(n-len+1,3)): (int)r.below(n-len+1); b=a+len; }; int r0,r1,c0,c1,k0,k1; pick(c.l,r0,r1); pick(c.s,c0,c1); pick(c.b,k0,k1);
    for(int i=r0;i<r1;i++) for(int j=c0;j<c1;j++) for(int k=k0;k<k1;k++) put_at(c,c.idx(i,j,k)); for(int k=k0;k<k1;k++) c.w[k]=wave_of(c,k);
    if(c.idx(r1-1,c1-1,k1-1)*c.es>=(1ull<<31)) probe("big: beyond 2^31 bytes"); if(c.idx(r1-1,c1-1,k1-1)*c.es>=(1ull<<32)) probe("big: beyond 2^32 bytes"); if(c.idx(r1-1,c1-1,k1-1)>=(1ull<<31)) probe("big: beyond 2^31 elements"); fault(F_BIG);
    Cube want; want.s=c1-c0; want.l=r1-r0; want.b=k1-k0; want.dt=dt; want.il=il; want.hasw=true; want.d.resize(want.bytes()); for(int i=r0;i<r1;i++) for(int j=c0;j<c1;j++) for(int k=k0;k<k1;k++) elem_of(c.seed,c.idx(i,j,k),c.es,(u8*)&want.d[want.idx(i-r0,j-c0,k-k0,il)*c.es]); for(int k=k0;k<k1;k++) want.w.push_back(wave_of(c,k));
    Cube got; Out o; if(op==G_RANGE){ hyper_mat m=as_hm(c),h=nullptr; o=lib([&]{ h=hyper_mat_get_range(m,r0,c0,k0,r1,c1,k1); }); if(!o.ret()||!h) violate(std::string("C19:refused:")+who,"%s refuses a range inside a cube of %d x %d x %d elements of %d bytes",who,c.s,c.l,c.b,c.es); got=rd_cube(h,who); }
    else { void*q=sim_malloc(hy_size()),*z=sim_malloc(hy_size()); o=lib([&]{ hy_construct7(q,c.s,c.l,c.b,c.dt,hy_fmt(c.il),c.d,c.w); hy_range(q,z,r0,c0,k0,r1,c1,k1); }); if(!o.ret()) violate(std::string("C19:refused:")+who,"%s refuses a range inside a cube of %d x %d x %d elements of %d bytes",who,c.s,c.l,c.b,c.es); got=rd_hy(z,who); }
    std::string why; if(!got.same(want,&why)) violate(std::string("C19:wrong:")+who,"%s(%d..%d,%d..%d,%d..%d) of a cube of %d samples, %d lines, %d bands, %d bytes each, %s: %s",who,r0,r1,c0,c1,k0,k1,c.s,c.l,c.b,c.es,ILN[il],why.c_str()); ev(0xB16,op,want.n()); return; }
  if(op==G_TOIMG||op==G_FROMIMG){ BigCube c=big_dims(seed,dt,0,4096); big_alloc(c,at_end); int band=r.chance(1,2)? c.b-(int)r.below(3): 1+(int)r.below(c.b); u64 plane=(u64)c.s*c.l,base=plane*(band-1); if(base*c.es>=(1ull<<31)) probe("big: beyond 2^31 bytes"); if(base*c.es>=(1ull<<32)) probe("big: beyond 2^32 bytes"); if(base>=(1ull<<31)) probe("big: beyond 2^31 elements"); fault(F_BIG); hyper_mat m=as_hm(c); Img x; x.r=c.l;x.c=c.s;x.dt=dt;x.ch=1; x.d.resize(x.bytes()); 
    for(u64 i=0;i<plane;i++) elem_of(c.seed,base+i,c.es,(u8*)&x.d[i*c.es]); Out o;
    if(op==G_TOIMG){ memcpy(c.d+base*c.es,x.d.data(),x.d.size()); simple_mat g=mk_img(gen_img(c.l,c.s,dt,1,0,seed),(int)r.below(2)); o=lib([&]{ hyper_mat_2_simple_mat(m,g,band); }); if(!o.ret()) violate(std::string("C19:refused:")+who,"%s refuses band %d of %d",who,band,c.b); Img got=rd_img(g,who); std::string why; if(!got.same(x,&why)) violate(std::string("C19:wrong:")+who,"band %d of a cube of %d x %d x %d elements of %d bytes: %s",band,c.s,c.l,c.b,c.es,why.c_str()); }
    else { simple_mat g=mk_img(x,(int)r.below(2)); o=lib([&]{ simple_mat_2_hyper_mat(m,g,band); }); if(!o.ret()) violate(std::string("C19:refused:")+who,"%s refuses band %d of %d",who,band,c.b); }
    u64 lo=(u64)(c.d+base*c.es),hi=lo+plane*c.es; if(memcmp(c.d+base*c.es,x.d.data(),x.d.size())) violate(std::string("C19:wrong:")+who,"band %d of a cube of %d x %d x %d elements of %d bytes does not hold the image",band,c.s,c.l,c.b,c.es);
    for(u64 pg:touched(c.d,c.n()*c.es)) for(u64 a=pg;a<pg+4096;a++) if((a<lo||a>=hi)&&*(u8*)a) violate(std::string("C19:elsewhere:")+who,"%s changed the cube at byte %llu, outside band %d",who,(unsigned long long)(a-(u64)c.d),band); ev(0xB17,op,plane); return; }
  BigCube c=big_dims(seed,dt,il,0); big_alloc(c,at_end); Cube part=gen_cube(1+(int)r.below(5),1+(int)r.below(5),1+(int)r.below(5),dt,il,0,0,seed); u64 n=part.n(); for(u64 i=0;i<n;i++) elem_of(c.seed,i,c.es,(u8*)&part.d[i*c.es]); u64 top=std::min<u64>(c.n()-n,0x7fffffffull); u64 st=r.chance(2,3)? top-r.below(3): r.below(top); if(st*c.es>=(1ull<<31)) probe("big: beyond 2^31 bytes"); if(st*c.es>=(1ull<<32)) probe("big: beyond 2^32 bytes"); fault(F_BIG);
  hyper_mat m=as_hm(c),p=mk_cube(part,(int)r.below(2)); Out o=lib([&]{ hyper_mat_splicing(m,p,(int)st); }); if(!o.ret()) violate(std::string("C19:refused:")+who,"%s refuses position %llu of %llu",who,(unsigned long long)st,(unsigned long long)c.n()); u64 lo=(u64)(c.d+st*c.es),hi=lo+n*c.es; if(memcmp((void*)lo,part.d.data(),part.d.size())) violate(std::string("C19:wrong:")+who,"splicing %llu elements of %d bytes at %llu: the part is not there",(unsigned long long)n,c.es,(unsigned long long)st);
  for(u64 pg:touched(c.d,c.n()*c.es)) for(u64 a=pg;a<pg+4096;a++) if((a<lo||a>=hi)&&*(u8*)a) violate(std::string("C19:elsewhere:")+who,"%s at %llu changed the cube at byte %llu",who,(unsigned long long)st,(unsigned long long)(a-(u64)c.d)); ev(0xB18,op,n); }
// requests whose result cannot fit the simulated memory: never a smaller object, never a damaged source
static void refuse_big(const Step&s,Rng&r){ static const int A[][3]={{65536,65536,1},{65536,65537,1},{65537,65537,1},{1<<16,1<<15,1},{1<<16,1<<15,2},{46341,46341,1},{46341,46341,2},{2147483647,2,1},{2147483647,1,3},{1<<20,1<<11,1},{1<<20,1<<12,1},{1<<10,1<<11,1<<11},{1<<10,1<<11,1<<10},{1291,1291,1291},{1626,1626,1626},{1<<21,1<<21,1<<22},{1<<30,1<<30,16},{2147483647,2147483647,2147483647}}; int k=(int)r.below(18); int d[3]={A[k][0],A[k][1],A[k][2]}; for(int i=2;i>0;i--) std::swap(d[i],d[r.below(i+1)]); int dt=DTYPES[(u64)s.g(2)%9],il=(int)((u64)s.g(3)%3),es=dt_size(dt); char ils[4]; strcpy(ils,ILN[il]); int w=(int)(r.below(26)); const char*who="?"; Out o; bool null=false; fault(F_BIG);
  __int128 bytes=(__int128)d[0]*d[1]*d[2]*es; bool real=w>=6&&bytes<((__int128)8<<30)&&bytes>=((__int128)1<<31); if(w>=6&&!real) w=(int)r.below(6);
  BigCube c; c.s=d[0];c.l=d[1];c.b=d[2];c.dt=dt;c.il=il;c.es=es;c.seed=(u64)s.g(1); hyper_mat m=nullptr; simple_mat im=nullptr; void*hy=nullptr; std::string before;
  if(w>=6){ if(c.b>(1<<26)) std::swap(c.b,c.s); if(w>=14&&w<=19){ static const int F[]={1,1,4,4,12,1}; c.dt=F[w-14]; c.es=dt_size(c.dt); if(c.n()*c.es>(16ull<<30)||c.n()*c.es<(1ull<<30)) return; } if(w>=8&&w<=13){ static const int F[]={1,1,0,0,2,2}; c.il=F[w-8]; } big_alloc(c,1); m=as_hm(c); before.assign((char*)m,sizeof(HyperMat)); im=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); im->rows=c.l; im->cols=c.s; im->channels=c.b; im->data_type=c.dt; im->elem_size=c.es; im->data=c.d; }
  switch(w){
    case 0: who="create_hyper_mat"; o=lib([&]{ null=!create_hyper_mat(d[0],d[1],d[2],dt,ils); }); break;
    case 1: who="create_simple_mat"; o=lib([&]{ null=!create_simple_mat(d[0],d[1],dt,d[2]); }); break;
    case 2: { who="HyMat"; void*q=sim_malloc(hy_size()); o=lib([&]{ hy_construct5(q,d[0],d[1],d[2],dt,hy_fmt(il)); }); break; }
    case 3: { who="hmread_with_size"; fs_put("f",std::string(4096,'x')); char p[2]="f"; o=lib([&]{ null=!hmread_with_size(p,d[0],d[1],d[2],dt,ils); }); break; }
    case 4: { who="smread"; fs_put("f",std::string(4096,'x')); o=lib([&]{ null=!smread("f",d[0],d[1],dt,d[2]); }); break; }
    case 5: { who="hmread_with_hdr"; fs_put("f",std::string(4096,'x')); char t[300]; snprintf(t,300,"ENVI\nsamples = %d\nlines = %d\nbands = %d\ndata type = %d\nwavelength = unknown \ninterleave = %s\n",d[0],d[1],d[2],dt,ils); fs_put("f.hdr",t); char p[2]="f",h[6]="f.hdr"; o=lib([&]{ null=!hmread_with_hdr(p,h); }); break; }
    case 6: who="hyper_mat_copy"; o=lib([&]{ null=!hyper_mat_copy(m); }); break;
    case 7: who="simple_mat_copy"; o=lib([&]{ null=!simple_mat_copy(im); }); break;
    case 8: who="bil2bsq"; o=lib([&]{ null=!bil2bsq(m); }); break; case 9: who="bil2bip"; o=lib([&]{ null=!bil2bip(m); }); break; case 10: who="bsq2bil"; o=lib([&]{ null=!bsq2bil(m); }); break; case 11: who="bsq2bip"; o=lib([&]{ null=!bsq2bip(m); }); break; case 12: who="bip2bsq"; o=lib([&]{ null=!bip2bsq(m); }); break; case 13: who="bip2bil"; o=lib([&]{ null=!bip2bil(m); }); break;
    case 14: who="hyper_mat_uchar2short"; o=lib([&]{ null=!hyper_mat_uchar2short(m); }); break; case 15: who="hyper_mat_uchar2float"; o=lib([&]{ null=!hyper_mat_uchar2float(m); }); break; case 16: who="hyper_mat_float2int"; o=lib([&]{ null=!hyper_mat_float2int(m); }); break; case 17: who="hyper_mat_float2uchar"; o=lib([&]{ null=!hyper_mat_float2uchar(m); }); break; case 18: who="hyper_mat_ushort2float"; o=lib([&]{ null=!hyper_mat_ushort2float(m); }); break; case 19: who="hyper_mat_uchar2int"; o=lib([&]{ null=!hyper_mat_uchar2int(m); }); break;
    case 20: who="hyper_mat_rotate"; o=lib([&]{ null=!hyper_mat_rotate(m,90); }); break;
    case 21: case 22: { void*q=sim_malloc(hy_size()); hy=sim_malloc(hy_size()); who=w==21?"HyMat::copy":"HyMat::convertTo"; o=lib([&]{ hy_construct7(hy,c.s,c.l,c.b,c.dt,hy_fmt(c.il),c.d,c.w); if(w==21) hy_copy(hy,q); else hy_convert(hy,hy_fmt((c.il+1)%3)); }); break; }
    case 23: who="convert2"; o=lib([&]{ if(c.il==0) convert2bip(m); else if(c.il==1) convert2bsq(m); else convert2bil(m); }); break;
    case 24: who="sm_gray2rgb"; if(c.dt!=1) return; im->cols=(int)std::min<u64>((u64)c.s*c.b,0x7fffffff); im->channels=1; if((u64)im->rows*im->cols<(1u<<30)) return; o=lib([&]{ null=!sm_gray2rgb(im); }); break;
    default: { who="reshape_hypermat_2_simplemat"; if((u64)c.s*c.b>0x7fffffffull) return; o=lib([&]{ null=!reshape_hypermat_2_simplemat(m,c.l,c.s*c.b); }); break; } }
  { char pn[60]; snprintf(pn,60,"huge %s",who); probe(pn); } tracef("%s %d x %d x %d type %d -> %s",who,d[0],d[1],d[2],dt,o.ret()?null?"NULL":"returned":"stopped"); ev(0xB19,w,o.kind);
  if(o.ret()&&!null) violate(std::string("C19:small:")+who,"%s for %d x %d x %d elements of %d bytes returns although there is memory for a fraction only",who,d[0],d[1],d[2],dt_size(dt));
  if(!before.empty()&&memcmp(before.data(),m,sizeof(HyperMat))) violate(std::string("C19:source:")+who,"%s changed the description of its cube when memory ran out",who); }
// ------------------------------------------------------------------ whole cubes: the source repeats one stretch of memory, results are real
static const u64 PER=4093ull<<12;      // an odd number of pages, so that no position and position + 2^32 look alike
static u8* g_pat=nullptr; static int g_patfd=-1; static int g_pat_kind=-1;
enum PatKind { PK_BYTES, PK_FLOAT, PK_SHORT };
static u64 pat_word(u64 seed,u64 i){ return mix64(seed+i); }
static void pat_make(int kind,u64 seed){ g_patfd=memfd_create("pat",0); if(g_patfd<0||ftruncate(g_patfd,(off_t)PER)) { perror("memfd"); _exit(2);} g_pat=(u8*)mmap(nullptr,PER,PROT_READ|PROT_WRITE,MAP_SHARED,g_patfd,0); if(g_pat==MAP_FAILED){ perror("pat"); _exit(2);} g_pat_kind=kind;
  if(kind==PK_FLOAT) for(u64 i=0;i<PER/4;i++) ((float*)g_pat)[i]=(float)(pat_word(seed,i)%121); else for(u64 i=0;i<PER/8;i++) ((u64*)g_pat)[i]=pat_word(seed,i); }
// n bytes whose content is the repeated pattern; wr: private, so that it can be changed
static u8* pat_block(u64 n,bool wr){ u64 pg=(n+4095)&~4095ull; u8*p=BIG+g_big_used; if(g_big_used+pg+(1u<<20)>BIG_SZ){ dprintf(2,"big memory full\n"); _exit(95);} for(u64 o=0;o<pg;o+=PER){ u64 k=std::min(PER,pg-o); if(mmap(p+o,k,wr?PROT_READ|PROT_WRITE:PROT_READ,MAP_FIXED|(wr?MAP_PRIVATE|MAP_NORESERVE:MAP_SHARED),g_patfd,0)!=p+o){ perror("pattern"); _exit(2);} } g_big_used+=pg+(1u<<20); return p; }
struct BigBlk { u8*p; u64 n; bool live; }; static std::vector<BigBlk>*g_bb; static i64 g_big_left=0;
static void* bb_alloc(size_t n){ if((i64)n>g_big_left) return nullptr; g_big_left-=(i64)n; u64 k=(n+15)&~15ull; u8*p=big_block(k,1); g_bb->push_back({p,n,true}); ev(0xB20,n); return p; }
static int bb_free(void*p){ if((u64)((u8*)p-BIG)>=BIG_SZ) return 0; for(auto&b:*g_bb) if(b.p==p){ if(!b.live) violate("memory:double-free","free() of a huge block that is already free"); b.live=false; g_big_left+=(i64)b.n; u8*a=(u8*)((u64)p&~4095ull); u64 l=(b.p+b.n+15-a); l=(l+4095)&~4095ull; madvise(a,l,MADV_DONTNEED); mprotect(a,l,PROT_NONE); ev(0xB21,b.n); return 1; } violate("memory:invalid-free","free() of a pointer that is not the start of a block"); }
static bool bb_has(const void*p,u64 n){ for(auto&b:*g_bb) if(b.live&&(u8*)p>=b.p&&(u8*)p+n<=b.p+b.n) return true; return block_size(p)>=n; }
enum { W_LAYOUT, W_INPLACE, W_HYLAYOUT, W_HYCONVERT, W_TYPE, W_COPY, W_SMCOPY, W_HYCOPY, W_RESHAPE, W_RANGE2, W_HYRANGE2, W_SPLICE2, W_SAVE, W_HYSAVE, W_READSIZE, W_SMREAD, W_HYREADSIZE, W_BANDOUT, W_BANDIN, W_SMFLOAT, W_N };
static const char*const WN[W_N]={"layout conversion","convert in place","HyMat layout conversion","HyMat::convertTo","element type conversion","hyper_mat_copy","simple_mat_copy","HyMat::copy","reshape_hypermat_2_simplemat","hyper_mat_get_range (wide)","HyMat::range (wide)","hyper_mat_splicing (wide)","hmsave and hmread","HyMat::save and open","hmread_with_size","smread","HyMat::open with size","hyper_mat_2_simple_mat (wide)","simple_mat_2_hyper_mat (wide)","simple_mat_float2uchar"};
static u64 pat_at(u64 byte,int es){ u64 v=0; memcpy(&v,g_pat+byte%PER,es); return v; }
static u64 raw_at(const u8*p,int es){ u64 v=0; memcpy(&v,p,es); return v; }
// positions worth looking at in a block of n elements
static std::vector<u64> spots(u64 n,int es,Rng&r){ std::vector<u64> v; auto near=[&](u64 x){ for(i64 d=-64;d<=64;d++){ u64 y=x+(u64)d; if(y<n) v.push_back(y); } }; near(0); near(n-1); for(u64 k=1;k<=4;k++){ near((k<<31)); near((k<<31)/es); near((1ull<<32)*k/es); } for(int i=0;i<300000;i++) v.push_back(r.below(n)); return v; }
struct BigRes { const u8*d=nullptr; int s=0,l=0,b=0,dt=0,il=0; const float*w=nullptr; };
static BigRes res_hm(hyper_mat m){ BigRes r; if(!m) return r; r.d=(u8*)m->data; r.s=m->samples; r.l=m->lines; r.b=m->bands; r.dt=m->data_type; for(int i=0;i<3;i++) if(!memcmp(m->interleave,ILN[i],3)) r.il=i; r.w=(float*)m->wavelength; return r; }
static BigRes res_hy(void*q){ HyGlue g; hy_view(q,&g); BigRes r; r.d=(u8*)g.data; r.s=g.samples; r.l=g.lines; r.b=g.bands; r.dt=g.dataType; r.il=g.format; r.w=g.wl; return r; }
static BigRes res_sm(simple_mat m,int b){ BigRes r; if(!m) return r; r.d=(u8*)m->data; r.l=m->rows; r.s=m->cols; r.b=b; r.dt=m->data_type; return r; }
static i64 whole_cost(int w){ return w==W_TYPE?9: w==W_INPLACE||w==W_HYCONVERT||w==W_READSIZE||w==W_HYREADSIZE||w==W_SAVE||w==W_SMREAD? 9:5; }
static const int TC[12][2]={{1,2},{1,3},{1,4},{1,12},{4,1},{4,2},{4,3},{4,12},{4,12},{12,4},{4,1},{4,1}};
static void do_whole(const Step&s){ int w=(int)((u64)s.g(1)%W_N); u64 seed=(u64)s.g(2); Rng r(seed^0x3b16); int variant=(int)((u64)s.g(3)%64); const char*who=WN[w]; g_where=who; { char pn[60]; snprintf(pn,60,"whole %s",who); probe(pn); } alarm(600); step_limit(~0ull); big_init(); g_bb=new std::vector<BigBlk>; g_big_left=12ll<<30; g_big_alloc=bb_alloc; g_big_free=bb_free; fault(F_BIG);
  static const int D8[]={5,14,15}; int es,dt; bool files=w>=W_SAVE&&w<=W_HYREADSIZE; int tc=variant%12;
  if(w==W_TYPE||w==W_SMFLOAT){ dt=w==W_TYPE?TC[tc][0]:4; } else if(files) dt=DTYPES[variant%9]; else if((w<=W_HYCONVERT||w==W_RESHAPE)&&variant%4) dt=D8[variant%3]; else dt=variant%2?1:D8[variant%3]; int axis=(int)((u64)s.g(6)%4),cls=(int)((u64)s.g(7)%4); bool any=w<=W_HYCONVERT||(w>=W_COPY&&w<W_SAVE)||w==W_BANDOUT||w==W_BANDIN; if(any&&cls) dt=cls==1?1:D8[variant%3]; es=dt_size(dt);
  // 2^31 elements, or 2^31 or 2^32 bytes
  u64 want= w==W_TYPE||w==W_SMFLOAT||es==1? (1ull<<31)+r.below(1u<<20): es==8&&!(files||w==W_COPY||w==W_SMCOPY||w==W_HYCOPY||w==W_SPLICE2||w==W_BANDIN||w==W_BANDOUT)? ((variant&16?1ull<<32:1ull<<31)+r.below(1u<<22))/es: ((variant&16?1ull<<32:1ull<<31)+r.below(1u<<22))/es; if(w==W_READSIZE||w==W_HYREADSIZE||w==W_SAVE||w==W_HYSAVE||w==W_SMREAD) if(!(variant&32)) want=((1ull<<31)+r.below(1u<<20))/es+1; if(cls&&es==8) want=((cls==3?1ull<<32:1ull<<31)+r.below(1u<<22))/es;
  BigCube c; c.seed=seed|1; c.dt=dt; c.es=es; c.il=(int)((u64)s.g(4)%3); { u64 lim=axis==3&&w<=W_HYCONVERT?4:50,x=2+r.below(lim),y=2+r.below(lim),z=want/(x*y)+1; int*d[3]={&c.s,&c.l,&c.b}; int k=axis?axis-1:(int)r.below(files||w==W_BANDIN||w==W_BANDOUT?2:3); if(w==W_BANDIN||w==W_BANDOUT) k%=2; if(w==W_BANDIN||w==W_BANDOUT){ x=2+r.below(3); y=40000+r.below(3000); z=want/y+1; *d[k]=(int)y; *d[1-k]=(int)z; c.b=(int)x; c.il=0; } else { *d[k]=(int)z; *d[(k+1)%3]=(int)x; *d[(k+2)%3]=(int)y; } }
  if(w==W_SPLICE2||w==W_SMCOPY||w==W_RESHAPE) c.il=0; if(w==W_SMREAD||w==W_SMCOPY||w==W_SMFLOAT) { while(c.b>1000){ std::swap(c.b,c.s); if(c.b>1000) std::swap(c.b,c.l); } }
  pat_make(dt==4?PK_FLOAT:PK_BYTES,seed); u64 bytes=c.n()*es; bool priv=w==W_INPLACE||w==W_HYCONVERT; c.d=pat_block(bytes,priv); bool hasw=c.b<=(1<<20)&&r.chance(2,3); if(hasw){ c.w=(float*)big_block(4ull*c.b,1); for(int i=0;i<c.b;i++) c.w[i]=(float)(400+i%2000)*0.5f; } else if(w==W_INPLACE) c.w=(float*)big_block(4ull*c.b,1); // a cube the library made always has a list
  hyper_mat m=as_hm(c); std::string before((char*)m,sizeof(HyperMat)); BigRes got; Cube dummy; Out o; int il2=(int)((c.il+1+(s.a.size()>5?(u64)s.g(5)%2:variant%2))%3),dt2=dt; bool wl=true; void*hy=sim_malloc(hy_size()),*hq=sim_malloc(hy_size()); bool usehy=w==W_HYLAYOUT||w==W_HYCONVERT||w==W_HYCOPY||w==W_HYRANGE2||w==W_HYSAVE; if(usehy){ Out q=lib([&]{ hy_construct7(hy,c.s,c.l,c.b,c.dt,hy_fmt(c.il),c.d,c.w); }); if(!q.ret()) violate(std::string("C19:refused:")+who,"a HyMat over %d x %d x %d elements of %d bytes is refused",c.s,c.l,c.b,es); }
  auto needs=[&](const char*f){ if(!o.ret()||!got.d) violate(std::string("C19:refused:")+f,"%s refuses a cube of %d samples, %d lines, %d bands of %d bytes",f,c.s,c.l,c.b,es); };
  enum { M_SAME, M_LAYOUT, M_TYPE } mode=M_SAME; u64 off=0; int r0=0,c0=0,k0=0,r1=c.l,c1=c.s,k1=c.b; bool part=false; simple_mat im=nullptr;
  tracef("%s: %d samples, %d lines, %d bands, type %d, %s",who,c.s,c.l,c.b,dt,ILN[c.il]);
  switch(w){
    case W_LAYOUT: { mode=M_LAYOUT; static hyper_mat(*const F[3][3])(hyper_mat)={{nullptr,bsq2bil,bsq2bip},{bil2bsq,nullptr,bil2bip},{bip2bsq,bip2bil,nullptr}}; hyper_mat q=nullptr; o=lib([&]{ q=F[c.il][il2](m); }); got=res_hm(q); break; }
    case W_INPLACE: { mode=M_LAYOUT; o=lib([&]{ if(il2==0) convert2bsq(m); else if(il2==1) convert2bil(m); else convert2bip(m); }); got=res_hm(m); break; }
    case W_HYLAYOUT: { mode=M_LAYOUT; static const int K[3][3]={{-1,5,4},{0,-1,1},{3,2,-1}}; int k=K[c.il][il2]; o=lib([&]{ hy_conv(k,hy,hq); }); if(o.ret()) got=res_hy(hq); break; }
    case W_HYCONVERT: { mode=M_LAYOUT; o=lib([&]{ hy_convert(hy,hy_fmt(il2)); }); if(o.ret()) got=res_hy(hy); break; }
    case W_TYPE: { mode=M_TYPE; il2=c.il; dt2=TC[tc][1]; static hyper_mat(*const F[12])(hyper_mat)={hyper_mat_uchar2short,hyper_mat_uchar2int,hyper_mat_uchar2float,hyper_mat_uchar2ushort,hyper_mat_float2char,hyper_mat_float2short,hyper_mat_float2int,hyper_mat_float2ushort,hyper_mat_float2ushort,hyper_mat_ushort2float,hyper_mat_float2uchar,hyper_mat_float2uchar}; hyper_mat q=nullptr; o=lib([&]{ q=F[tc](m); }); got=res_hm(q); break; }
    case W_SMFLOAT: { mode=M_TYPE; dt2=1; il2=c.il=0; im=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); im->rows=c.l; im->cols=c.s; im->channels=c.b; im->data_type=4; im->elem_size=4; im->data=c.d; simple_mat q=nullptr; o=lib([&]{ q=simple_mat_float2uchar(im); }); got=res_sm(q,c.b); wl=false; break; }
    case W_COPY: { hyper_mat q=nullptr; o=lib([&]{ q=hyper_mat_copy(m); }); got=res_hm(q); il2=c.il; break; }
    case W_SMCOPY: { im=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); im->rows=c.l; im->cols=c.s; im->channels=c.b; im->data_type=dt; im->elem_size=es; im->data=c.d; simple_mat q=nullptr; o=lib([&]{ q=simple_mat_copy(im); }); got=res_sm(q,c.b); il2=0; wl=false; break; }
    case W_HYCOPY: { o=lib([&]{ hy_copy(hy,hq); }); if(o.ret()) got=res_hy(hq); il2=c.il; break; }
    case W_RESHAPE: { simple_mat q=nullptr; int rr=c.l,cc=c.s*c.b; if((u64)c.s*c.b>0x7fffffffull){ rr=c.l*c.b; cc=c.s; } if((u64)rr*cc!=c.n()) return; o=lib([&]{ q=reshape_hypermat_2_simplemat(m,rr,cc); }); got=res_sm(q,1); needs(who); if(got.l!=rr||got.s!=cc) violate(std::string("C19:shape:")+who,"%d rows, %d columns instead of %d, %d",got.l,got.s,rr,cc); got.l=c.l; got.s=c.s; got.b=c.b; il2=0; wl=false; break; }
    case W_RANGE2: case W_HYRANGE2: { int*lo[3]={&r0,&c0,&k0}; int big=c.l>c.s?(c.l>c.b?0:2):(c.s>c.b?1:2); *lo[big]=(int)r.below(1000); part=true; il2=c.il; hyper_mat q=nullptr; if(w==W_RANGE2){ o=lib([&]{ q=hyper_mat_get_range(m,r0,c0,k0,r1,c1,k1); }); got=res_hm(q); } else { o=lib([&]{ hy_range(hy,hq,r0,c0,k0,r1,c1,k1); }); if(o.ret()) got=res_hy(hq); } break; }
    case W_SPLICE2: { u64 tail=1+r.below(5000); off=std::min<u64>(r.below(5000),0x7fffffff); BigCube t=c; t.s=1;t.l=1; u64 tn=c.n()+off+tail; if(tn>0x7fffffffull){ t.s=(int)(tn/1000+1); t.b=1000; } else t.b=(int)tn; t.d=(u8*)bb_alloc(t.n()*es); t.w=nullptr; hyper_mat tm=as_hm(t); o=lib([&]{ hyper_mat_splicing(tm,m,(int)off); }); got=res_hm(tm); if(!o.ret()) needs(who); for(u64 i=0;i<off*es;i++) if(t.d[i]) violate(std::string("C19:elsewhere:")+who,"changed the cube before the position"); u64 e=(off+c.n())*es; for(u64 i=e;i<t.n()*es;i++) if(t.d[i]) violate(std::string("C19:elsewhere:")+who,"changed the cube behind the part"); got.d+=off*es; got.s=c.s; got.l=c.l; got.b=c.b; il2=c.il; wl=false; break; }
    case W_BANDOUT: { int band=1+(int)r.below(c.b); simple_mat q=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); q->rows=c.l;q->cols=c.s;q->channels=1;q->data_type=dt;q->elem_size=es;q->data=bb_alloc((u64)c.s*c.l*es); o=lib([&]{ hyper_mat_2_simple_mat(m,q,band); }); got=res_sm(q,1); k0=band-1; k1=band; part=true; il2=0; wl=false; break; }
    case W_BANDIN: { int band=1+(int)r.below(c.b); im=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); im->rows=c.l;im->cols=c.s;im->channels=1;im->data_type=dt;im->elem_size=es; u64 plane=(u64)c.s*c.l; im->data=c.d+plane*(band-1)*es; BigCube t=c; t.d=big_block(c.n()*es,1); hyper_mat tm=as_hm(t); o=lib([&]{ simple_mat_2_hyper_mat(tm,im,band); }); got=res_hm(tm); if(!o.ret()) needs(who); got.d+=plane*(band-1)*es; got.b=1; k0=band-1;k1=band; part=true; il2=0; wl=false; u64 lo=plane*(band-1)*es,hi=lo+plane*es; for(u64 i=lo>4096?lo-4096:0;i<lo;i++) if(t.d[i]) violate(std::string("C19:elsewhere:")+who,"changed the band before band %d",band); for(u64 i=hi;i<std::min(hi+4096,c.n()*es);i++) if(t.d[i]) violate(std::string("C19:elsewhere:")+who,"changed the band behind band %d",band); break; }
    default: { BigDisk b; b.on=1; b.pat=g_pat; b.period=PER; static const size_t CH[]={0x7ffff000,1u<<30,(1u<<20)+17,0x7ffff000}; b.chunk=CH[r.below(4)]; fs_big(b); wl=false; il2=c.il; char path[2]="f",hdr[6]="f.hdr";
      if(w==W_SAVE||w==W_HYSAVE){ bool full=r.chance(1,4); if(full){ i64 at=r.chance(1,2)? (i64)(bytes-1-r.below(1000)): (i64)r.below(bytes-1); fs_full_at(at); } o=lib([&]{ if(w==W_SAVE) hmsave(path,m); else hy_save(hy,path); }); fs_full_at(-1);
        if(full){ probe("whole: disk full during a huge save"); if(o.ret()) violate(std::string("C19:unreported:")+who,"a save of %llu bytes onto a disk that filled up is reported done",(unsigned long long)bytes); return; }
        if(!o.ret()) violate(std::string("C19:refused:")+who,"saving a cube of %d x %d x %d elements of %d bytes fails on a faultless disk",c.s,c.l,c.b,es); if(fs_size("f")!=bytes) violate(std::string("C19:file:")+who,"the file holds %llu bytes instead of %llu",(unsigned long long)fs_size("f"),(unsigned long long)bytes); if(fs_big_state().bad) violate(std::string("C19:file:")+who,"the file differs from the cube at byte %llu",(unsigned long long)fs_big_state().badpos); wl=hasw; }
      else fs_put_big("f",bytes);
      bool cut=r.chance(1,4); if(cut){ u64 x=r.chance(1,2)? bytes-1-r.below(100): r.below(bytes-1); if(r.chance(1,4)&&bytes>(1ull<<32)) x=bytes-(1ull<<32); fs_put_big("f",x); fault(F_TRUNCATE); }
      hyper_mat q=nullptr; simple_mat qi=nullptr; int e=0; o=lib([&]{ switch(w){ case W_SAVE: q=hmread_with_hdr(path,hdr); break; case W_HYSAVE: hy_construct(hq); hy_open(hq,path,hdr); break; case W_READSIZE: q=hmread_with_size(path,c.s,c.l,c.b,dt,ILN[c.il]); break; case W_SMREAD: qi=smread(path,c.l,c.s,dt,c.b); break; default: hy_construct(hq); hy_open_size(hq,path,c.s,c.l,c.b,dt,hy_fmt(c.il)); } });
      if(o.ret()){ if(w==W_HYSAVE||w==W_HYREADSIZE){ lib([&]{ e=hy_empty(hq); }); if(!e) got=res_hy(hq); } else if(w==W_SMREAD) { got=res_sm(qi,c.b); il2=0; } else got=res_hm(q); }
      if(cut){ probe("whole: huge file cut"); if(o.ret()&&got.d) violate(std::string("C19:short:")+who,"a file of %llu bytes is taken for a cube of %llu bytes",(unsigned long long)fs_size("f"),(unsigned long long)bytes); return; } } }
  needs(who); BigRes g=got; int es2=dt_size(dt2); int S2=c1-c0,L2=r1-r0,B2=k1-k0;
  if(g.s!=S2||g.l!=L2||g.b!=B2||g.dt!=dt2||(il2!=g.il)) violate(std::string("C19:shape:")+who,"result is %d x %d x %d of type %d, %s; %d x %d x %d of type %d, %s expected",g.s,g.l,g.b,g.dt,ILN[g.il],S2,L2,B2,dt2,ILN[il2]);
  u64 n=(u64)S2*L2*B2; if(w!=W_INPLACE&&w!=W_HYCONVERT&&w!=W_BANDIN&&!bb_has(g.d,n*es2)) violate(std::string("C19:room:")+who,"the result does not own the %llu bytes it describes",(unsigned long long)(n*es2));
  auto idx=[](int il,u64 S,u64 L,u64 B,u64 i,u64 j,u64 k){ return il==0?(k*L+i)*S+j: il==1?(i*B+k)*S+j:(i*S+j)*B+k; };
  for(u64 p:spots(n,es2,r)){ u64 i,j,k; if(il2==0){ j=p%S2; i=p/S2%L2; k=p/S2/L2; } else if(il2==1){ j=p%S2; k=p/S2%B2; i=p/S2/B2; } else { k=p%B2; j=p/B2%S2; i=p/B2/S2; } u64 q=(mode==M_SAME&&!part)? p: idx(c.il,c.s,c.l,c.b,i+r0,j+c0,k+k0); u64 x=pat_at(q*es,es),y=raw_at(g.d+p*es2,es2);
    if(mode==M_TYPE){ double v; if(dt==1) v=(double)(u8)x; else if(dt==12) v=(double)(unsigned short)x; else { float f; u32 t=(u32)x; memcpy(&f,&t,4); v=f; } u64 z=0; if(dt2==4){ float f=(float)v; u32 t; memcpy(&t,&f,4); z=t; } else { i64 t=(i64)v; memcpy(&z,&t,es2); } x=z; }
    if(x!=y) violate(std::string("C19:wrong:")+who,"element %llu of %llu (line %llu, sample %llu, band %llu) is %llx instead of %llx; cube of %d samples, %d lines, %d bands, type %d, %s to %s",(unsigned long long)p,(unsigned long long)n,(unsigned long long)i,(unsigned long long)j,(unsigned long long)k,(unsigned long long)y,(unsigned long long)x,c.s,c.l,c.b,dt,ILN[c.il],ILN[il2]); }
  if(wl&&hasw&&g.w) for(int i=0;i<B2;i++) if(g.w[i]!=c.w[i+k0]) violate(std::string("C19:wavelength:")+who,"wavelength %d is %g instead of %g",i,g.w[i],c.w[i+k0]);
  if(!priv&&memcmp(before.data(),m,sizeof(HyperMat))) violate(std::string("C19:source:")+who,"%s changed the description of its cube",who); ev(0xB30,w,n); }
// lives that use several gigabytes of real memory take turns; this changes when a run happens, not what happens in it
static std::atomic<i64>*const g_turn=(std::atomic<i64>*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
static i64 mem_budget(){ static i64 b=0; if(!b){ b=20; FILE*f=fopen("/proc/meminfo","r"); char l[200]; long kb; while(f&&fgets(l,200,f)) if(sscanf(l,"MemAvailable: %ld",&kb)==1) b=std::min<i64>(22,(i64)(kb*0.8/1048576)); if(f) fclose(f); } return b; }
struct Turn { i64 gb; explicit Turn(i64 n):gb(n){ for(;;){ i64 c=g_turn->load(); if(c==0||c+gb<=mem_budget()){ if(g_turn->compare_exchange_weak(c,c+gb)) return; } else usleep(20000); } } ~Turn(){ g_turn->fetch_sub(gb); } };
// what the whole runs go through in turn: kind, variant, layout, other layout, long dimension, size class (1: 2^31 elements, 2, 3: 2^31, 2^32 bytes)
static const std::vector<std::array<int,6>>& combos(int tier){ static std::vector<std::array<int,6>> v; if(!v.empty()) return v; auto add=[&](int w,int var,int il,int o,int ax,int cls){ v.push_back({w,var,il,o,ax,cls}); };
  for(int il=0;il<3;il++) for(int o=0;o<2;o++) for(int w:{W_LAYOUT,W_HYLAYOUT,W_HYCONVERT}){ bool slow=w==W_HYCONVERT&&!tier; add(w,-1,il,o,2,slow?2:1); add(w,-1,il,o,3,slow?3:1); if(!slow) add(w,-1,il,o,0,3); } for(int il=0;il<3;il++) add(W_INPLACE,-1,il,il%2,0,1+2*(il%2));
  for(int q=0;q<2;q++) for(int t=0;t<12;t++) if(t!=8&&t!=11) add(W_TYPE,t,t%3,0,q+1,0);
  for(int cls=1;cls<=3;cls++) for(int w:{W_COPY,W_SMCOPY,W_HYCOPY,W_RESHAPE,W_BANDOUT,W_BANDIN}) add(w,-1,cls%3,0,0,cls); for(int il=0;il<3;il++) for(int ax=1;ax<=3;ax++) for(int w:{W_RANGE2,W_HYRANGE2}) add(w,-1,il,0,ax,1+2*((ax+il)%2)); add(W_SPLICE2,-1,0,0,0,1); add(W_SPLICE2,-1,0,0,0,3);
  for(int w:{W_SAVE,W_HYSAVE,W_READSIZE,W_SMREAD,W_HYREADSIZE}) for(int q=0;q<4;q++) add(w,-1,q%3,0,0,0); add(W_SMFLOAT,-1,0,0,0,0); add(W_SMFLOAT,-1,0,0,0,0); return v; }
static Plan gen_c19(u64 seed,int tier){ Rng r(seed); Plan p; p.prop="C19"; p.seed=seed; env_common(p,r); if(g_run_index%8==0){ auto&v=combos(tier); auto&c=v[(g_run_index/8*61+g_run_index/8/v.size())%v.size()]; int var=(int)r.below(64); if(c[1]>=0) var=c[1]+12*(int)r.below(5); Step s; s.op="whole"; s.a={G_N,c[0],(i64)(r.next()>>8),var,c[2],c[3],c[4],c[5]}; p.steps.push_back(s); return p; }
  int n=(int)r.range(2,tier?8:5); for(int i=0;i<n;i++){ Step s; s.op="big"; i64 op=r.chance(1,3)?G_REFUSE:(i64)r.below(G_N); s.a={op,(i64)(r.next()>>8),(i64)r.below(9),(i64)r.below(3)}; p.steps.push_back(s); } return p; }
static void run_c19(const Plan&p){ for(size_t i=0;i<p.steps.size();i++){ fs_wipe(); const Step&s=p.steps[i]; auto go=[&]{ life([&]{ apply_env(p,i); if(s.op=="whole"){ IoEnv e=io_from_plan(p); e.rmode=e.wmode=0; e.bufmode=4; fs_config(e); do_whole(s); } else do_big(s); }); }; if(s.op=="whole"){ Turn t(whole_cost((int)((u64)s.g(1)%W_N))); go(); } else go(); } }
extern const Prop PC19={"C19",gen_c19,run_c19,1200,12000};
