#include "model.hpp"
#include <algorithm>
#include <cstdarg>
int dt_size(int dt){ switch(dt){ case 1:return 1; case 2: case 12: return 2; case 3: case 4: case 13: return 4; case 5: case 14: case 15: return 8;} return 0; }
std::string desc(const Cube&c){ char b[120]; snprintf(b,120,"%dx%dx%d type %d %s",c.s,c.l,c.b,c.dt,c.il>=0&&c.il<3?ILN[c.il]:"?"); return b; }
std::string desc(const Img&c){ char b[120]; snprintf(b,120,"%dx%d type %d channels %d",c.r,c.c,c.dt,c.ch); return b; }
bool Cube::same(const Cube&o,std::string*why,bool wl) const { char b[200]; auto no=[&](const char*s){ if(why)*why=s; return false; };
  if(s!=o.s||l!=o.l||this->b!=o.b){ if(why){ snprintf(b,200,"dimensions %s against %s",desc(*this).c_str(),desc(o).c_str()); *why=b; } return false; }
  if(dt!=o.dt) return no("element type"); if(il!=o.il) return no("layout");
  if(d!=o.d){ size_t i=0; while(i<d.size()&&i<o.d.size()&&d[i]==o.d[i]) i++; if(why){ snprintf(b,200,"data byte %zu of %zu: %02x against %02x",i,d.size(),i<d.size()?(u8)d[i]:0,i<o.d.size()?(u8)o.d[i]:0); *why=b;} return false; }
  if(wl&&w.size()==o.w.size()){ for(size_t i=0;i<w.size();i++) if(memcmp(&w[i],&o.w[i],4)){ if(why){ snprintf(b,200,"wavelength %zu: %.9g against %.9g",i,w[i],o.w[i]); *why=b;} return false; } } else if(wl) return no("number of wavelengths");
  return true; }
bool Img::same(const Img&o,std::string*why) const { char b[200]; if(r!=o.r||c!=o.c||dt!=o.dt||ch!=o.ch){ if(why){ snprintf(b,200,"%s against %s",desc(*this).c_str(),desc(o).c_str()); *why=b;} return false; }
  if(d!=o.d){ size_t i=0; while(i<d.size()&&i<o.d.size()&&d[i]==o.d[i]) i++; if(why){ snprintf(b,200,"data byte %zu of %zu: %02x against %02x",i,d.size(),i<d.size()?(u8)d[i]:0,i<o.d.size()?(u8)o.d[i]:0); *why=b;} return false; } return true; }
template<class T> static void put(std::string&d,size_t i,T v){ memcpy(&d[i*sizeof(T)],&v,sizeof(T)); }
void fill_values(std::string&d,int dt,int mode,Rng&r){ size_t es=dt_size(dt),n=d.size()/es; mode=((mode%6)+6)%6; static const double SC[8]={1/256.,1/256.,1/256.,1,1/65536.,1000,1/256.,1}; static const double SP[12]={-9999,-10000,65535,65536,32767,-32768,10001,1e9,-1,0.5,1e-6,1e12}; double sc=1; bool spec=false,wide=false; if(mode==V_RANDOM){ Rng q=r; u64 h=mix64(q.next()); sc=SC[h&7]; spec=(h>>3)%4==0; wide=(h>>5)&1; }
  for(size_t i=0;i<n;i++){ double f; switch(mode){ case V_RANDOM: f=(double)r.range(-1000000,1000000)*(dt==4||dt==5?sc:1); if(spec&&(dt==4||dt==5)&&r.chance(1,6)) f=SP[r.below(12)]; break; case V_SMALL: f=(double)r.range(0,9); break; case V_RAMP: f=(double)(i%251); break; case V_CONST: f=7; break; case V_EXTREME: f=r.chance(1,2)?0:255; break; default: f=(double)(r.below(4)*60+5); }
    switch(dt){ case 1: { u8 v=mode==V_RANDOM?(u8)r.next():(u8)f; put(d,i,v); break; } case 2: put(d,i,(short)(mode==V_RANDOM?r.next():(i64)f)); break; case 12: put(d,i,(unsigned short)(mode==V_RANDOM?r.next():(i64)f)); break; case 3: put(d,i,wide&&mode==V_RANDOM?(int)r.next():(int)(i64)f); break; case 13: put(d,i,wide&&mode==V_RANDOM?(u32)r.next():(u32)(i64)(mode==V_RANDOM?std::fabs(f):f)); break; case 4: put(d,i,(float)f); break; case 5: put(d,i,(double)f); break; case 14: put(d,i,(long)f*(mode==V_RANDOM?3000001l:1l)); break; case 15: put(d,i,(unsigned long)(i64)std::fabs(f)*(mode==V_RANDOM?3000001ul:1ul)); break; } } }
Cube gen_cube(int s,int l,int b,int dt,int il,int vmode,int wmode,u64 seed){ Cube c; c.s=s;c.l=l;c.b=b;c.dt=dt;c.il=il; Rng r(seed); c.d.resize(c.bytes()); fill_values(c.d,dt,vmode,r); c.w.assign(b,0.f); c.hasw=wmode!=0;
  for(int k=0;k<b&&wmode;k++){ float f; switch(wmode%6){ case 1: f=400.0f+2.5f*k+(float)r.below(1000)/1000.0f; break; case 2: f=(float)((double)r.range(-99999999,99999999)/1000.0); break; case 3: f=(float)(1e9*(1+r.below(9)))+k; break; case 4: f=-(float)r.below(100000)/7.0f; break; case 5: f=(float)r.below(5); break; default: f=(float)((double)r.below(1u<<30)*1e22); } c.w[k]=f; } return c; }
Img gen_img(int rr,int c,int dt,int ch,int vmode,u64 seed){ Img m; m.r=rr;m.c=c;m.dt=dt;m.ch=ch; Rng r(seed); m.d.resize(m.bytes()); fill_values(m.d,dt,vmode,r); return m; }
Cube relayout(const Cube&c,int il){ Cube o=c; o.il=il; for(int i=0;i<c.l;i++) for(int j=0;j<c.s;j++) for(int k=0;k<c.b;k++) memcpy(&o.d[o.idx(i,j,k,il)*c.es()],c.at(i,j,k),c.es()); return o; }
float wl_text(float f){ char b[400]; snprintf(b,sizeof b,"%f",f); return (float)atof(b); }
bool mem_ok(const void*p,size_t n){ if(!p) return false; if(!in_arena(p)) return true; u8*st;size_t sz; if(!block_of(p,&st,&sz)) return false; return (u8*)p+n<=st+sz; }
hyper_mat mk_cube(const Cube&c,int placement){ hyper_mat m=nullptr;
  if(placement==0){ char il[4]; strcpy(il,ILN[c.il]); Out o=lib([&]{ m=create_hyper_mat_with_data(c.s,c.l,c.b,c.dt,il,(void*)c.d.data(),c.hasw?(float*)c.w.data():nullptr); }); if(!o.ret()||!m) violate("setup:create","creating a %s cube failed",desc(c).c_str());
    if(!mem_ok(m,sizeof(HyperMat))||!mem_ok(m->data,c.bytes())||!mem_ok(m->wavelength,4*c.b)) violate("create:bounds","a created %s cube does not own its data",desc(c).c_str());
    mem_guard_object(m,sizeof(HyperMat),m->data,c.bytes(),m->wavelength,4*c.b); return m; }
  m=(hyper_mat)sim_malloc(sizeof(HyperMat)); m->samples=c.s; m->lines=c.l; m->bands=c.b; m->data_type=c.dt; memcpy(m->interleave,ILN[c.il],3); m->data=sim_malloc(c.bytes()); memcpy(m->data,c.d.data(),c.bytes()); m->wavelength=(float*)sim_malloc(4*c.b); for(int k=0;k<c.b;k++) m->wavelength[k]=c.hasw?c.w[k]:0.f; return m; }
simple_mat mk_img(const Img&c,int placement){ simple_mat m=nullptr; if(placement==0){ Out o=lib([&]{ m=create_simple_mat(c.r,c.c,c.dt,c.ch); }); if(!o.ret()||!m) violate("setup:create","creating a %s image failed",desc(c).c_str()); if(!mem_ok(m,sizeof(SIMPLE_MAT))||!mem_ok(m->data,c.bytes())) violate("create:bounds","a created %s image does not own its data",desc(c).c_str()); mem_guard_object(m,sizeof(SIMPLE_MAT),m->data,c.bytes(),nullptr,0); memcpy(m->data,c.d.data(),c.bytes()); return m; }
  m=(simple_mat)sim_malloc(sizeof(SIMPLE_MAT)); m->rows=c.r; m->cols=c.c; m->data_type=c.dt; m->channels=c.ch; m->elem_size=dt_size(c.dt); m->data=sim_malloc(c.bytes()); memcpy(m->data,c.d.data(),c.bytes()); return m; }
void free_cube(hyper_mat m,int placement){ if(!m) return; if(placement==0) lib([&]{ delete_hyper_mat(m); }); else { sim_free(m->data); sim_free(m->wavelength); sim_free(m); } }
void free_img(simple_mat m,int placement){ if(!m) return; if(placement==0) lib([&]{ delete_simple_mat(m); }); else { sim_free(m->data); sim_free(m); } }
Cube rd_cube(hyper_mat m,const char*who){ Cube c; if(!mem_ok(m,sizeof(HyperMat))) violate(std::string("object:")+who,"%s returned a pointer that is not an object",who);
  c.s=m->samples; c.l=m->lines; c.b=m->bands; c.dt=m->data_type; c.il=-1; for(int i=0;i<3;i++) if(!memcmp(m->interleave,ILN[i],3)) c.il=i;
  if(c.s<=0||c.l<=0||c.b<=0||!dt_size(c.dt)||c.il<0) violate(std::string("object:")+who,"%s returned an object with dimensions %d x %d x %d, type %d, layout %.3s",who,c.s,c.l,c.b,c.dt,m->interleave);
  if((double)c.s*c.l*c.b*dt_size(c.dt)>1e8||!mem_ok(m->data,c.bytes())) violate(std::string("object:")+who,"%s returned an object of %s whose data area is too small",who,desc(c).c_str());
  if(m->wavelength&&!mem_ok(m->wavelength,4*(size_t)c.b)) violate(std::string("object:")+who,"%s returned an object of %s whose wavelength list is too small",who,desc(c).c_str());
  c.d.assign((char*)m->data,c.bytes()); c.w.assign(c.b,0.f); if(m->wavelength) memcpy(c.w.data(),m->wavelength,4*(size_t)c.b); c.hasw=true; return c; }
Img rd_img(simple_mat m,const char*who){ Img c; if(!mem_ok(m,sizeof(SIMPLE_MAT))) violate(std::string("object:")+who,"%s returned a pointer that is not an object",who);
  c.r=m->rows;c.c=m->cols;c.dt=m->data_type;c.ch=m->channels; if(c.r<=0||c.c<=0||c.ch<=0||!dt_size(c.dt)||m->elem_size!=dt_size(c.dt)) violate(std::string("object:")+who,"%s returned an image with %d rows, %d cols, type %d, channels %d, element size %d",who,c.r,c.c,c.dt,c.ch,m->elem_size);
  if((double)c.r*c.c*c.ch*dt_size(c.dt)>1e8||!mem_ok(m->data,c.bytes())) violate(std::string("object:")+who,"%s returned an image of %s whose data area is too small",who,desc(c).c_str());
  c.d.assign((char*)m->data,c.bytes()); return c; }
void put_cube(const Cube&c){ blob_u(c.s);blob_u(c.l);blob_u(c.b);blob_u(c.dt);blob_u((u64)(i64)c.il);blob_u(c.hasw);blob_str(c.d);blob_u(c.w.size());blob_put(c.w.data(),4*c.w.size()); }
Cube get_cube(BlobReader&b){ Cube c; c.s=(int)b.u();c.l=(int)b.u();c.b=(int)b.u();c.dt=(int)b.u();c.il=(int)b.i();c.hasw=b.u();c.d=b.str();c.w.resize(b.u());b.get(c.w.data(),4*c.w.size()); return c; }
void put_img(const Img&c){ blob_u(c.r);blob_u(c.c);blob_u(c.dt);blob_u(c.ch);blob_str(c.d);} Img get_img(BlobReader&b){ Img c; c.r=(int)b.u();c.c=(int)b.u();c.dt=(int)b.u();c.ch=(int)b.u();c.d=b.str(); return c; }
// ------------------------------------------------------------------ bitmaps
static u32 g32(const std::string&f,size_t o){ u32 v=0; memcpy(&v,f.data()+o,4); return v; } static u32 g16(const std::string&f,size_t o){ unsigned short v=0; memcpy(&v,f.data()+o,2); return v; }
bool bmp_decode(const std::string&f,Img&out,std::string&why){ auto no=[&](const char*s){ why=s; return false; };
  if(f.size()<54) return no("shorter than its headers"); if(f[0]!='B'||f[1]!='M') return no("no BM signature"); u32 off=g32(f,10),hs=g32(f,14); int w=(int)g32(f,18),h=(int)g32(f,22); u32 planes=g16(f,26),bc=g16(f,28),comp=g32(f,30);
  if(g32(f,2)!=f.size()) return no("file size field"); if(hs<40) return no("info header size"); if(w<=0||h<=0) return no("dimensions"); if(planes!=1) return no("planes"); if(comp) return no("compressed"); if(bc!=24) return no("not 24-bit"); if(off<54) return no("pixel offset");
  size_t row=((size_t)w*bc+31)/32*4; if(off+row*h>f.size()) return no("pixel data cut"); if(off+row*h!=f.size()) return no("extra bytes after the pixel data"); u32 si=g32(f,34); if(si!=0&&si!=row*h) return no("image size field");
  out.r=h; out.c=w; out.dt=1; out.ch=3; out.d.resize((size_t)w*h*3); for(int i=0;i<h;i++) for(int j=0;j<w;j++) for(int k=0;k<3;k++) out.d[((size_t)i*w+j)*3+k]=f[off+(size_t)(h-1-i)*row+j*3+(2-k)]; return true; }
static void p32(std::string&s,u32 v){ s.append((char*)&v,4);} static void p16(std::string&s,unsigned v){ unsigned short x=(unsigned short)v; s.append((char*)&x,2);} 
std::string bmp_encode(const Img&m,int variant,Rng&r){ int bc=24,gap=0,hs=40; bool topdown=false; u32 comp=0; int ncol=0; switch(variant){ case 1: gap=4*(1+(int)r.below(20)); break; case 2: bc=8; ncol=256; break; case 3: bc=8; ncol=(int)r.range(2,40); break; case 4: bc=32; break; case 5: topdown=true; break; case 6: bc=8; ncol=256; comp=1; break; case 7: hs=108; break; case 8: case 9: bc=8; hs=variant==8?108:124; ncol=r.chance(1,2)?256:(int)r.range(2,40); break; }
  std::vector<std::string> pal; std::string px; size_t row=((size_t)m.c*bc+31)/32*4;
  if(bc==8){ for(int i=0;i<ncol;i++){ std::string e; for(int k=0;k<3;k++) e+=(char)r.next(); e+='\0'; pal.push_back(e);} }
  for(int i=0;i<m.r;i++){ int src=topdown?i:m.r-1-i; std::string line; for(int j=0;j<m.c;j++){ const char*q=&m.d[((size_t)src*m.c+j)*3]; if(bc==8){ // caller gives palette indices in the first channel
        line+=(char)((u8)q[0]%ncol); } else { line+=q[2]; line+=q[1]; line+=q[0]; if(bc==32) line+='\0'; } } while(line.size()<row) line+=(char)r.next(); px+=line; }
  std::string f="BM"; u32 off=14+hs+4*ncol+gap; p32(f,off+(u32)px.size()); p16(f,0);p16(f,0); p32(f,off); p32(f,hs); p32(f,m.c); p32(f,topdown?(u32)-m.r:(u32)m.r); p16(f,1); p16(f,bc); p32(f,comp); p32(f,r.chance(1,2)?0:(u32)px.size()); p32(f,2835);p32(f,2835); p32(f,ncol!=256?ncol:0); p32(f,0); while((int)f.size()<14+hs) f+='\0'; for(auto&e:pal) f+=e; for(int i=0;i<gap;i++) f+=(char)r.next(); f+=px; return f; }
// ------------------------------------------------------------------ ENVI header
std::string hdr_text(const Cube&c,int style,Rng&r){ char b[64]; std::string t="ENVI\n"; if(style&1) t+="description = {\n  sample data }\n"; auto kv=[&](const char*k,long v){ snprintf(b,64,"%s = %ld\n",k,v); t+=b; };
  kv("samples",c.s); kv("lines",c.l); kv("bands",c.b); if(style&2) { kv("header offset",0); t+="file type = ENVI Standard\n"; } kv("data type",c.dt); t+=std::string("interleave = ")+ILN[c.il]+"\n"; if(style&4) kv("byte order",0); if(style&8) t+="sensor type = Unknown\ndefault bands = {1,1,1}\n";
  if(c.hasw){ t+="wavelength = {"; if(!(style&16)) t+=" "; t+="\n"; for(int k=0;k<c.b;k++){ snprintf(b,64,(style&32)?" %.4f":"%f",c.w[k]); t+=b; if(k+1<c.b) t+=","; if((style&64)&&k%3==2&&k+1<c.b) t+="\n"; } t+="}"; if(style&128) t+="\n"; } (void)r; return t; }
// A header as other programs write it: fields in any order among unknown ones, any spacing, lists over many lines, comments.
std::string hdr_foreign(Cube&c,long offset,int byteorder,Rng&r){ char b[160]; int odd=(int)r.below(4); bool crlf=r.chance(1,5),order=r.chance(2,3); std::string nl=crlf?"\r\n":"\n"; std::vector<std::string> fs; auto P=[&](int n){ return odd&&r.chance((u64)odd,(u64)n); };
  auto ws=[&](int n){ std::string s; while(n-->0) s+=P(3)?'\t':' '; return s; }; auto eq=[&]{ return P(4)?"="+ws((int)r.below(4)): P(4)? ws((int)r.range(1,14))+"="+ws((int)r.below(4)): std::string(" = "); }; auto ind=[&]{ return P(8)?ws((int)r.range(1,5)):std::string(); };
  auto num=[&](const char*k,long v){ snprintf(b,160,P(12)?"%06ld":"%ld",v); std::string t=ind()+k; t+=eq(); t+=b; if(P(6)) t+=ws((int)r.range(1,3)); return t; };
  auto word=[&](size_t n){ std::string s; static const char cs[]="abcdefghijklmnopqrstuvwxyz ABCXYZ_-.:/0123456789"; while(s.size()<n) s+=cs[r.below(sizeof cs-1)]; return s; };
  static const char*trap[]={"samples = 7","lines = 3","bands = 2","data type = 1","interleave = bip","byte order = 1","header offset = 64","wavelength = 5","samples=9","ENVI"};
  fs.push_back(num("samples",c.s)); fs.push_back(num("lines",c.l)); fs.push_back(num("bands",c.b)); fs.push_back(num("data type",c.dt)); if(offset||r.chance(2,3)) fs.push_back(num("header offset",offset)); if(byteorder!=2) fs.push_back(num("byte order",byteorder));
  { std::string v=ILN[c.il]; int u=(int)r.below(4); for(size_t i=0;i<3;i++) if(u==1||(u==2&&r.chance(1,2))||(u==3&&i==0)) v[i]=(char)toupper(v[i]); fs.push_back(ind()+"interleave"+eq()+v+(P(6)?ws(1):"")); }
  if(c.hasw){ std::string t=ind()+"wavelength"+eq()+"{"; int f=(int)r.below(6); static const char*fm[]={"%.6f","%.3f","%g","%.8e","%.0f","%.9g"}; int per=(int)r.range(1,12); for(int k=0;k<c.b;k++){ if(k==0?P(2):k%per==0&&odd) t+=nl; t+=P(3)?ws((int)r.range(1,4)):""; snprintf(b,160,fm[f],(double)c.w[k]); t+=b; c.w[k]=(float)strtod(b,nullptr); if(P(6)) t+=ws(1); if(k+1<c.b) t+=","; } if(P(2)) t+=nl; t+="}"; if(P(5)) t+=ws(2); fs.push_back(t); }
  int extra=(int)r.below(odd?9:4); for(int i=0;i<extra;i++){ std::string t; switch(r.below(odd?17:6)){ case 0: t="file type = ENVI Standard"; break; case 1: t="sensor type"+eq()+word(r.below(20)); break; case 2: t="wavelength units"+eq()+"Nanometers"; break; case 3: t="default bands"+eq()+"{1,1,1}"; break; case 4: t="data ignore value = -9999"; break; case 5: t="description = {"+nl+"  "+word(r.below(60))+" }"; break;
      case 6: t="map info"+eq()+"{UTM, 1.000, 1.000, 50000.0, 4000000.0, 30.0, 30.0, 50, North, WGS-84, units=Meters}"; break; case 7: { t="band names"+eq()+"{"; for(int k=0;k<c.b&&k<40;k++){ if(r.chance(1,3)) t+=nl; t+=r.chance(1,3)?trap[r.below(10)]:word(r.below(15)); if(k+1<c.b) t+=","; } t+="}"; break; } case 8: { t="fwhm"+eq()+"{"; for(int k=0;k<c.b;k++){ snprintf(b,160," %.2f",k*0.5+1); t+=b; if(k+1<c.b) t+=k%5==4?","+nl:","; } t+="}"; break; }
      case 9: t="description = {"+nl+trap[r.below(10)]+nl+trap[r.below(10)]+nl+word(20)+"}"; break; case 10: t=";"+ws((int)r.below(2))+trap[r.below(7)]; break; case 11: t=""; break; case 12: { static const char*k[]={"samples per scan","lines per frame","bands used","x start","y start","data type name","interleave mode","byte order mark","header offset bytes","major frame offsets","wavelength scale","subsamples","baselines","xbands","reflectance scale factor"}; t=std::string(k[r.below(15)])+eq()+std::to_string(r.below(100)); break; }
      case 13: t="history"+eq()+"{"+word((size_t)r.range(9000,21000))+"}"; break; case 14: { t="spectra names"+eq()+"{"; for(int k=0;k<400;k++){ t+=word(6+r.below(30))+","+nl; if(r.chance(1,9)) t+=std::string(trap[r.below(10)])+nl; } t+="x}"; break; } case 15: t="comment"+eq()+word(9970+r.below(60)); if(r.chance(1,2)){ t="notes"+eq(); size_t n=(size_t)r.range(1,2)*9999+(r.chance(3,4)?0:r.below(3)-1)-t.size(); t+=word(n)+trap[r.below(10)]; } break; default: t="processing"+eq()+word(r.below(30))+" a="+word(r.below(9))+"=b"; break; }
    fs.push_back(t); }
  if(!order) { for(size_t i=fs.size();i>1;i--) std::swap(fs[i-1],fs[r.below(i)]); } else if(P(3)) std::rotate(fs.begin(),fs.begin()+(i64)r.below(fs.size()),fs.end());
  std::string t="ENVI"+nl; for(size_t i=0;i<fs.size();i++){ t+=fs[i]; if(i+1<fs.size()||r.chance(2,3)) t+=nl; } return t; }
bool hdr_parse(const std::string&t,Cube&o,std::string&why){ auto no=[&](const char*s){ why=s; return false; }; if(t.compare(0,5,"ENVI\n")) return no("no ENVI line"); std::map<std::string,std::string> kv; size_t p=5;
  while(p<t.size()){ size_t e=t.find('\n',p); std::string line=t.substr(p,(e==std::string::npos?t.size():e)-p); size_t next=e==std::string::npos?t.size():e+1; size_t q=line.find('='); if(q==std::string::npos){ if(line.find_first_not_of(" \t\r")!=std::string::npos) return no("line without ="); p=next; continue; }
    std::string k=line.substr(0,q),v=line.substr(q+1); while(!k.empty()&&k.back()==' ') k.pop_back(); size_t s=v.find_first_not_of(' '); v=s==std::string::npos?"":v.substr(s); if(!v.empty()&&v[0]=='{'){ size_t z=t.find('}',p); if(z==std::string::npos) return no("unterminated list"); size_t st=t.find('{',p); v=t.substr(st,z-st+1); next=t.find('\n',z); next=next==std::string::npos?t.size():next+1; }
    while(!v.empty()&&(v.back()==' '||v.back()=='\r')) v.pop_back(); if(kv.count(k)) return no("repeated field"); kv[k]=v; p=next; }
  auto in=[&](const char*k,int&x){ auto it=kv.find(k); if(it==kv.end()) return false; char*e; long v=strtol(it->second.c_str(),&e,10); if(*e||it->second.empty()) return false; x=(int)v; return true; };
  if(!in("samples",o.s)) return no("samples"); if(!in("lines",o.l)) return no("lines"); if(!in("bands",o.b)) return no("bands"); if(!in("data type",o.dt)) return no("data type"); o.il=-1; for(int i=0;i<3;i++) if(kv["interleave"]==ILN[i]) o.il=i; if(o.il<0) return no("interleave");
  std::string w=kv["wavelength"]; o.w.clear(); if(w=="unknown"||w.empty()){ o.hasw=false; return true; } if(w[0]!='{') return no("wavelength"); o.hasw=true; std::string item; for(size_t i=1;i<w.size();i++){ if(w[i]==','||w[i]=='}'){ char*e; float f=(float)strtod(item.c_str(),&e); while(*e==' '||*e=='\n') e++; if(*e||item.empty()) return no("wavelength value"); o.w.push_back(f); item.clear(); } else item+=w[i]; } if((int)o.w.size()!=o.b) return no("number of wavelengths"); return true; }
// ------------------------------------------------------------------ environment of a run
void env_common(Plan&p,Rng&r){ p.env["mseed"]=(i64)(r.next()>>2); p.env["mfill"]=(i64)r.below(6); p.env["mplace"]=(i64)r.below(4); p.env["mmove"]=(i64)r.below(2); p.env["mstack"]=(i64)r.below(4); p.env["ioseed"]=(i64)(r.next()>>2); p.env["iormode"]=(i64)r.below(4); p.env["iowmode"]=(i64)r.below(4); p.env["iobuf"]=(i64)r.below(5); }
void apply_env(const Plan&p,u64 salt){ mem_config(mem_from_plan(p,salt)); fs_config(io_from_plan(p)); }
