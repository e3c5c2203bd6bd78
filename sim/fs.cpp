// Simulated disk: an in-memory file table that survives lives, reached by interposing the C library's file calls.
#include "sim.hpp"
#include <dlfcn.h>
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <algorithm>
#include <map>
static IoEnv g_io; static Rng g_ir(1);
static FsArm g_arm; static bool g_armed=false; static i64 g_crash=-1; static int g_torn=0; static i64 g_free=-1;
struct Handle { bool open; int file; u64 pos; bool rd,wr,app; FILE*fp; int fd; char*buf; u32 lastw; };
static Handle H[40]; static std::map<FILE*,int>* g_fps;
enum { FDBASE=5000 };
static BigDisk g_bd; void fs_big(const BigDisk&b){ g_bd=b; } BigDisk& fs_big_state(){ return g_bd; }
// does a stretch of a huge file agree with the repeated pattern?
static bool bd_same(u64 pos,const u8*p,size_t n){ while(n){ u64 o=pos%g_bd.period; size_t k=(size_t)std::min<u64>(n,g_bd.period-o); if(memcmp(p,g_bd.pat+o,k)){ size_t i=0; while(p[i]==g_bd.pat[o+i]) i++; if(!g_bd.bad){ g_bd.bad=1; g_bd.badpos=pos+i; } return false; } p+=k; pos+=k; n-=k; } return true; }
void fs_config(const IoEnv&e){ g_io=e; g_ir=Rng(e.seed^0xd15c); }
IoEnv io_from_plan(const Plan&p){ IoEnv e; e.seed=(u64)p.e("ioseed",1); e.rmode=(int)(((u64)p.e("iormode"))%4); e.wmode=(int)(((u64)p.e("iowmode"))%4); e.bufmode=(int)(((u64)p.e("iobuf"))%5); return e; }
void fs_arm(const FsArm&a){ g_arm=a; g_armed=true; } void fs_disarm(){ g_armed=false; g_crash=-1; g_free=-1; }
void fs_crash_at(i64 n,int t){ g_crash=n; g_torn=t; } void fs_full_at(i64 b){ g_free=b; }
u64 fs_events(int k){ return S->fsev[k]; } u64 fs_mut_events(){ return S->fsmut; } u64 fs_faults_fired(){ return S->fsfired; }
void fs_reset_counters(){ memset(S->fsev,0,sizeof S->fsev); S->fsmut=0; S->fsfired=0; }
int fs_open_handles(){ int n=0; for(auto&h:H) n+=h.open; return n; }
void fs_new_life(){ for(int i=0;i<NFILES;i++) if(S->files[i].used==2) S->files[i].used=0; }
static int find(const std::string&n){ for(int i=0;i<NFILES;i++) if(S->files[i].used==1&&n==S->files[i].name) return i; return -1; }
static std::string norm(const char*p){ std::string s(p); while(s.compare(0,2,"./")==0) s=s.substr(2); std::string o; for(char c:s){ if(c=='/'&&!o.empty()&&o.back()=='/') continue; o+=c; } return o; }
static int create(const std::string&n){ for(int i=0;i<NFILES;i++) if(!S->files[i].used){ SimFile&f=S->files[i]; if(n.size()>=sizeof f.name) return -2; f.used=1; f.big=0; f.size=0; f.writes=0; strcpy(f.name,n.c_str()); return i;} dprintf(2,"simulator: file table full\n"); _exit(95); }
void fs_wipe(){ for(auto&f:S->files) f.used=0; }
bool fs_has(const std::string&n){ return find(n)>=0; }
std::string fs_get(const std::string&n){ int i=find(n); return i<0?std::string():std::string((char*)S->content[i],S->files[i].size); }
void fs_put_big(const std::string&n,u64 size){ int i=find(n); if(i<0) i=create(n); S->files[i].size=size; S->files[i].big=1; } u64 fs_size(const std::string&n){ int i=find(n); return i<0?0:S->files[i].size; }
void fs_put(const std::string&n,const std::string&c){ int i=find(n); if(i<0) i=create(n); if(c.size()>FILECAP){ dprintf(2,"file too big\n"); _exit(95);} memcpy(S->content[i],c.data(),c.size()); S->files[i].size=c.size(); }
void fs_del(const std::string&n){ int i=find(n); if(i>=0) S->files[i].used=0; }
std::map<std::string,std::string> fs_all(){ std::map<std::string,std::string> m; for(int i=0;i<NFILES;i++) if(S->files[i].used==1) m[S->files[i].name]=std::string((char*)S->content[i],S->files[i].size); return m; }
// ---------------------------------------------------------------- fault points
static bool hit(int kind){ S->fsev[kind]++; S->simtime_us+= kind==E_READ||kind==E_WRITE? 80:30; if(!g_armed||g_arm.kind!=kind) return false; i64 n=(i64)S->fsev[kind]; if(n==g_arm.nth||(g_arm.sticky&&n>g_arm.nth)){ S->fsfired++; return true;} return false; }
static bool mut_crash(){ S->fsmut++; return g_crash>=0&&(i64)S->fsmut==g_crash; }
[[noreturn]] static void die(){ tracef("CRASH before disk event %llu",(unsigned long long)S->fsmut); fault(F_CRASH); S->fsfired++; g_in_lib=0; life_end(L_CRASH); }
static int open_errno(int how){ static const int e[]={EACCES,EMFILE,EIO,ENOENT,ENFILE,EINTR}; return e[(u64)how%6]; }
static i64 sim_open(const char*path,bool rd,bool wr,bool creat,bool trunc,bool app,bool excl){ // returns handle or -errno
  std::string n=norm(path); ev(0xF0,mix64(std::hash<std::string>()(n)),wr);
  int f=find(n);
  if(hit(wr||creat?E_OPEN_W:E_OPEN_R)){ fault(F_OPEN_FAIL); tracef("open(%s) fails",n.c_str()); return -open_errno(g_arm.how); }
  if(n.empty()||n.compare(0,8,"missing/")==0) return -ENOENT;
  if(f<0&&!creat) return -ENOENT; if(f>=0&&excl) return -EEXIST;
  if(f<0||trunc){ if(mut_crash()) die(); if(f<0){ f=create(n); if(f<0) return -ENAMETOOLONG; } else { if(S->files[f].size) fault(F_STALE_FILE); S->files[f].size=0; S->files[f].big=0; } tracef("create/truncate %s",n.c_str()); }
  for(int i=0;i<40;i++) if(!H[i].open){ H[i]=Handle{true,f,0,rd,wr,app,nullptr,FDBASE+i,nullptr,0}; return i; }
  return -EMFILE;
}
static i64 dev_read(Handle&h,void*p,size_t n){
  if(!h.rd){ errno=EBADF; return -1; }
  SimFile&f=S->files[h.file]; size_t left=h.pos<f.size? f.size-h.pos:0; size_t m=std::min(n,left);
  if(hit(E_READ)){ bool intr=g_arm.how%3==1&&(i64)S->fsev[E_READ]<g_arm.nth+4; // interrupted calls may be retried for ever: a lasting fault turns into EIO
    if(intr){ fault(F_READ_EINTR); errno=EINTR; } else { fault(F_READ_EIO); errno=EIO; } int e=errno; tracef("read of %s fails (%s)",f.name,intr?"EINTR":"EIO"); errno=e; return -1; }
  if(m>1){ size_t o=m; switch(g_io.rmode){ case 1: m=1+g_ir.below(m); break; case 2: m=std::min<size_t>(m,m>400?61:1+g_ir.below(7)); break; case 3: if(g_ir.chance(1,3)) m=1+g_ir.below(m); if(g_ir.chance(1,8)){ S->simtime_us+=2000000; fault(F_DEV_STALL);} break; } if(g_bd.on&&m>g_bd.chunk){ m=g_bd.chunk; } if(m<o) fault(F_READ_SHORT); }
  if(f.big){ u8*d=(u8*)p; u64 pos=h.pos; size_t l=m; while(l){ u64 o=pos%g_bd.period; size_t k=(size_t)std::min<u64>(l,g_bd.period-o); memcpy(d,g_bd.pat+o,k); d+=k; pos+=k; l-=k; } } else memcpy(p,S->content[h.file]+h.pos,m); h.pos+=m; ev(0xF1,m); return (i64)m;
}
static i64 dev_write1(Handle&h,const u8*p,size_t n){ // one device write; may be partial
  SimFile&f=S->files[h.file]; if(!h.wr){ errno=EBADF; return -1; } if(h.app) h.pos=f.size;
  size_t m=n; if(m>1){ size_t o=m; switch(g_io.wmode){ case 1: m=1+g_ir.below(m); break; case 2: m=std::min<size_t>(m,m>400?67:1+g_ir.below(7)); break; case 3: if(g_ir.chance(1,3)) m=1+g_ir.below(m); if(g_ir.chance(1,8)){ S->simtime_us+=2000000; fault(F_DEV_STALL);} break; } if(g_bd.on&&m>g_bd.chunk){ m=g_bd.chunk; } if(m<o) fault(F_WRITE_SHORT); }
  bool crash=mut_crash(); size_t part=m;
  if(crash){ part=(size_t)((u64)m*(u64)g_torn/1000); if(part) fault(F_TORN_WRITE); }
  else if(hit(E_WRITE)){ // error after an optional prefix
    part=(size_t)((u64)m*(u64)g_arm.frac/1000); if(part>=m) part=m-1; }
  bool err=!crash&&part!=m; bool full=false;
  if(g_free>=0&&!crash){ size_t grow=h.pos+part>f.size? h.pos+part-f.size:0; if((i64)grow>g_free){ part-= (size_t)((i64)grow-g_free); full=true; fault(F_DISK_FULL); S->fsfired++; } }
  if(h.pos+part>FILECAP&&!f.big){ if(!g_bd.on){ errno=EFBIG; return -1; } f.big=1; bd_same(0,S->content[h.file],f.size); }
  if(f.big){ if(h.pos!=f.size&&!g_bd.bad){ g_bd.bad=1; g_bd.badpos=h.pos; } bd_same(h.pos,p,part); }
  else if(h.pos>f.size) memset(S->content[h.file]+f.size,0,h.pos-f.size);
  u64 old=f.size; if(!f.big) memcpy(S->content[h.file]+h.pos,p,part); h.pos+=part; f.size=std::max<u64>(f.size,h.pos); f.writes++; if(part) h.lastw=(u32)part; if(g_free>=0) g_free-=f.size-old; ev(0xF2,part);
  tracef("write %zu/%zu to %s",part,n,f.name);
  if(crash) die();
  if(full||err){ if(full||g_arm.how%2){ errno=ENOSPC; if(!full) fault(F_WRITE_ENOSPC);} else { errno=EIO; fault(F_WRITE_EIO);} tracef("write to %s fails after %zu",f.name,part); return part? (i64)part: -1; }
  return (i64)part;
}
static int g_wr_err[40];
static ssize_t ck_read(void*c,char*b,size_t n){ LibPause lp; return (ssize_t)dev_read(H[(i64)c],b,n); }
static ssize_t ck_write(void*c,const char*b,size_t n){ LibPause lp; Handle&h=H[(i64)c]; size_t done=0; bool partial=false;
  while(done<n){ size_t want=n-done; i64 w; u64 fired=S->fsfired; w=dev_write1(h,(const u8*)b+done,want); if(w<=0){ return (ssize_t)done; } done+=(size_t)w; if(S->fsfired!=fired){ partial=true; if(done<n) return (ssize_t)done; } }
  (void)partial; return (ssize_t)done; }
static int ck_seek(void*c,off64_t*o,int wh){ LibPause lp; Handle&h=H[(i64)c]; if(hit(E_SEEK)){ fault(F_SEEK_FAIL); errno=EIO; return -1; } i64 base=wh==SEEK_SET?0: wh==SEEK_CUR?(i64)h.pos:(i64)S->files[h.file].size; i64 p=base+*o; if(p<0){ errno=EINVAL; return -1;} h.pos=(u64)p; *o=p; return 0; }
static int do_close(int i){ Handle&h=H[i]; h.open=false; ev(0xF3); if(hit(E_CLOSE)){ fault(F_CLOSE_FAIL); if(h.wr&&h.lastw){ SimFile&f=S->files[h.file]; u32 lost=(u32)std::max<u64>(1,(u64)h.lastw*(u64)(1000-g_arm.frac)/1000); f.size-=std::min<u64>(f.size,lost); } tracef("close of %s fails",S->files[h.file].name); errno=EIO; return -1; } return 0; }
static int ck_close(void*c){ LibPause lp; Handle&h=H[(i64)c]; if(g_fps&&h.fp) g_fps->erase(h.fp); return do_close((int)(i64)c); }
static FILE* sim_fopen(const char*path,const char*mode){
  LibPause lp; if(!path||!mode){ errno=EINVAL; return nullptr; } bool plus=strchr(mode,'+'),x=strchr(mode,'x'); bool rd=mode[0]=='r'||plus, wr=mode[0]!='r'||plus; bool cr=mode[0]!='r';
  if(mode[0]!='r'&&mode[0]!='w'&&mode[0]!='a'){ errno=EINVAL; return nullptr; }
  i64 h=sim_open(path,rd,wr,cr,mode[0]=='w',mode[0]=='a',x); if(h<0){ errno=(int)-h; return nullptr; }
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE*fp=fopencookie((void*)h,mode,io); if(!fp) _exit(94);
  H[h].fp=fp; if(!g_fps) g_fps=new std::map<FILE*,int>; (*g_fps)[fp]=(int)h;
  static const size_t BS[]={4096,0,16,61,65536}; size_t b=BS[g_io.bufmode%5]; static char bufs[40][65536]; if(b==0) setvbuf(fp,nullptr,_IONBF,0); else setvbuf(fp,bufs[h],_IOFBF,b);
  return fp;
}
void fs_flush_all(){ if(!g_fps) return; std::vector<FILE*> v; for(auto&k:*g_fps) v.push_back(k.first); // as exit() does, in the order of opening
  std::sort(v.begin(),v.end(),[](FILE*a,FILE*b){ return (*g_fps)[a]<(*g_fps)[b];}); for(FILE*f:v) fflush(f); }
template<class T> static T real(const char*n){ void*p=dlsym(RTLD_NEXT,n); return (T)p; }
#define REAL(ret,name,...) static ret(*r)(__VA_ARGS__)=real<ret(*)(__VA_ARGS__)>(#name)
static int fd_of(int fd){ return fd>=FDBASE&&fd<FDBASE+40&&H[fd-FDBASE].open? fd-FDBASE:-1; }
static int sim_openfd(const char*p,int fl){ LibPause lp; int acc=fl&O_ACCMODE; i64 h=sim_open(p,acc!=O_WRONLY,acc!=O_RDONLY,fl&O_CREAT,fl&O_TRUNC,fl&O_APPEND,(fl&O_CREAT)&&(fl&O_EXCL)); if(h<0){ errno=(int)-h; return -1;} return FDBASE+(int)h; }
static void fill_stat(int f,struct stat*st){ memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=S->files[f].size; st->st_nlink=1; st->st_blksize=4096; }
extern "C" {
FILE* fopen(const char*p,const char*m){ if(g_in_lib) return sim_fopen(p,m); REAL(FILE*,fopen,const char*,const char*); return r(p,m);} 
FILE* fopen64(const char*p,const char*m){ if(g_in_lib) return sim_fopen(p,m); REAL(FILE*,fopen64,const char*,const char*); return r(p,m);} 
int fileno(FILE*f) noexcept { if(g_fps){ auto it=g_fps->find(f); if(it!=g_fps->end()) return H[it->second].fd; } REAL(int,fileno,FILE*); return r(f);} 
ssize_t read(int fd,void*b,size_t n){ int h=fd_of(fd); if(h<0) return syscall(SYS_read,fd,b,n); LibPause lp; return dev_read(H[h],b,n);} 
ssize_t write(int fd,const void*b,size_t n){ int h=fd_of(fd); if(h<0) return syscall(SYS_write,fd,b,n); LibPause lp; return dev_write1(H[h],(const u8*)b,n);} 
ssize_t writev(int fd,const struct iovec*v,int c){ return syscall(SYS_writev,fd,v,c);} 
off_t lseek(int fd,off_t o,int w) noexcept { int h=fd_of(fd); if(h<0) return syscall(SYS_lseek,fd,o,w); off64_t x=o; return ck_seek((void*)(i64)h,&x,w)<0?-1:x;} 
off64_t lseek64(int fd,off64_t o,int w) noexcept { return lseek(fd,o,w);} 
int open(const char*p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); if(g_in_lib) return sim_openfd(p,fl); return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m);} 
int open64(const char*p,int fl,...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); if(g_in_lib) return sim_openfd(p,fl); return (int)syscall(SYS_openat,AT_FDCWD,p,fl,m);} 
int creat(const char*p,mode_t m){ if(g_in_lib) return sim_openfd(p,O_WRONLY|O_CREAT|O_TRUNC); return (int)syscall(SYS_openat,AT_FDCWD,p,O_WRONLY|O_CREAT|O_TRUNC,m);} 
int close(int fd){ int h=fd_of(fd); if(h<0) return (int)syscall(SYS_close,fd); LibPause lp; return do_close(h);} 
FILE* fdopen(int fd,const char*m) noexcept { int h=fd_of(fd); if(h<0){ REAL(FILE*,fdopen,int,const char*); return r(fd,m);} LibPause lp; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE*fp=fopencookie((void*)(i64)h,m,io); H[h].fp=fp; if(!g_fps) g_fps=new std::map<FILE*,int>; (*g_fps)[fp]=h; return fp;} 
static int sim_unlink(const char*p){ LibPause lp; std::string n=norm(p); int f=find(n); if(hit(E_UNLINK)){ fault(F_UNLINK_FAIL); tracef("unlink(%s) fails",n.c_str()); errno=EACCES; return -1;} if(f<0){ errno=ENOENT; return -1;} if(mut_crash()) die(); bool busy=false; for(auto&h:H) if(h.open&&h.file==f) busy=true; S->files[f].used=busy?2:0; ev(0xF4); tracef("unlink %s",n.c_str()); return 0; }
int unlink(const char*p) noexcept { if(!g_in_lib){ return (int)syscall(SYS_unlinkat,AT_FDCWD,p,0);} return sim_unlink(p);} 
int remove(const char*p) noexcept { if(!g_in_lib){ return (int)syscall(SYS_unlinkat,AT_FDCWD,p,0);} return sim_unlink(p);} 
int rename(const char*a,const char*b) noexcept { if(!g_in_lib) return (int)syscall(SYS_renameat,AT_FDCWD,a,AT_FDCWD,b); LibPause lp; std::string x=norm(a),y=norm(b); int f=find(x); if(hit(E_RENAME)){ fault(F_RENAME_FAIL); errno=EACCES; return -1;} if(f<0){ errno=ENOENT; return -1;} if(mut_crash()) die(); int g=find(y); if(g==f) return 0; if(g>=0) S->files[g].used=2; strcpy(S->files[f].name,y.c_str()); ev(0xF5); tracef("rename %s -> %s",x.c_str(),y.c_str()); return 0; }
int stat(const char*p,struct stat*st) noexcept { if(!g_in_lib) return (int)syscall(SYS_newfstatat,AT_FDCWD,p,st,0); LibPause lp; int f=find(norm(p)); if(f<0){ errno=ENOENT; return -1;} fill_stat(f,st); return 0; }
int lstat(const char*p,struct stat*st) noexcept { if(!g_in_lib) return (int)syscall(SYS_newfstatat,AT_FDCWD,p,st,AT_SYMLINK_NOFOLLOW); return stat(p,st); }
int fstat(int fd,struct stat*st) noexcept { int h=fd_of(fd); if(h<0) return (int)syscall(SYS_fstat,fd,st); fill_stat(H[h].file,st); return 0; }
int stat64(const char*p,struct stat64*st) noexcept { return stat(p,(struct stat*)st);} 
int fstat64(int fd,struct stat64*st) noexcept { return fstat(fd,(struct stat*)st);} 
int access(const char*p,int m) noexcept { if(!g_in_lib) return (int)syscall(SYS_faccessat,AT_FDCWD,p,m); LibPause lp; if(find(norm(p))<0){ errno=ENOENT; return -1;} return 0; }
int ftruncate(int fd,off_t n) noexcept { int h=fd_of(fd); if(h<0) return (int)syscall(SYS_ftruncate,fd,n); LibPause lp; if(mut_crash()) die(); SimFile&f=S->files[H[h].file]; if((u64)n>FILECAP){ errno=EFBIG; return -1;} if((u64)n>f.size) memset(S->content[H[h].file]+f.size,0,n-f.size); f.size=(u32)n; return 0; }
int truncate(const char*p,off_t n) noexcept { if(!g_in_lib) return (int)syscall(SYS_truncate,p,n); LibPause lp; int x=find(norm(p)); if(x<0){ errno=ENOENT; return -1;} if(mut_crash()) die(); SimFile&f=S->files[x]; if((u64)n>f.size) memset(S->content[x]+f.size,0,n-f.size); f.size=(u32)n; return 0; }
int fsync(int fd){ int h=fd_of(fd); if(h<0) return (int)syscall(SYS_fsync,fd); return 0; }
int fdatasync(int fd){ int h=fd_of(fd); if(h<0) return (int)syscall(SYS_fdatasync,fd); return 0; }
void __real_sync_unused(void){}
}
