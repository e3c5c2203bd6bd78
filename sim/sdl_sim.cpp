// Simulated window system: the SDL 1.2 calls the viewer uses.
#include "sim.hpp"
#include <SDL.h>
bool mem_ok(const void*p,size_t n);
#undef main
static SdlEnv E; static SdlLog L; static size_t g_next; static u64 g_ready; static SDL_Surface g_img,g_scr; static SDL_PixelFormat g_fi,g_fs; static SDL_Palette g_pal; static SDL_Color g_cols[256]; static bool g_init; static int g_idle_streak; static int g_dirty_want;
void sdl_config(const SdlEnv&e){ E=e; L=SdlLog(); g_next=0; g_init=false; g_idle_streak=0; g_dirty_want=1; g_ready=e.events.empty()?0:(u64)e.events[0].delay; }
SdlLog& sdl_log(){ return L; }
static void note(const char*s){ L.ev.push_back(s); ev(0x5D,mix64(std::hash<std::string>()(s))); tracef("SDL %s",s); if(!g_init&&strcmp(s,"init")&&strcmp(s,"geterror")) L.after_quit++; }
static int g_loop;
// the picture a paint shows, against the image the viewer was given
static bool shot_ok(){ if(E.expect.empty()) return true; int bpp=g_fi.BytesPerPixel,rows=E.rows,cols=E.cols; if(g_img.w!=cols||g_img.h!=rows) return false; size_t eb=E.expect.size()/((size_t)rows*cols);
  for(int y=0;y<rows;y++) if(!mem_ok((u8*)g_img.pixels+(size_t)y*g_img.pitch,(size_t)cols*bpp)) return false;
  if(E.rgb&&bpp>1&&!(g_fi.Rmask&&g_fi.Gmask&&g_fi.Bmask)) return false;
  for(int y=0;y<rows;y++) for(int x=0;x<cols;x++){ const u8*a=(u8*)g_img.pixels+(size_t)y*g_img.pitch+(size_t)x*bpp,*b=(const u8*)E.expect.data()+((size_t)y*cols+x)*eb; if(!E.rgb||(size_t)bpp==eb){ if((size_t)bpp!=eb||memcmp(a,b,eb)) return false; if(!(E.rgb&&bpp>1)) continue; }
    u32 px=0; memcpy(&px,a,bpp>4?4:bpp); u32 mk[3]={g_fi.Rmask,g_fi.Gmask,g_fi.Bmask}; for(int k=0;k<3;k++){ if(!mk[k]) return false; u32 v=(px&mk[k])>>__builtin_ctz(mk[k]); if(v!=b[eb==1?0:k]) return false; } }
  return true; }
extern "C" {
int SDL_Init(Uint32 f){ LibPause p; if(E.fail_init){ fault(F_SDL_INIT); L.ev.push_back("init-fails"); return -1;} if(!(f&SDL_INIT_VIDEO)) L.order_bad=1; g_init=true; L.inits++; note("init"); return 0; }
int SDL_InitSubSystem(Uint32 f){ return SDL_Init(f); }
void SDL_Quit(void){ LibPause p; note("quit"); L.quits++; if(g_init&&L.screens) { L.screens=0; } g_init=false; }
void SDL_QuitSubSystem(Uint32){ SDL_Quit(); }
char* SDL_GetError(void){ static char e[]="simulated"; return e; }
SDL_Surface* SDL_CreateRGBSurfaceFrom(void*px,int w,int h,int depth,int pitch,Uint32 r,Uint32 g,Uint32 b,Uint32 a){ LibPause p; note("surface"); if(E.fail_surface||(depth!=8&&depth!=16&&depth!=24&&depth!=32)){ if(E.fail_surface) fault(F_SDL_SURFACE); else L.ev.push_back("surface-unsupported"); return nullptr; }
  (void)a; memset(&g_img,0,sizeof g_img); memset(&g_fi,0,sizeof g_fi); g_img.format=&g_fi; g_fi.BitsPerPixel=depth; g_fi.BytesPerPixel=(depth+7)/8; g_fi.Rmask=r; g_fi.Gmask=g; g_fi.Bmask=b; if(depth==8){ g_pal.ncolors=256; g_pal.colors=g_cols; g_fi.palette=&g_pal; } g_img.w=w; g_img.h=h; g_img.pitch=(Uint16)pitch; g_img.pixels=px; L.pixels=px; L.w=w; L.h=h; L.pitch=pitch; L.depth=depth; L.images_live++; return &g_img; }
SDL_Surface* SDL_CreateRGBSurface(Uint32,int,int,int,Uint32,Uint32,Uint32,Uint32){ return nullptr; }
int SDL_VideoModeOK(int,int,int,Uint32){ LibPause p; note("videomodeok"); if(E.videook==0) fault(F_SDL_VIDEOOK0); if(E.videook==8) fault(F_SDL_DEPTH8); return E.videook; }
int SDL_SetAlpha(SDL_Surface*,Uint32,Uint8){ LibPause p; note("setalpha"); return 0; }
SDL_Surface* SDL_SetVideoMode(int w,int h,int depth,Uint32){ LibPause p; note("setvideomode"); if(E.fail_video){ fault(F_SDL_VIDEO); return nullptr; } memset(&g_scr,0,sizeof g_scr); memset(&g_fs,0,sizeof g_fs); g_scr.format=&g_fs; g_fs.BitsPerPixel=depth; g_fs.BytesPerPixel=(depth+7)/8; g_scr.w=w; g_scr.h=h; g_scr.pixels=&g_scr; L.screens=1; return &g_scr; }
int SDL_SetColors(SDL_Surface*,SDL_Color*,int,int n){ LibPause p; note("setcolors"); L.pal=n; return 1; }
int SDL_SetPalette(SDL_Surface*,int,SDL_Color*,int,int n){ LibPause p; note("setcolors"); L.pal=n; return 1; }
int SDL_UpperBlit(SDL_Surface*s,SDL_Rect*sr,SDL_Surface*d,SDL_Rect*dr){ LibPause p; note("blit"); L.blits++; if(s==&g_img&&L.images_live>0&&!L.shot_bad&&!shot_ok()) L.shot_bad=L.blits; if(s!=&g_img||d!=&g_scr||L.images_live<1) { L.order_bad=2; return -1; } int x=sr?sr->x:0,y=sr?sr->y:0,w=sr?sr->w:g_img.w,h=sr?sr->h:g_img.h; if(x||y||w!=g_img.w||h!=g_img.h||(dr&&(dr->x||dr->y))) L.blit_full=0; g_dirty_want=2; return 0; }
void SDL_UpdateRect(SDL_Surface*s,Sint32 x,Sint32 y,Uint32 w,Uint32 h){ LibPause p; note("update"); L.updates++; if(s!=&g_scr) L.order_bad=3; if((x||y)||((w||h)&&((int)w!=g_scr.w||(int)h!=g_scr.h))) L.blit_full=0; if(g_dirty_want==2) g_dirty_want=0; }
int SDL_Flip(SDL_Surface*s){ SDL_UpdateRect(s,0,0,0,0); return 0; }
static bool deliver(SDL_Event*e){ if(g_next>=E.events.size()) { memset(e,0,sizeof *e); e->type=SDL_QUIT; L.polled_events++; L.ev.push_back("ev:final-quit"); fault(F_SDL_EVENT); g_next=E.events.size()+1; return true; }
  const SdlEvent&x=E.events[g_next]; { u64 h=mix64((u64)x.b*31+(u64)x.delay*7+g_next); static const u8 pat[4]={0,0xff,0x5a,0}; if(h%4<3) memset(e,pat[h%4],sizeof *e); else { Rng q(h); for(size_t i=0;i<sizeof *e;i++) ((u8*)e)[i]=(u8)q.next(); } } switch(x.type){ case 0: e->type=SDL_QUIT; break; case 1: e->type=SDL_KEYUP; e->key.keysym.sym=(SDLKey)x.a; e->key.state=SDL_RELEASED; break; case 2: e->type=SDL_KEYDOWN; e->key.keysym.sym=(SDLKey)x.a; e->key.state=SDL_PRESSED; break; case 3: e->type=SDL_MOUSEMOTION; e->motion.state=(Uint8)x.a; e->motion.x=(Uint16)x.b; break; case 4: e->type=SDL_VIDEORESIZE; break; case 5: e->type=SDL_MOUSEBUTTONDOWN; e->button.button=(Uint8)x.a; break; case 6: e->type=SDL_MOUSEBUTTONUP; break; case 7: e->type=SDL_ACTIVEEVENT; break; case 8: e->type=SDL_VIDEOEXPOSE; break; case 9: e->type=SDL_USEREVENT; break; default: e->type=SDL_SYSWMEVENT; }
  char b[40]; snprintf(b,40,"ev:%d:%d",x.type,x.a); L.ev.push_back(b); fault(F_SDL_EVENT); L.polled_events++; if(L.time_ms>g_ready&&L.time_ms-g_ready>L.max_wait) L.max_wait=L.time_ms-g_ready; g_next++; if(g_next<E.events.size()) g_ready=L.time_ms+(u64)E.events[g_next].delay; else g_ready=L.time_ms+50; return true; }
int SDL_PollEvent(SDL_Event*e){ LibPause p; L.polls++; if(g_dirty_want) { if(L.polls==1) L.painted_before_wait=0; else L.dirty_unpainted++; } else if(L.polls==1) L.painted_before_wait=1;
  if(g_next>E.events.size()){ L.ev.push_back("poll-after-final-quit"); if(++g_loop>5) violate("C14:ignores-quit","the viewer keeps polling after the final quit event"); deliver(e); return 1; }
  if(L.time_ms>=g_ready){ g_idle_streak=0; if(!e) return 1; deliver(e); return 1; }
  g_idle_streak++; if(g_idle_streak>1) L.spins++; if(g_idle_streak>200) violate("C14:spins","the viewer polls %d times in a row without waiting",g_idle_streak); L.ev.push_back("idle"); return 0; }
int SDL_WaitEvent(SDL_Event*e){ LibPause p; if(L.polls==0) L.painted_before_wait=!g_dirty_want; L.polls++; if(g_next>E.events.size()){ if(++g_loop>5) violate("C14:ignores-quit","the viewer keeps waiting after the final quit event"); } if(L.time_ms<g_ready) L.time_ms=g_ready; deliver(e); return 1; }
int SDL_WaitEventTimeout_unused; 
void SDL_Delay(Uint32 ms){ LibPause p; L.delays++; if(ms) g_idle_streak=0; L.time_ms+=ms?ms:1; S->simtime_us+=1000ull*ms; fault(F_SDL_IDLE); if(L.delays>200000) violate("C14:no-return","the viewer never returns"); }
void SDL_PumpEvents(void){}
Uint32 SDL_GetTicks(void){ return (Uint32)L.time_ms; }
void SDL_WM_SetCaption(const char*,const char*){}
int SDL_LockSurface(SDL_Surface*){ return 0; } void SDL_UnlockSurface(SDL_Surface*){}
void SDL_FreeSurface(SDL_Surface*s){ LibPause p; if(!s) return; if(s==&g_scr){ L.ev.push_back("free-screen"); L.screen_freed++; return; } note("free-image"); if(s!=&g_img||L.images_live<1) L.double_free++; else { L.images_live--; L.image_freed++; } }
}
