// Happens-before race detector for the cooperative threads of a harness: every access to heap memory by a thread is compared with
// the last ones of the others. Used by both runtimes, so that a race found by the exploration is confirmed on the ordinary build.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <sys/mman.h>
namespace race {
typedef uint64_t u64; typedef uint32_t u32;
static u32 const T=3; static u64 const LIM=256ull<<20;
struct Cell{ u32 w,r[T]; };  // w: clock*4+thread+1
static Cell* cells; static u32 clk[T][T]; struct VC{ u32 c[T]; }; static std::map<u64,VC>* syncs; static u64 base; static bool atomic;
static void begin(u64 arena){ base=arena; cells=(Cell*)mmap(nullptr,LIM*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(cells==MAP_FAILED) cells=nullptr; syncs=new std::map<u64,VC>; memset(clk,0,sizeof clk); for(u32 i=0;i<T;++i) clk[i][i]=1; }
static void acquire(int t,u64 o){ if(t<0||!syncs) return; VC& v=(*syncs)[o]; for(u32 i=0;i<T;++i) if(v.c[i]>clk[t][i]) clk[t][i]=v.c[i]; }
static void release(int t,u64 o){ if(t<0||!syncs) return; VC& v=(*syncs)[o]; for(u32 i=0;i<T;++i) if(clk[t][i]>v.c[i]) v.c[i]=clk[t][i]; ++clk[t][t]; }
// true if the access races with an earlier one
static bool access(int t,u64 a,u64 n,bool write){
  if(!cells||atomic||a<base||a+n>base+LIM) return false; bool bad=false;
  for(u64 i=0;i<n;++i){ Cell& c=cells[a-base+i]; if(c.w){ u32 u=(c.w&3)-1; if(u!=(u32)t&&(c.w>>2)>clk[t][u]) bad=true; }
    if(write){ for(u32 u=0;u<T;++u) if(u!=(u32)t&&c.r[u]>clk[t][u]) bad=true; c.w=clk[t][t]*4+t+1; } else c.r[t]=clk[t][t]; }
  return bad; }
static char const* const MSG="two threads use the same memory at once, one of them writing it, with nothing to order them";
}
