// Symbolic runtime: term DAG, shadow memory, path exploration, Z3.  Linked with the instrumented harness + library.
#include "race.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <new>
#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef unsigned __int128 u128;
typedef u64 E;

extern "C" { u64 __symx_args[64]; u64 __symx_ret[16]; u64 __symx_callee;
void sym_main(); }
struct Mod{ u8* flags; char const* names; u64 nfn; u64 const* cg; u64 ncg; };
static Mod g_mods[512]; static unsigned g_nmods=0; // filled by static initialisers
extern "C" void symx_register(u8* fl,char const* nm,u64 n,u64 const* cg,u64 ncg){ g_mods[g_nmods++]={fl,nm,n,cg,ncg}; }

static bool g_on=false;          // inside a symbolic run
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ arena
static char* const ARENA=(char*)0x100000000000ull; static u64 const ARENA_SZ=4ull<<30; static u64 g_brk=0; static bool g_arena=false;
struct Hdr{ u64 size; u64 magic; };
static u64 const LIVE=0x51AB1EA11FE0001ull, DEAD=0xDEADDEADDEAD0002ull;
[[noreturn]] void fail(char const* kind,std::string const& msg);
extern "C" void symx_clear(void* p,u64 n);
extern "C" int symx_tid; int symx_tid=-1;
static inline void raceAcc(u64 a,u64 n,bool w){ if(symx_tid>=0){ int t=symx_tid; if(race::access(t,a,n,w)){ symx_tid=-1; fail("check",race::MSG); } } }
extern "C" { void* symx_new(u64);
void symx_threads(){ symx_new(1); race::begin((u64)ARENA); }
void symx_acquire(void* o){ race::acquire(symx_tid,(u64)o); }
void symx_release(void* o){ race::release(symx_tid,(u64)o); }
void symx_atomic(void* o,u32 k){ if(symx_tid>=0){ if(k&1) race::acquire(symx_tid,(u64)o); if(k&2) race::release(symx_tid,(u64)o); race::atomic=true; } }
void symx_atomic_end(){ race::atomic=false; } }
static inline bool inArena(void* p){ return (char*)p>=ARENA&&(char*)p<ARENA+ARENA_SZ; }
extern "C" void* symx_new(u64 n){
  if(!g_arena){ void* p=mmap(ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0); if(p!=ARENA){ perror("mmap"); _exit(3);} g_arena=true; }
  u64 t=(n+15)/16*16+32; if(n>(1ull<<30)||g_brk+t>ARENA_SZ) { throw std::bad_alloc(); }
  Hdr* h=(Hdr*)(ARENA+g_brk); g_brk+=t; h->size=n; h->magic=LIVE; char* r=(char*)(h+1); memset(r,0xCD,n); return r;
}
extern "C" void* symx_new_al(u64 n,u64 al){ (void)al; return symx_new(n); }
extern "C" void symx_delete(void* p){
  if(!p) return; if(!inArena(p)){ free(p); return; }
  Hdr* h=(Hdr*)p-1; if(h->magic==DEAD) fail("crash","double free"); if(h->magic!=LIVE) fail("crash","free of a pointer that is not the start of an allocation");
  raceAcc((u64)p,h->size,true); h->magic=DEAD; symx_clear(p,h->size); memset(p,0xDD,h->size);
}
void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p)noexcept{ if(p&&inArena(p)) symx_delete(p); else free(p); }
void operator delete(void* p,size_t)noexcept{ operator delete(p); }

// ------------------------------------------------------------------ terms
enum Op:u8{ CONST,VAR,ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,SHL,LSHR,ASHR,EQ,ULT,ULE,SLT,SLE,ITE,CONCAT,EXTRACT,ZEXT,SEXT,FADD,FSUB,FMUL,FDIV,FNEG,FOEQ,FOLT,FOLE,FUNO,F2U,F2S,U2F,S2F,F2F,NOPS };
struct Node{ Op op; uint16_t w; u32 id; u64 k; Node *a,*b,*c; u64 h,h2; u64 cv; u64* cw; u64 vs[2]; Z3_ast z; };
static inline u64 mask(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline int64_t sx(u64 v,unsigned w){ return w>=64?(int64_t)v:(int64_t)(v<<(64-w))>>(64-w); }
static inline u64 mix(u64 a,u64 b){ u64 x=a*0x9E3779B97F4A7C15ull^(b+0x7F4A7C15ull+(a<<6)+(a>>2)); x^=x>>29; x*=0xBF58476D1CE4E5B9ull; x^=x>>32; return x; }
struct Tab{ std::vector<Node*> s; size_t n=0; Tab():s(1<<14,nullptr){} } ;
static Tab* g_tab; static u32 g_ids=1;
static char* g_np=nullptr; static size_t g_nleft=0;
static void* nalloc(size_t n){ n=(n+15)&~15ull; if(g_nleft<n){ g_nleft=1<<20; g_np=(char*)malloc(g_nleft);} void* r=g_np; g_np+=n; g_nleft-=n; return r; }
static unsigned nw(unsigned w){ return (w+63)/64; }
static void getw(Node* n,u64* out){ if(n->w<=64) out[0]=n->cv; else memcpy(out,n->cw,nw(n->w)*8); }
static u64 bitsOf(u64 const* v,unsigned lo,unsigned len){ // len<=64
  u64 r=v[lo/64]>>(lo%64); if(lo%64&&(lo%64)+len>64) r|=v[lo/64+1]<<(64-lo%64); return r&mask(len); }
static double asD(u64 v,unsigned w){ if(w==32){ float f; u32 x=(u32)v; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&v,8); return d; }
static u64 fromD(double d,unsigned w){ if(w==32){ float f=(float)d; u32 x; memcpy(&x,&f,4); return x; } u64 v; memcpy(&v,&d,8); return v; }
static u64 fopc(Op op,unsigned w,u64 a,u64 b){
  if(w==32){ float x=(float)asD(a,32),y=(float)asD(b,32),r; switch(op){case FADD:r=x+y;break;case FSUB:r=x-y;break;case FMUL:r=x*y;break;case FDIV:r=x/y;break;default:r=-x;} u32 o; memcpy(&o,&r,4); return o; }
  double x=asD(a,64),y=asD(b,64),r; switch(op){case FADD:r=x+y;break;case FSUB:r=x-y;break;case FMUL:r=x*y;break;case FDIV:r=x/y;break;default:r=-x;} u64 o; memcpy(&o,&r,8); return o; }
static u64 evalOp(Op op,unsigned w,u64 k,Node* a,Node* b,Node* c,bool& ok){
  unsigned aw=a?a->w:0; u64 x=a?a->cv:0,y=b?b->cv:0,z=c?c->cv:0; ok=true;
  switch(op){
  case ADD: return (x+y)&mask(w); case SUB: return (x-y)&mask(w); case MUL: return (x*y)&mask(w);
  case UDIV: return y?x/y:mask(w); case UREM: return y?x%y:x;
  case SDIV: { int64_t p=sx(x,w),q=sx(y,w); if(!q) return p>=0?mask(w):1; if(q==-1) return (0-x)&mask(w); return (u64)(p/q)&mask(w);} 
  case SREM: { int64_t p=sx(x,w),q=sx(y,w); if(!q) return x; if(q==-1) return 0; return (u64)(p%q)&mask(w);} 
  case AND: return x&y; case OR: return x|y; case XOR: return x^y;
  case SHL: return y>=w?0:(x<<y)&mask(w); case LSHR: return y>=w?0:x>>y; case ASHR: return (u64)(sx(x,w)>>(y>=w?w-1:y))&mask(w);
  case EQ: return x==y; case ULT: return x<y; case ULE: return x<=y; case SLT: return sx(x,aw)<sx(y,aw); case SLE: return sx(x,aw)<=sx(y,aw);
  case ITE: return x?y:z; case CONCAT: return ((x<<b->w)|y)&mask(w); case EXTRACT: return (x>>k)&mask(w); case ZEXT: return x; case SEXT: return (u64)sx(x,aw)&mask(w);
  case FADD: case FSUB: case FMUL: case FDIV: case FNEG: return fopc(op,w,x,y);
  case FOEQ: return asD(x,aw)==asD(y,aw); case FOLT: return asD(x,aw)<asD(y,aw); case FOLE: return asD(x,aw)<=asD(y,aw); case FUNO: return std::isnan(asD(x,aw))||std::isnan(asD(y,aw));
  case F2U: { double d=asD(x,aw); return (u64)d&mask(w);} case F2S: { double d=asD(x,aw); return (u64)(int64_t)d&mask(w);} 
  case U2F: { if(w==32){ float f=(float)x; u32 o; memcpy(&o,&f,4); return o;} double f=(double)x; u64 o; memcpy(&o,&f,8); return o;} 
  case S2F: { int64_t s=sx(x,aw); if(w==32){ float f=(float)s; u32 o; memcpy(&o,&f,4); return o;} double f=(double)s; u64 o; memcpy(&o,&f,8); return o;} 
  case F2F: return fromD(asD(x,aw),w);
  default: ok=false; return 0; }
}
static Node* mkraw(Op op,unsigned w,Node* a,Node* b,Node* c,u64 k){
  u64 h=mix(mix(op*1000+w,k),mix(a?a->h:1,mix(b?b->h:2,c?c->h:3))); u64 h2=mix(mix(k,op*77+w),mix(b?b->h2:5,mix(a?a->h2:7,c?c->h2:11)));
  Tab& t=*g_tab; size_t m=t.s.size()-1; size_t i=h&m;
  while(t.s[i]){ Node* n=t.s[i]; if(n->h==h&&n->op==op&&n->w==w&&n->a==a&&n->b==b&&n->c==c&&n->k==k) return n; i=(i+1)&m; }
  Node* n=(Node*)nalloc(sizeof(Node)); memset(n,0,sizeof(Node)); n->op=op;n->w=w;n->a=a;n->b=b;n->c=c;n->k=k;n->h=h;n->h2=h2;n->id=g_ids++;
  for(Node* x:{a,b,c}) if(x){ n->vs[0]|=x->vs[0]; n->vs[1]|=x->vs[1]; }
  bool wide=w>64||(a&&a->w>64)||(b&&b->w>64);
  if(op==CONST){ n->cv=k; }
  else if(op!=VAR){
    if(!wide){ bool ok; n->cv=evalOp(op,w,k,a,b,c,ok); if(!ok) fail("engine","evalOp"); }
    else {
      u64 A[16]={0},B[16]={0},R[16]={0}; if(a) getw(a,A); if(b) getw(b,B); unsigned N=nw(w); bool done=true;
      switch(op){
      case CONCAT: { for(unsigned i2=0;i2<nw(b->w);++i2) R[i2]=B[i2]; for(unsigned bit=0;bit<a->w;){ unsigned pos=b->w+bit; unsigned len=std::min<unsigned>({64-pos%64,a->w-bit,64}); R[pos/64]|=bitsOf(A,bit,len)<<(pos%64); bit+=len; } break; }
      case EXTRACT: { for(unsigned bit=0;bit<w;){ unsigned len=std::min<unsigned>(64,w-bit); R[bit/64]=bitsOf(A,(unsigned)k+bit,len); bit+=len; } break; }
      case ZEXT: for(unsigned i2=0;i2<nw(a->w);++i2) R[i2]=A[i2]; break;
      case ITE: { if(a->cv) getw(b,R); else getw(c,R); break; }
      case AND: for(unsigned i2=0;i2<N;++i2) R[i2]=A[i2]&B[i2]; break; case OR: for(unsigned i2=0;i2<N;++i2) R[i2]=A[i2]|B[i2]; break; case XOR: for(unsigned i2=0;i2<N;++i2) R[i2]=A[i2]^B[i2]; break;
      case EQ: { bool e=true; for(unsigned i2=0;i2<nw(a->w);++i2) e&=A[i2]==B[i2]; R[0]=e; break; }
      default: {
        if((w<=128||w==1)&&a->w<=128){ u128 x=((u128)A[1]<<64)|A[0],y=((u128)B[1]<<64)|B[0],r=0; u128 mk=a->w==128?~(u128)0:(((u128)1<<a->w)-1);
          switch(op){ case ADD:r=x+y;break; case SUB:r=x-y;break; case MUL:r=x*y;break; case SHL:r=y>=w?0:x<<(unsigned)y;break; case LSHR:r=y>=w?0:x>>(unsigned)y;break; case ULT:r=x<y;break; case ULE:r=x<=y;break; case UDIV: r=y?x/y:mk;break; case UREM: r=y?x%y:x;break; case SEXT: r=(u128)(__int128)sx(A[0],a->w); if(a->w>64) done=false; mk=w>=128?~(u128)0:(((u128)1<<w)-1); break; default: done=false; }
          r&=mk; R[0]=(u64)r; R[1]=(u64)(r>>64); }
        else done=false; }
      }
      if(!done) fail("engine","unsupported wide operation "+std::to_string(op)+" w="+std::to_string(w));
      if(w<=64) n->cv=R[0]&mask(w); else { n->cw=(u64*)nalloc(N*8); memcpy(n->cw,R,N*8); if(w%64) n->cw[N-1]&=mask(w%64); }
    }
  }
  t.s[i]=n; if(++t.n*2>t.s.size()){ std::vector<Node*> o(t.s.size()*2,nullptr); size_t mm=o.size()-1; for(Node* x:t.s) if(x){ size_t j=x->h&mm; while(o[j]) j=(j+1)&mm; o[j]=x; } t.s.swap(o); }
  return n;
}
static Node* K(u64 v,unsigned w){ return mkraw(CONST,w,nullptr,nullptr,nullptr,v&mask(w)); }
static inline bool isK(Node* n){ return n->op==CONST; }
static Node* mk(Op op,unsigned w,Node* a,Node* b=nullptr,Node* c=nullptr,u64 k=0);
static Node* NOT(Node* a){ return mk(XOR,1,a,K(1,1)); }
static Node* mkExtract(Node* a,unsigned lo,unsigned w){ return (lo==0&&w==a->w)?a:mk(EXTRACT,w,a,nullptr,nullptr,lo); }
static bool constLeaves(Node* n,int depth){ return isK(n)||(n->op==ITE&&depth>0&&constLeaves(n->b,depth-1)&&constLeaves(n->c,depth-1)); }
static bool isIteK(Node* n){ return n->op==ITE&&(isK(n->b)||isK(n->c)||constLeaves(n,3)); }
static Node* mk(Op op,unsigned w,Node* a,Node* b,Node* c,u64 k){
  bool allK=(!a||isK(a))&&(!b||isK(b))&&(!c||isK(c)); bool wide=w>64||(a&&a->w>64)||(b&&b->w>64);
  if(allK&&!wide){ bool ok; u64 v=evalOp(op,w,k,a,b,c,ok); if(ok) return K(v,w); }
  // commutative: constant right
  switch(op){ case ADD: case MUL: case AND: case OR: case XOR: case EQ: if(isK(a)&&!isK(b)) std::swap(a,b); else if(!isK(b)&&(a->h!=b->h?a->h>b->h:a->h2>b->h2)) std::swap(a,b); break; default: break; }
  if(!wide) switch(op){
  case ADD: if(isK(b)){ if(!b->k) return a; if(a->op==ADD&&isK(a->b)) return mk(ADD,w,a->a,K(a->b->k+b->k,w)); } break;
  case SUB: if(a==b) return K(0,w); if(isK(b)) return mk(ADD,w,a,K(0-b->k,w)); break;
  case MUL: if(isK(b)){ if(b->k==0) return b; if(b->k==1) return a; } break;
  case UDIV: if(isK(b)&&b->k==1) return a; if(isK(b)&&b->k&&!(b->k&(b->k-1))) return mk(LSHR,w,a,K(__builtin_ctzll(b->k),w)); break;
  case UREM: if(isK(b)&&b->k&&!(b->k&(b->k-1))) return mk(AND,w,a,K(b->k-1,w)); break;
  case AND: if(a==b) return a; if(isK(b)){ if(!b->k) return b; if(b->k==mask(w)) return a; if(a->op==AND&&isK(a->b)) return mk(AND,w,a->a,K(a->b->k&b->k,w));
      if(a->op==ZEXT&&(b->k&mask(a->a->w))==mask(a->a->w)) return a; 
      if(a->op==ZEXT) return mk(ZEXT,w,mk(AND,a->a->w,a->a,K(b->k,a->a->w))); } 
      if(w==1){ if(a==NOT(b)) return K(0,1); } break;
  case OR: if(a==b) return a; if(isK(b)){ if(!b->k) return a; if(b->k==mask(w)) return b; } if(w==1&&a==NOT(b)) return K(1,1); break;
  case XOR: if(a==b) return K(0,w); if(isK(b)){ if(!b->k) return a; if(a->op==XOR&&isK(a->b)) return mk(XOR,w,a->a,K(a->b->k^b->k,w));
      } break;
  case SHL: case LSHR: case ASHR: if(isK(b)){ if(!b->k) return a; if(b->k>=w&&op!=ASHR) return K(0,w); 
      if(op==LSHR&&a->op==ZEXT&&b->k>=a->a->w) return K(0,w);
      if(op==LSHR&&b->k<w) return mk(ZEXT,w,mkExtract(a,b->k,w-b->k));
      if(op==SHL&&b->k<w) return mk(CONCAT,w,mkExtract(a,0,w-b->k),K(0,b->k)); } break;
  case EQ: if(a==b) return K(1,1);
    if(a->w==1&&isK(b)) return b->k?a:NOT(a);
    if(isK(b)){
      if(a->op==ZEXT){ if(b->k>>a->a->w) return K(0,1); return mk(EQ,1,a->a,K(b->k,a->a->w)); }
      if(a->op==SEXT){ u64 t=b->k&mask(a->a->w); if((u64)sx(t,a->a->w)!=(u64)sx(b->k,a->w)) return K(0,1); return mk(EQ,1,a->a,K(t,a->a->w)); }
      if(a->op==ADD&&isK(a->b)) return mk(EQ,1,a->a,K(b->k-a->b->k,a->w));
      if(a->op==XOR&&isK(a->b)) return mk(EQ,1,a->a,K(b->k^a->b->k,a->w));
      if(a->op==CONCAT&&isK(a->b)){ if((b->k&mask(a->b->w))!=a->b->k) return K(0,1); return mk(EQ,1,a->a,K(b->k>>a->b->w,a->a->w)); }
      if(a->op==CONCAT&&isK(a->a)){ if((b->k>>a->b->w)!=a->a->k) return K(0,1); return mk(EQ,1,a->b,K(b->k,a->b->w)); }
      if(isIteK(a)) return mk(ITE,1,a->a,mk(EQ,1,a->b,b),mk(EQ,1,a->c,b)); }
    break;
  case ULT: if(a==b) return K(0,1); if(isK(b)&&b->k==0) return K(0,1); if(isK(b)&&b->k==1) return mk(EQ,1,a,K(0,a->w)); if(isK(a)&&a->k==mask(a->w)) return K(0,1); if(isK(a)&&a->k==0) return NOT(mk(EQ,1,b,K(0,b->w)));
    if(a->op==ZEXT&&isK(b)){ if(b->k>mask(a->a->w)) return K(1,1); return mk(ULT,1,a->a,K(b->k,a->a->w)); }
    if(b->op==ZEXT&&isK(a)){ if(a->k>=mask(b->a->w)) return K(0,1); return mk(ULT,1,K(a->k,b->a->w),b->a); }
    if(isIteK(a)&&isK(b)) return mk(ITE,1,a->a,mk(ULT,1,a->b,b),mk(ULT,1,a->c,b)); if(isIteK(b)&&isK(a)) return mk(ITE,1,b->a,mk(ULT,1,a,b->b),mk(ULT,1,a,b->c)); break;
  case ULE: if(a==b) return K(1,1); if(isK(a)&&a->k==0) return K(1,1); if(isK(b)&&b->k==mask(b->w)) return K(1,1); return NOT(mk(ULT,1,b,a));
  case SLT: if(a==b) return K(0,1); if(isIteK(a)&&isK(b)) return mk(ITE,1,a->a,mk(SLT,1,a->b,b),mk(SLT,1,a->c,b)); if(isIteK(b)&&isK(a)) return mk(ITE,1,b->a,mk(SLT,1,a,b->b),mk(SLT,1,a,b->c));
    if(a->op==ZEXT&&isK(b)&&a->a->w<a->w){ if(sx(b->k,a->w)<=0) return K(0,1); return mk(ULT,1,a,b); } if(b->op==ZEXT&&isK(a)&&b->a->w<b->w){ if(sx(a->k,a->w)<0) return K(1,1); return mk(ULT,1,a,b); } break;
  case SLE: if(a==b) return K(1,1); return NOT(mk(SLT,1,b,a));
  default: break; }
  switch(op){
  case ITE: if(isK(a)) return a->k?b:c; if(b==c) return b;
    if(a->op==XOR&&isK(a->b)) return mk(ITE,w,a->a,c,b);
    if(w==1){ if(isK(b)&&isK(c)) return b->k?a:NOT(a); if(isK(b)) return b->k?mk(OR,1,a,c):mk(AND,1,NOT(a),c); if(isK(c)) return c->k?mk(OR,1,NOT(a),b):mk(AND,1,a,b); }
    if(b->op==ITE&&b->a==a) return mk(ITE,w,a,b->b,c); if(c->op==ITE&&c->a==a) return mk(ITE,w,a,b,c->c);
    break;
  case EXTRACT: if(k==0&&w==a->w) return a;
    if(a->op==EXTRACT) return mkExtract(a->a,a->k+k,w);
    if(a->op==CONCAT){ unsigned lw=a->b->w; if(k+w<=lw) return mkExtract(a->b,k,w); if(k>=lw) return mkExtract(a->a,k-lw,w); return mk(CONCAT,w,mkExtract(a->a,0,k+w-lw),mkExtract(a->b,k,lw-k)); }
    if(a->op==ZEXT){ unsigned iw=a->a->w; if(k>=iw&&w<=64) return K(0,w); if(k+w<=iw) return mkExtract(a->a,k,w); if(k<iw) return mk(ZEXT,w,mkExtract(a->a,k,iw-k)); }
    if(a->op==SEXT&&k+w<=a->a->w) return mkExtract(a->a,k,w);
    if(a->op==ITE&&(isIteK(a)||w<=8)) return mk(ITE,w,a->a,mkExtract(a->b,k,w),mkExtract(a->c,k,w));
    if((a->op==AND||a->op==OR||a->op==XOR)) return mk(a->op,w,mkExtract(a->a,k,w),mkExtract(a->b,k,w));
    if(k==0&&(a->op==ADD||a->op==SUB||a->op==MUL)&&a->w<=64) return mk(a->op,w,mkExtract(a->a,0,w),mkExtract(a->b,0,w));
    break;
  case CONCAT: 
    if(isK(a)&&a->k==0&&w<=512) return mk(ZEXT,w,b);
    if(a->op==EXTRACT&&b->op==EXTRACT&&a->a==b->a&&a->k==b->k+b->w) return mkExtract(a->a,b->k,w);
    if(a->op==EXTRACT&&b->op==CONCAT&&b->a->op==EXTRACT&&b->a->a==a->a&&a->k==b->a->k+b->a->w) return mk(CONCAT,w,mkExtract(a->a,b->a->k,a->w+b->a->w),b->b);
    if(a->op==ITE&&b->op==ITE&&a->a==b->a) return mk(ITE,w,a->a,mk(CONCAT,w,a->b,b->b),mk(CONCAT,w,a->c,b->c));
    if(isK(b)&&a->op==CONCAT&&isK(a->b)&&b->w+a->b->w<=64) return mk(CONCAT,w,a->a,K((a->b->k<<b->w)|b->k,a->b->w+b->w));
    if(isK(a)&&b->op==CONCAT&&isK(b->a)&&a->w+b->a->w<=64) return mk(CONCAT,w,K((a->k<<b->a->w)|b->a->k,a->w+b->a->w),b->b);
    // bytes of bitwise operations
    if((a->op==AND||a->op==OR||a->op==XOR)&&a->op==b->op&&w<=64&&a->a->op==EXTRACT&&b->a->op==EXTRACT&&a->a->a==b->a->a) { Node* l=mk(CONCAT,w,a->a,b->a); if(l->op!=CONCAT) return mk(a->op,w,l,mk(CONCAT,w,a->b,b->b)); }
    if(b->op==ZEXT&&isK(a)&&a->k==0) return mk(ZEXT,w,b->a);
    break;
  case ZEXT: if(w==a->w) return a; if(a->op==ZEXT) return mk(ZEXT,w,a->a); if(a->op==ITE&&isIteK(a)&&w<=64) return mk(ITE,w,a->a,mk(ZEXT,w,a->b),mk(ZEXT,w,a->c)); if(isK(a)&&w>64) break; break;
  case SEXT: if(w==a->w) return a; if(a->op==ZEXT&&a->a->w<a->w) return mk(ZEXT,w,a->a); if(a->op==ITE&&isIteK(a)&&w<=64) return mk(ITE,w,a->a,mk(SEXT,w,a->b),mk(SEXT,w,a->c)); break;
  case AND: case OR: case ADD: case SUB: case XOR: case MUL:
    if(w>1&&w<=64&&isK(b)&&a->op==ITE&&constLeaves(a,3)) return mk(ITE,w,a->a,mk(op,w,a->b,b),mk(op,w,a->c,b)); break;
  default: break; }
  return mkraw(op,w,a,b,c,k);
}
static inline E ret(Node* n){ return isK(n)?0:(E)n; }
static inline Node* N(E e){ return (Node*)e; }
static inline Node* L(E e,u64 v,unsigned w){ if(e){ if(N(e)->w!=w) fail("engine","width mismatch "+std::to_string(N(e)->w)+" vs "+std::to_string(w)); return N(e);} return K(v,w); }

// ------------------------------------------------------------------ variables, path state
struct Var{ std::string name; Node* n; std::vector<u64> dom; bool oneof; u64 lo,hi; u64 nh; };
static std::vector<Var> g_vars;
struct Item{ std::vector<std::pair<u64,u64>> in; u32 bound=0; u64 expect=0; u32 depth=0; std::vector<std::pair<u32,std::vector<u64>>> excl; };
static Item* g_item; static u32 g_ev=0; static u64 g_evh=1;
static std::vector<Node*> g_pc; static std::unordered_set<Node*>* g_pcset;
struct CacheVal{ char res; std::vector<std::pair<u64,u64>> m; };
struct Key{ u64 a,b; bool operator==(Key const& o)const{return a==o.a&&b==o.b;} }; struct KeyH{ size_t operator()(Key const& k)const{return k.a;} };
typedef std::unordered_map<Key,CacheVal,KeyH> Cache;
static Cache* g_cache; static std::vector<std::pair<Key,CacheVal>>* g_newcache;
static Z3_context z; static Z3_solver zs=nullptr; static unsigned g_tmo=20000;
struct Stats{ u64 queries=0,cached=0,sat=0,unsat=0,unknown=0,events=0,checks=0,checkq=0,conc=0; double t=0; } st;
static std::string g_out; // message to the coordinator
static int g_fd=-1; static u64 g_obs=0xcbf29ce484222325ull; static u64 g_nobs=0; static bool g_pruned=false;
static std::vector<std::string>* g_reach; static std::set<std::string>* g_kfids; 

static void put(void const* p,size_t n){ g_out.append((char const*)p,n); }
static void p32(u32 v){ put(&v,4);} static void p64(u64 v){ put(&v,8);} static void pstr(std::string const& s){ p32(s.size()); put(s.data(),s.size()); }
static std::string g_trace;
static void sendItem(Item const& it){ g_out+='I'; p32(it.in.size()); for(auto& x:it.in){p64(x.first);p64(x.second);} p32(it.bound); p64(it.expect); p32(it.depth); p32(it.excl.size()); for(auto& e:it.excl){ p32(e.first); p32(e.second.size()); for(u64 v:e.second) p64(v);} }
static void flushOut(){
  g_out+='S'; put(&st,sizeof st); p64(g_ev); p64(g_obs); p64(g_nobs); g_out+=(char)g_pruned;
  p32(g_vars.size()); for(auto& v:g_vars){ pstr(v.name); p64(v.n->cv);} 
  for(auto& r:*g_reach){ g_out+='R'; pstr(r);} 
  for(auto& kv:*g_newcache){ g_out+='C'; p64(kv.first.a);p64(kv.first.b); g_out+=kv.second.res; p32(kv.second.m.size()); for(auto& x:kv.second.m){p64(x.first);p64(x.second);} }
  g_out+='F'; { u64 n=0; for(unsigned i=0;i<g_nmods;++i) n+=g_mods[i].nfn; p64(n); for(unsigned i=0;i<g_nmods;++i) put(g_mods[i].flags,g_mods[i].nfn); }
  g_out+='E'; size_t o=0; while(o<g_out.size()){ ssize_t r=write(g_fd,g_out.data()+o,g_out.size()-o); if(r<=0) break; o+=r; }
}
static void sendViolation(char const* kind,std::string const& msg,std::vector<std::pair<std::string,u64>> const& in){ g_out+='V'; pstr(kind); pstr(msg); p32(in.size()); for(auto& x:in){ pstr(x.first); p64(x.second);} }
static std::vector<std::pair<std::string,u64>> curInputs(){ std::vector<std::pair<std::string,u64>> r; for(auto& v:g_vars) r.push_back({v.name,v.n->cv}); return r; }
[[noreturn]] void fail(char const* kind,std::string const& msg){
  if(g_fd<0){ fprintf(stderr,"%s: %s\n",kind,msg.c_str()); _exit(3); }
  std::string m=msg; if(!strcmp(kind,"engine")){ void* bt[40]; int n=backtrace(bt,40); char** s=backtrace_symbols(bt,n); for(int i=1;i<n&&i<25;++i){ m+="\n   "; m+=s[i]; } }
  sendViolation(kind,m,curInputs()); flushOut(); _exit(0);
}
[[noreturn]] static void endRun(){ flushOut(); _exit(0); }

static Z3_sort zsort(unsigned w){ return w==1?Z3_mk_bool_sort(z):Z3_mk_bv_sort(z,w); }
static Z3_ast zb(Z3_ast b){ return Z3_mk_ite(z,b,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1)),Z3_mk_unsigned_int64(z,0,Z3_mk_bv_sort(z,1))); } // bool -> bv1
static Z3_ast tr(Node* n);
static Z3_ast trbv(Node* n){ Z3_ast r=tr(n); return n->w==1?zb(r):r; }
static Z3_ast bv1tob(Z3_ast b){ return Z3_mk_eq(z,b,Z3_mk_unsigned_int64(z,1,Z3_mk_bv_sort(z,1))); }
static Z3_sort fsort(unsigned w){ return w==32?Z3_mk_fpa_sort_32(z):Z3_mk_fpa_sort_64(z); }
static Z3_ast fp(Node* n){ return Z3_mk_fpa_to_fp_bv(z,tr(n),fsort(n->w)); }
static Z3_ast tr(Node* n){
  if(n->z) return n->z; Z3_ast r=nullptr; unsigned w=n->w; bool b1=w==1;
  switch(n->op){
  case CONST: if(b1) r=n->k?Z3_mk_true(z):Z3_mk_false(z); else if(w<=64) r=Z3_mk_unsigned_int64(z,n->k,zsort(w)); else r=Z3_mk_zero_ext(z,w-64,Z3_mk_unsigned_int64(z,n->k,Z3_mk_bv_sort(z,64))); break;
  case VAR: r=Z3_mk_const(z,Z3_mk_string_symbol(z,("v"+std::to_string(n->k)).c_str()),zsort(w)); break;
#define BIN(OP,F) case OP: r=F(z,tr(n->a),tr(n->b)); break;
  case ADD: if(b1) r=Z3_mk_xor(z,tr(n->a),tr(n->b)); else r=Z3_mk_bvadd(z,tr(n->a),tr(n->b)); break;
  case SUB: if(b1) r=Z3_mk_xor(z,tr(n->a),tr(n->b)); else r=Z3_mk_bvsub(z,tr(n->a),tr(n->b)); break;
  case MUL: if(b1){ Z3_ast q[2]={tr(n->a),tr(n->b)}; r=Z3_mk_and(z,2,q);} else r=Z3_mk_bvmul(z,tr(n->a),tr(n->b)); break;
  BIN(UDIV,Z3_mk_bvudiv) BIN(SDIV,Z3_mk_bvsdiv) BIN(UREM,Z3_mk_bvurem) BIN(SREM,Z3_mk_bvsrem) BIN(SHL,Z3_mk_bvshl) BIN(LSHR,Z3_mk_bvlshr) BIN(ASHR,Z3_mk_bvashr)
  case AND: if(b1){ Z3_ast q[2]={tr(n->a),tr(n->b)}; r=Z3_mk_and(z,2,q);} else r=Z3_mk_bvand(z,tr(n->a),tr(n->b)); break;
  case OR: if(b1){ Z3_ast q[2]={tr(n->a),tr(n->b)}; r=Z3_mk_or(z,2,q);} else r=Z3_mk_bvor(z,tr(n->a),tr(n->b)); break;
  case XOR: if(b1) r=isK(n->b)?(n->b->k?Z3_mk_not(z,tr(n->a)):tr(n->a)):Z3_mk_xor(z,tr(n->a),tr(n->b)); else r=Z3_mk_bvxor(z,tr(n->a),tr(n->b)); break;
  case EQ: r=Z3_mk_eq(z,tr(n->a),tr(n->b)); break;
  case ULT: r=n->a->w==1?Z3_mk_bvult(z,trbv(n->a),trbv(n->b)):Z3_mk_bvult(z,tr(n->a),tr(n->b)); break;
  case ULE: r=Z3_mk_bvule(z,trbv(n->a),trbv(n->b)); break; case SLT: r=Z3_mk_bvslt(z,trbv(n->a),trbv(n->b)); break; case SLE: r=Z3_mk_bvsle(z,trbv(n->a),trbv(n->b)); break;
  case ITE: r=Z3_mk_ite(z,tr(n->a),tr(n->b),tr(n->c)); break;
  case CONCAT: r=Z3_mk_concat(z,trbv(n->a),trbv(n->b)); break;
  case EXTRACT: r=Z3_mk_extract(z,n->k+w-1,n->k,trbv(n->a)); if(b1) r=bv1tob(r); break;
  case ZEXT: r=n->a->w==1?Z3_mk_ite(z,tr(n->a),Z3_mk_int(z,1,zsort(w)),Z3_mk_int(z,0,zsort(w))):Z3_mk_zero_ext(z,w-n->a->w,tr(n->a)); break;
  case SEXT: r=Z3_mk_sign_ext(z,w-n->a->w,trbv(n->a)); break;
  case FADD: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_add(z,Z3_mk_fpa_rne(z),fp(n->a),fp(n->b))); break; case FSUB: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_sub(z,Z3_mk_fpa_rne(z),fp(n->a),fp(n->b))); break;
  case FMUL: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_mul(z,Z3_mk_fpa_rne(z),fp(n->a),fp(n->b))); break; case FDIV: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_div(z,Z3_mk_fpa_rne(z),fp(n->a),fp(n->b))); break;
  case FNEG: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_neg(z,fp(n->a))); break;
  case FOEQ: r=Z3_mk_fpa_eq(z,fp(n->a),fp(n->b)); break; case FOLT: r=Z3_mk_fpa_lt(z,fp(n->a),fp(n->b)); break; case FOLE: r=Z3_mk_fpa_leq(z,fp(n->a),fp(n->b)); break;
  case FUNO: { Z3_ast q[2]={Z3_mk_fpa_is_nan(z,fp(n->a)),Z3_mk_fpa_is_nan(z,fp(n->b))}; r=Z3_mk_or(z,2,q); break; }
  case F2U: r=Z3_mk_fpa_to_ubv(z,Z3_mk_fpa_rtz(z),fp(n->a),w); break; case F2S: r=Z3_mk_fpa_to_sbv(z,Z3_mk_fpa_rtz(z),fp(n->a),w); break;
  case U2F: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_unsigned(z,Z3_mk_fpa_rne(z),trbv(n->a->op==ZEXT&&n->a->a->w>1?n->a->a:n->a),fsort(w))); break; case S2F: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_signed(z,Z3_mk_fpa_rne(z),trbv(n->a),fsort(w))); break;
  case F2F: r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_float(z,Z3_mk_fpa_rne(z),fp(n->a),fsort(w))); break;
  default: fail("engine","tr"); }
  Z3_inc_ref(z,r); n->z=r; return r;
}
// is PC /\ extra satisfiable?  'S','U','K'; model over the slice's variables in m
static char solve(std::vector<Node*> const& extra,std::vector<std::pair<u64,u64>>& m){
  ++st.queries; m.clear(); double t0=now();
  u64 vs[2]={0,0}; std::vector<Node*> sl; for(Node* e:extra){ if(isK(e)){ if(!e->k) return 'U'; continue; } vs[0]|=e->vs[0]; vs[1]|=e->vs[1]; sl.push_back(e);} 
  std::vector<char> used(g_pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<g_pc.size();++i) if(!used[i]&&((g_pc[i]->vs[0]&vs[0])||(g_pc[i]->vs[1]&vs[1]))){ used[i]=1; sl.push_back(g_pc[i]); if((g_pc[i]->vs[0]&~vs[0])||(g_pc[i]->vs[1]&~vs[1])){ vs[0]|=g_pc[i]->vs[0]; vs[1]|=g_pc[i]->vs[1]; ch=true; } } }
  std::sort(sl.begin(),sl.end(),[](Node* a,Node* b){return a->h<b->h||(a->h==b->h&&a->h2<b->h2);}); sl.erase(std::unique(sl.begin(),sl.end()),sl.end());
  Key k{sl.size(),77}; for(Node* n:sl){ k.a=mix(k.a,n->h); k.b=mix(k.b,n->h2);} 
  auto it=g_cache->find(k); if(it!=g_cache->end()){ ++st.cached; m=it->second.m; if(it->second.res=='S')++st.sat; else ++st.unsat; return it->second.res; }
  if(!zs){ zs=Z3_mk_simple_solver(z); Z3_solver_inc_ref(z,zs); Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),g_tmo); Z3_solver_set_params(z,zs,p); }
  Z3_solver_push(z,zs); for(Node* n:sl) Z3_solver_assert(z,zs,tr(n));
  Z3_lbool r=Z3_solver_check(z,zs); Z3_model mod=nullptr; Z3_solver zz=nullptr;
  if(r==Z3_L_UNDEF){ zz=Z3_mk_solver_for_logic(z,Z3_mk_string_symbol(z,"QF_BVFP")); Z3_solver_inc_ref(z,zz); Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),4*g_tmo); Z3_solver_set_params(z,zz,p); for(Node* n:sl) Z3_solver_assert(z,zz,tr(n)); r=Z3_solver_check(z,zz); if(r==Z3_L_TRUE) mod=Z3_solver_get_model(z,zz); }
  else if(r==Z3_L_TRUE) mod=Z3_solver_get_model(z,zs);
  char res='K';
  if(r==Z3_L_TRUE){ res='S'; ++st.sat; Z3_model_inc_ref(z,mod); for(size_t i=0;i<g_vars.size();++i) if(vs[i/64]>>(i%64)&1){ Z3_ast o; Z3_model_eval(z,mod,tr(g_vars[i].n),true,&o); u64 v=0; if(g_vars[i].n->w==1) v=Z3_get_bool_value(z,o)==Z3_L_TRUE; else Z3_get_numeral_uint64(z,o,&v); m.push_back({g_vars[i].nh,v}); } Z3_model_dec_ref(z,mod); }
  else if(r==Z3_L_FALSE){ res='U'; ++st.unsat; } else ++st.unknown;
  Z3_solver_pop(z,zs,1); if(zz) Z3_solver_dec_ref(z,zz);
  st.t+=now()-t0;
  if(res!='K'){ (*g_cache)[k]={res,m}; g_newcache->push_back({k,{res,m}}); }
  return res;
}
static void addPC(Node* c){ if(isK(c)) { if(!c->k) fail("engine","false path condition"); return; } if(!c->cv) fail("engine","path condition does not hold on the running input"); if(g_pcset->insert(c).second) g_pc.push_back(c); }
static Item flipped(std::vector<std::pair<u64,u64>> const& m,u32 bound,u64 expect){
  Item it; std::unordered_map<u64,u64> v; for(auto& x:g_vars) v[x.nh]=x.n->cv; for(auto& x:m) v[x.first]=x.second; for(auto& x:g_vars) it.in.push_back({x.nh,v[x.nh]});
  it.bound=bound; it.expect=expect; it.depth=g_ev; for(auto& e:g_item->excl) if(e.first<=g_ev) it.excl.push_back(e); return it; }
static void evDone(u64 h){ g_evh=h; ++g_ev; ++st.events; if(g_item->bound==g_ev&&g_item->expect&&g_item->expect!=g_evh) fail("engine","replay of a path prefix diverged"); if(g_ev>200000) fail("engine","too many events on one path"); }

extern "C" {
static bool implied(Node* c){ return isK(c)||g_pcset->count(c); }
void symx_br(u32 site,E e,u32 taken){
  if(!e||!g_on) return; Node* c=N(e); if(c->cv!=(taken&1)) fail("engine","shadow term disagrees with the executed value (branch)");
  Node* t=taken?c:NOT(c); if(implied(t)) return;
  u64 ht=mix(mix(g_evh,site),mix(c->h,taken)),hf=mix(mix(g_evh,site),mix(c->h,!taken));
  if(g_ev>=g_item->bound){ std::vector<std::pair<u64,u64>> m; Node* nt=NOT(t); char r=solve({nt},m); if(r=='S') sendItem(flipped(m,g_ev+1,hf)); }
  addPC(t); evDone(ht);
}
void symx_switch(u32 site,E e,u32 w,u64 const* tab,u32 n){
  if(!e||!g_on) return; Node* v=N(e); std::map<u64,std::vector<u64>> cls; for(u32 i=0;i<n;++i) cls[tab[2*i+1]].push_back(tab[2*i]); cls[0];
  u64 taken=0; for(u32 i=0;i<n;++i) if(tab[2*i]==v->cv) taken=tab[2*i+1];
  std::map<u64,Node*> cond; Node* def=K(1,1);
  for(auto& c:cls){ Node* o=K(0,1); for(u64 x:c.second) o=mk(OR,1,o,mk(EQ,1,v,K(x,w))); cond[c.first]=o; }
  { for(auto& c:cls) if(c.first) for(u64 x:c.second) def=mk(AND,1,def,NOT(mk(EQ,1,v,K(x,w)))); cond[0]=def; }
  Node* t=cond[taken]; if(implied(t)) return;
  if(g_ev>=g_item->bound) for(auto& c:cond) if(c.first!=taken){ std::vector<std::pair<u64,u64>> m; char r=solve({c.second},m); if(r=='S') sendItem(flipped(m,g_ev+1,mix(mix(g_evh,site),mix(v->h,c.first)))); }
  addPC(t); evDone(mix(mix(g_evh,site),mix(v->h,taken)));
}
void symx_conc(u32 site,E e){
  if(!e||!g_on) return; Node* v=N(e); 
  if(v->w>64){ for(unsigned lo=0;lo<v->w;lo+=64){ Node* p=mkExtract(v,lo,std::min<unsigned>(64,v->w-lo)); symx_conc(site,ret(p)); } return; }
  Node* t=mk(EQ,1,v,K(v->cv,v->w)); if(implied(t)) return; ++st.conc;
  std::vector<u64> ex; for(auto& x:g_item->excl) if(x.first==g_ev) ex=x.second;
  if(g_ev>=g_item->bound){ ex.push_back(v->cv); std::vector<Node*> q; for(u64 x:ex) q.push_back(NOT(mk(EQ,1,v,K(x,v->w)))); std::vector<std::pair<u64,u64>> m; char r=solve(q,m);
    if(r=='S'){ Item it=flipped(m,g_ev,g_evh); bool f=false; for(auto& x:it.excl) if(x.first==g_ev){ x.second=ex; f=true; } if(!f) it.excl.push_back({g_ev,ex}); if(ex.size()>100000) fail("engine","unbounded concretisation"); sendItem(it); } }
  addPC(t); evDone(mix(mix(g_evh,site),mix(v->h,v->cv)));
}
E symx_lift(E e,u64 v,u32 w){ return (E)L(e,v,w); }
static Node* constw(u64 const* p,unsigned w){ Node* r=nullptr; for(unsigned lo=0;lo<w;lo+=64){ unsigned l=std::min(64u,w-lo); Node* k=K(p[lo/64],l); r=r?mkraw(CONCAT,lo+l,k,r,nullptr,0):k; } return r; }
E symx_liftw(E e,void* p,u32 w){ if(e) return e; u64 b[16]={0}; memcpy(b,p,(w+7)/8); return (E)constw(b,w); }
static Op binop(u32 o){ switch(o){ case 13:return ADD;case 15:return SUB;case 17:return MUL;case 19:return UDIV;case 20:return SDIV;case 22:return UREM;case 23:return SREM;case 25:return SHL;case 26:return LSHR;case 27:return ASHR;case 28:return AND;case 29:return OR;case 30:return XOR;} fail("engine","binop "+std::to_string(o)); }
E symx_bin(u32 op,u32 w,E a,u64 av,E b,u64 bv){ if(!(a|b)) return 0; return ret(mk(binop(op),w,L(a,av,w),L(b,bv,w))); }
E symx_binw(u32 op,u32 w,E gate,E a,E b){ if(!gate) return 0; return ret(mk(binop(op),w,N(a),N(b))); }
static Node* cmp(u32 p,Node* a,Node* b){ switch(p){ case 32:return mk(EQ,1,a,b); case 33:return NOT(mk(EQ,1,a,b)); case 34:return mk(ULT,1,b,a); case 35:return mk(ULE,1,b,a); case 36:return mk(ULT,1,a,b); case 37:return mk(ULE,1,a,b); case 38:return mk(SLT,1,b,a); case 39:return mk(SLE,1,b,a); case 40:return mk(SLT,1,a,b); case 41:return mk(SLE,1,a,b);} fail("engine","cmp"); }
E symx_cmp(u32 p,u32 w,E a,u64 av,E b,u64 bv){ if(!(a|b)) return 0; return ret(cmp(p,L(a,av,w),L(b,bv,w))); }
E symx_cmpw(u32 p,u32 w,E gate,E a,E b){ (void)w; if(!gate) return 0; return ret(cmp(p,N(a),N(b))); }
E symx_cast(u32 k,u32 w1,u32 w2,E a){ if(!a) return 0; Node* n=N(a); if(n->w!=w1) fail("engine","cast width"); if(w1==w2) return a; return ret(k==0?mkExtract(n,0,w2):mk(k==1?ZEXT:SEXT,w2,n)); }
E symx_select(u32 w,E c,u32 cv,E a,u64 av,E b,u64 bv){ if(!c) return cv?a:b; return ret(mk(ITE,w,N(c),L(a,av,w),L(b,bv,w))); }
E symx_selectw(E c,u32 cv,E a,E b,E la,E lb){ if(!c) return cv?a:b; return ret(mk(ITE,N(la)->w,N(c),N(la),N(lb))); }
E symx_extract(E e,u32 lo,u32 w){ return e?ret(mkExtract(N(e),lo,w)):0; }
E symx_extractf(E e,u32 lo,u32 w){ return e?(E)mkExtract(N(e),lo,w):0; }
E symx_concatf(E hi,E lo){ return (hi&&lo)?(E)mk(CONCAT,N(hi)->w+N(lo)->w,N(hi),N(lo)):0; }
E symx_gate(E g,E v){ return g?ret(N(v)):0; }
E symx_insert(E gate,E v,E x,u32 lo,u32 w,u32 tw){ if(!gate) return 0; Node *n=N(v),*r=N(x); if(lo) r=mk(CONCAT,w+lo,r,mkExtract(n,0,lo)); if(lo+w<tw) r=mk(CONCAT,tw,mkExtract(n,lo+w,tw-lo-w),r); return ret(r); }
E symx_gep(E b,u64 bv,E i,u64 iv,u64 scale){ if(!(b|i)) return 0; Node* ix=L(i,iv,64); Node* s=scale==1?ix:((scale&(scale-1))==0?mk(SHL,64,ix,K(__builtin_ctzll(scale),64)):mk(MUL,64,ix,K(scale,64))); return ret(mk(ADD,64,s,L(b,bv,64))); }
E symx_fbin(u32 op,u32 w,E a,u64 av,E b,u64 bv){ if(!(a|b)) return 0; Op o; switch(op){ case 12:o=FNEG;break;case 14:o=FADD;break;case 16:o=FSUB;break;case 18:o=FMUL;break;case 21:o=FDIV;break; default: fail("engine","fbin"); } return ret(mk(o,w,L(a,av,w),o==FNEG?nullptr:L(b,bv,w))); }
E symx_fcast(u32 op,u32 w1,u32 w2,E a){ if(!a) return 0; (void)w1; Op o; switch(op){ case 41:o=F2U;break;case 42:o=F2S;break;case 43:o=U2F;break;case 44:o=S2F;break;case 45:case 46:o=F2F;break; default: fail("engine","fcast"); } return ret(mk(o,w2,N(a))); }
E symx_fcmp(u32 p,u32 w,E a,u64 av,E b,u64 bv){ if(!(a|b)) return 0; Node *x=L(a,av,w),*y=L(b,bv,w); Node *eq=mk(FOEQ,1,x,y),*lt=mk(FOLT,1,x,y),*gt=mk(FOLT,1,y,x),*un=mk(FUNO,1,x,y),*r=K(0,1); if(p&1) r=mk(OR,1,r,eq); if(p&2) r=mk(OR,1,r,gt); if(p&4) r=mk(OR,1,r,lt); if(p&8) r=mk(OR,1,r,un); return ret(r); }
E symx_intr(u32 k,u32 w,E ea,u64 av,E eb,u64 bv,E ec,u64 cv){
  if(!(ea|eb|ec)) return 0; Node *a=L(ea,av,w),*b=L(eb,bv,w);
  switch(k){
  case 1: return ret(mk(ITE,w,mk(ULT,1,a,b),a,b)); case 2: return ret(mk(ITE,w,mk(ULT,1,a,b),b,a)); case 3: return ret(mk(ITE,w,mk(SLT,1,a,b),a,b)); case 4: return ret(mk(ITE,w,mk(SLT,1,a,b),b,a));
  case 5: return ret(mk(ITE,w,mk(SLT,1,a,K(0,w)),mk(SUB,w,K(0,w),a),a));
  case 6: return ret(mk(ITE,w,mk(ULT,1,a,b),K(0,w),mk(SUB,w,a,b))); case 7: { Node* s=mk(ADD,w,a,b); return ret(mk(ITE,w,mk(ULT,1,s,a),K(mask(w),w),s)); }
  case 8: { Node* r=nullptr; for(unsigned i=0;i<w;i+=8){ Node* x=mkExtract(a,i,8); r=r?mk(CONCAT,r->w+8,r,x):x; } return ret(r); }
  case 9: case 10: { Node* c=L(ec,cv,w); Node* sh=mk(UREM,w,c,K(w,w)); Node* inv=mk(SUB,w,K(w,w),sh); // w-sh in 1..w; shift by w gives 0
     if(k==9) return ret(mk(OR,w,mk(SHL,w,a,sh),mk(LSHR,w,b,inv))); return ret(mk(OR,w,mk(SHL,w,a,inv),mk(LSHR,w,b,sh))); }
  case 11: { Node* r=K(0,w); for(unsigned i=0;i<w;++i) r=mk(ADD,w,r,mk(ZEXT,w,mkExtract(a,i,1))); return ret(r); }
  case 12: { Node* r=K(w,w); for(unsigned i=0;i<w;++i) r=mk(ITE,w,mkExtract(a,i,1),K(w-1-i,w),r); return ret(r); }
  case 13: { Node* r=K(w,w); for(unsigned i=w;i-->0;) r=mk(ITE,w,mkExtract(a,i,1),K(i,w),r); return ret(r); }
  case 20: case 21: return ret(mk(ADD,w,a,b)); case 22: case 23: return ret(mk(SUB,w,a,b)); case 24: case 25: return ret(mk(MUL,w,a,b));
  case 30: return ret(mk(ULT,1,mk(ADD,w,a,b),a)); case 32: return ret(mk(ULT,1,a,b));
  case 31: { Node* s=mk(ADD,w+1>64?128:w+1,mk(SEXT,w+1>64?128:w+1,a),mk(SEXT,w+1>64?128:w+1,b)); if(w==64) fail("engine","sadd64 overflow"); return ret(NOT(mk(EQ,1,s,mk(SEXT,w+1,mkExtract(s,0,w))))); }
  case 33: { if(w==64) fail("engine","ssub64 overflow"); Node* s=mk(SUB,w+1,mk(SEXT,w+1,a),mk(SEXT,w+1,b)); return ret(NOT(mk(EQ,1,s,mk(SEXT,w+1,mkExtract(s,0,w))))); }
  case 34: { unsigned W=2*w; Node* s=mk(MUL,W,mk(ZEXT,W,a),mk(ZEXT,W,b)); Node* hi=mkExtract(s,w,w); return ret(NOT(mk(EQ,1,hi,K(0,w)))); }
  default: fail("engine","intrinsic "+std::to_string(k)); }
}
void symx_unmodelled(char const* n){ if(g_on) fail("engine",std::string("call to unmodelled external ")+n); }

// ---- shadow memory: one term per byte
struct Page{ u64 addr; u32 count; Node* b[4096]; };
static Page* g_pages[1<<16]; static std::unordered_map<u64,Page*>* g_pmap;
static inline Page* page(u64 a){ Page* p=g_pages[(a>>12)&0xffff]; if(!p) return nullptr; if(p->addr==(a>>12)) return p; auto it=g_pmap->find(a>>12); return it==g_pmap->end()?nullptr:it->second; }
static Page* pageMk(u64 a){ Page* p=page(a); if(p) return p; p=(Page*)calloc(1,sizeof(Page)); p->addr=a>>12; (*g_pmap)[a>>12]=p; if(!g_pages[(a>>12)&0xffff]) g_pages[(a>>12)&0xffff]=p; return p; }
static inline Node* bget(u64 a){ Page* p=page(a); return p?p->b[a&4095]:nullptr; }
static inline void bset(u64 a,Node* n){ if(!n){ Page* p=page(a); if(p&&p->b[a&4095]){ p->b[a&4095]=nullptr; --p->count; } return; } Page* p=pageMk(a); if(!p->b[a&4095]) ++p->count; p->b[a&4095]=n; }
static bool anySym(u64 a,u64 n){ u64 e=a+n; while(a<e){ Page* p=page(a); u64 nx=(a|4095)+1; if(nx>e) nx=e; if(p&&p->count) for(u64 i=a;i<nx;++i) if(p->b[i&4095]) return true; a=nx; } return false; }
static Node* loadN(u64 a,unsigned n){ bool any=false; for(unsigned i=0;i<n;++i) if(bget(a+i)) any=true; if(!any) return nullptr; Node* r=nullptr; for(unsigned i=0;i<n;++i){ Node* x=bget(a+i); if(!x) x=K(*(u8*)(a+i),8); r=r?mk(CONCAT,r->w+8,x,r):x; } return r; }
E symx_load(u64 a,u32 n,E ae,u64 off,u32 site){
  raceAcc(a,n,false);
  if(ae){ Node* x=off?mk(ADD,64,N(ae),K(off,64)):N(ae); if(!isK(x)&&g_on){
      bool fin=false; if(n<=8) for(unsigned mi=0;mi<g_nmods&&!fin;++mi) for(u64 i=0;i<g_mods[mi].ncg;++i){ u64 g=g_mods[mi].cg[2*i],sz=g_mods[mi].cg[2*i+1]; if(a>=g&&a+n<=g+sz&&sz/n<=1024){
        // stride from the term: multiples of n from the current address
        u64 first=a; while(first>=g+n) first-=n; std::vector<u64> ads; for(u64 q=first;q+n<=g+sz;q+=n) ads.push_back(q);
        Node* in=K(0,1); for(u64 q:ads) in=mk(OR,1,in,mk(EQ,1,x,K(q,64))); std::vector<std::pair<u64,u64>> m; if(implied(in)||solve({NOT(in)},m)=='U'){
          Node* r=nullptr; for(u64 q:ads){ u64 v=0; memcpy(&v,(void*)q,n); Node* k=K(v,n*8); r=r?mk(ITE,n*8,mk(EQ,1,x,K(q,64)),k,r):k; } return ret(r); } fin=true; break; } }
      symx_conc(site,(E)x); } }
  Page* p=g_pages[(a>>12)&0xffff]; Page* p2=g_pages[((a+n-1)>>12)&0xffff]; if(!p&&!p2) return 0;
  Node* r=loadN(a,n); if(!r) return 0; return ret(r);
}
void symx_store(u64 a,u32 n,E e){
  raceAcc(a,n,true);
  if(!e){ Page* p=g_pages[(a>>12)&0xffff]; Page* p2=g_pages[((a+n-1)>>12)&0xffff]; if(!p&&!p2) return; for(u32 i=0;i<n;++i) bset(a+i,nullptr); return; }
  Node* v=N(e); if(v->w!=n*8) fail("engine","store width"); for(u32 i=0;i<n;++i){ Node* b=mkExtract(v,i*8,8); bset(a+i,isK(b)?nullptr:b); }
}
void symx_clear(void* p,u64 n){ u64 a=(u64)p,e=a+n; while(a<e){ Page* g=page(a); u64 nx=(a|4095)+1; if(nx>e) nx=e; if(g&&g->count) for(u64 i=a;i<nx;++i) if(g->b[i&4095]){ g->b[i&4095]=nullptr; --g->count; } a=nx; } }
void symx_shcopy(void* d,u64 s,u64 n){ if(!n) return; if(symx_tid>=0){ if(s) raceAcc(s,n,false); raceAcc((u64)d,n,true); } if(!s){ symx_clear(d,n); return; } u64 da=(u64)d; if(da==s) return; if(!anySym(s,n)){ symx_clear(d,n); return; }
  std::vector<Node*> t(n); for(u64 i=0;i<n;++i) t[i]=bget(s+i); for(u64 i=0;i<n;++i) bset(da+i,t[i]); }
void symx_shset(void* d,E v,u64 n){ raceAcc((u64)d,n,true); if(!v){ symx_clear(d,n); return; } Node* b=N(v); for(u64 i=0;i<n;++i) bset((u64)d+i,b); }
// ---- library wrappers (shadow aware: arguments' shadows are in __symx_args)
static void concArgs(unsigned n){ E s[8]; for(unsigned i=0;i<n;++i) s[i]=__symx_args[i]; for(unsigned i=0;i<n;++i) symx_conc(900000+i,s[i]); __symx_ret[0]=0; }
int symx_w_memcmp(void const* a,void const* b,u64 n){ concArgs(3); int r=memcmp(a,b,n); 
  if(g_on&&(anySym((u64)a,n)||anySym((u64)b,n))){ Node* res=K(0,32); for(u64 i=n;i-->0;){ Node *x=bget((u64)a+i),*y=bget((u64)b+i); if(!x) x=K(((u8*)a)[i],8); if(!y) y=K(((u8*)b)[i],8); res=mk(ITE,32,mk(EQ,1,x,y),res,mk(ITE,32,mk(ULT,1,x,y),K(0xffffffffu,32),K(1,32))); } r=r<0?-1:r>0; __symx_ret[0]=ret(res); }
  else __symx_ret[0]=0; return r<0?-1:r>0; }
static void concMem(void const* p,u64 n){ if(!g_on) return; for(u64 i=0;i<n;++i) if(Node* b=bget((u64)p+i)) symx_conc(910000,(E)b); }
u64 symx_w_strlen(char const* s){ concArgs(1); u64 n=0; for(;;++n){ concMem(s+n,1); if(!s[n]) break; } __symx_ret[0]=0; return n; }
void* symx_w_memchr(void const* s,int c,u64 n){ concArgs(3); concMem(s,n); __symx_ret[0]=0; return (void*)memchr(s,c,n); }
int symx_w_strcmp(char const* a,char const* b){ concArgs(2); symx_w_strlen(a); symx_w_strlen(b); __symx_ret[0]=0; return strcmp(a,b); }
void* symx_w_memcpy(void* d,void const* s,u64 n){ concArgs(3); symx_shcopy(d,(u64)s,n); memcpy(d,s,n); return d; }
void* symx_w_memmove(void* d,void const* s,u64 n){ concArgs(3); symx_shcopy(d,(u64)s,n); memmove(d,s,n); return d; }
void* symx_w_memset(void* d,int c,u64 n){ E v=__symx_args[1]; symx_conc(1,__symx_args[0]); symx_conc(1,__symx_args[2]); symx_shset(d,v?ret(mkExtract(N(v),0,8)):0,n); memset(d,c,n); __symx_ret[0]=0; return d; }
u64 symx_w_hash_bytes(void const* p,u64 n,u64 seed); 
u64 symx_w_now(){ static u64 t=1000000; return t+=1000; }
[[noreturn]] void symx_w_assert_fail(char const* e,char const* f,unsigned l,char const* fn){ (void)f;(void)fn;(void)l; fail("crash",std::string("assertion failed: ")+e); }
[[noreturn]] void symx_w_abort(){ fail("crash","abort called"); }
}
namespace std{ size_t _Hash_bytes(const void*,size_t,size_t); }
extern "C" u64 symx_w_hash_bytes(void const* p,u64 n,u64 seed){ concArgs(3); concMem(p,n); __symx_ret[0]=0; return std::_Hash_bytes(p,n,seed); }

// ------------------------------------------------------------------ harness API
static u32 g_scen=0,g_tier=0; static bool g_vacuity=false;
static u64 strh(char const* s){ u64 h=14695981039346656037ull; while(*s){ h=(h^(u8)*s++)*1099511628211ull; } return h; }
static u64 newVar(char const* name,unsigned w,u64 lo,u64 hi,u64 const* vals,u32 n){
  Var v; v.name=name; v.lo=lo; v.hi=hi; v.nh=strh(name); int occ=0; for(auto& o:g_vars) if(o.name==name||o.name.rfind(std::string(name)+"#",0)==0) ++occ; if(occ){ v.name+="#"+std::to_string(occ); v.nh=strh(v.name.c_str()); }
  u64 idx=g_vars.size(); if(idx>=128) fail("engine","too many symbolic inputs");
  Node* x=mkraw(VAR,w,nullptr,nullptr,nullptr,idx); x->h=mix(v.nh,w); x->h2=mix(w,v.nh*3+1); x->vs[idx/64]|=1ull<<(idx%64);
  u64 val=vals?vals[0]:lo; for(auto& p:g_item->in) if(p.first==v.nh) val=p.second; 
  if(vals){ bool ok=false; for(u32 i=0;i<n;++i) ok|=vals[i]==val; if(!ok) val=vals[0]; } else if(val<lo||val>hi) val=lo;
  x->cv=val; v.n=x; g_vars.push_back(v);
  if(vals){ Node* o=K(0,1); for(u32 i=0;i<n;++i) o=mk(OR,1,o,mk(EQ,1,x,K(vals[i],w))); addPC(o); }
  else { if(lo) addPC(mk(ULE,1,K(lo,w),x)); if(hi<mask(w)) addPC(mk(ULE,1,x,K(hi,w))); }
  Node* r=w<64?mk(ZEXT,64,x):x; __symx_ret[0]=ret(r); return val;
}
extern "C" {
u64 sym_range(char const* name,u64 lo,u64 hi){ if(lo==hi){ __symx_ret[0]=0; return lo; } unsigned w=1; while(w<64&&(hi>>w)) ++w; return newVar(name,w,lo,hi,nullptr,0); }
u64 sym_bits(char const* name,u32 w){ return newVar(name,w,0,mask(w),nullptr,0); }
u64 sym_oneof(char const* name,u64 const* vals,u32 n){ u64 hi=0; for(u32 i=0;i<n;++i) hi|=vals[i]; if(n==1){ __symx_ret[0]=0; return vals[0]; } unsigned w=1; while(w<64&&(hi>>w)) ++w; return newVar(name,w,0,0,vals,n); }
u64 sym_fork(u64 v){ symx_conc(800003,__symx_args[0]); __symx_ret[0]=0; return v; }
void sym_assume(bool c){ E e=__symx_args[0]; if(e&&N(e)->w==1) symx_br(800001,e,c); else if(e) symx_conc(800002,e); if(!c){ g_pruned=true; endRun(); } }
static void dumpModel(std::vector<std::pair<u64,u64>> const& m,std::vector<std::pair<std::string,u64>>& in){ for(auto& v:g_vars){ u64 x=v.n->cv; for(auto& p:m) if(p.first==v.nh) x=p.second; in.push_back({v.name,x}); } }
void sym_check(bool c,char const* msg){
  E e=__symx_args[0]; ++st.checks; if(!c){ sendViolation("check",msg,curInputs()); flushOut(); _exit(0); }
  if(!e) return; Node* n=N(e); if(n->w!=1) fail("engine","check width"); if(!n->cv) fail("engine","shadow term disagrees with the executed value (check)"); if(implied(n)) return; ++st.checkq;
  std::vector<std::pair<u64,u64>> m; char r=solve({NOT(n)},m); if(r=='S'){ std::vector<std::pair<std::string,u64>> in; dumpModel(m,in); sendViolation("check",msg,in); flushOut(); _exit(0); }
  if(r=='U') addPC(n); }
void sym_check_kf(bool c,bool known,char const* id,char const* msg){
  E ec=__symx_args[0],ek=__symx_args[1]; bool listed=g_kfids->count(id); Node* nc=L(ec,c,1); Node* nk=listed?L(ek,known,1):K(0,1); ++st.checks;
  Node* bad=mk(AND,1,NOT(nc),NOT(nk)); if(bad->cv){ sendViolation("check",msg,curInputs()); flushOut(); _exit(0); }
  std::vector<std::pair<u64,u64>> m; if(!isK(bad)&&!implied(NOT(bad))){ ++st.checkq; if(solve({bad},m)=='S'){ std::vector<std::pair<std::string,u64>> in; dumpModel(m,in); sendViolation("check",msg,in); flushOut(); _exit(0);} }
  Node* kf=mk(AND,1,NOT(nc),nk); bool hit=kf->cv; std::vector<std::pair<std::string,u64>> in; if(hit) in=curInputs(); else if(!isK(kf)&&!implied(NOT(kf))&&solve({kf},m)=='S'){ hit=true; dumpModel(m,in);} 
  if(hit){ g_out+='N'; pstr(id); pstr(msg); p32(in.size()); for(auto& x:in){ pstr(x.first); p64(x.second);} }
}
void sym_obs(u64 v){ g_obs=(g_obs^v)*1099511628211ull; g_obs^=g_obs>>31; ++g_nobs; }
void sym_reach(char const* w){ for(auto& r:*g_reach) if(r==w) return; g_reach->push_back(w); }
u32 sym_scenario(){ __symx_ret[0]=0; return g_scen; }
u32 sym_tier(){ __symx_ret[0]=0; return g_tier; }
}
// ------------------------------------------------------------------ driver
static void onsig(int s){ fail("crash",s==SIGSEGV?"invalid memory access":s==SIGFPE?"arithmetic trap":s==SIGABRT?"abort":s==SIGILL?"illegal instruction":s==SIGALRM?"no termination":"signal"); }
static void runItem(Item& it,int fd){
  g_fd=fd; g_item=&it; g_on=true; g_newcache->clear();
  static char alt[1<<16]; stack_t ss{}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa{}; sa.sa_handler=onsig; sa.sa_flags=SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT,SIGILL,SIGALRM}) sigaction(s,&sa,nullptr);
  int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!getenv("SYMX_STDERR")) dup2(dn,2);
  try{ sym_main(); } catch(std::exception const& e){ fail("crash",std::string("uncaught exception: ")+e.what()); } catch(...){ fail("crash","uncaught exception"); }
  endRun();
}
struct Rd{ std::string const& s; size_t o=0; bool ok=true; Rd(std::string const& x):s(x){} template<class T>T g(){ T v{}; if(o+sizeof(T)>s.size()){ ok=false; return v;} memcpy(&v,s.data()+o,sizeof(T)); o+=sizeof(T); return v;} std::string str(){ u32 n=g<u32>(); if(!ok||o+n>s.size()){ ok=false; return "";} std::string r=s.substr(o,n); o+=n; return r; } };
static std::string jesc(std::string const& s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((u8)c<32) r+=' '; else r+=c; } return r; }

int main(int argc,char** argv){
  if(!(personality(0xffffffff)&ADDR_NO_RANDOMIZE)){ personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe",argv); }
  { rlimit rl{256<<20,256<<20}; setrlimit(RLIMIT_STACK,&rl); rlimit c{0,0}; setrlimit(RLIMIT_CORE,&c); }
  std::string out="/dev/stdout"; double budget=600; int jobs=8; u64 maxsamples=40; unsigned runTmo=60; std::string kf; bool keep=false; u64 seed=1;
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);}; if(a=="--out") out=nx(); else if(a=="--scenario") g_scen=std::stoul(nx()); else if(a=="--budget") budget=std::stod(nx()); else if(a=="--jobs") jobs=std::stoi(nx()); else if(a=="--tier") g_tier=std::stoul(nx()); else if(a=="--samples") maxsamples=std::stoul(nx()); else if(a=="--kf") kf=nx(); else if(a=="--runtmo") runTmo=std::stoul(nx()); else if(a=="--keep") keep=true; else if(a=="--seed") seed=std::stoull(nx()); else if(a=="--smttmo") g_tmo=std::stoul(nx()); }
  g_tab=new Tab; g_pcset=new std::unordered_set<Node*>; g_cache=new Cache; g_newcache=new std::vector<std::pair<Key,CacheVal>>; g_reach=new std::vector<std::string>; g_kfids=new std::set<std::string>;  if(!g_pmap) g_pmap=new std::unordered_map<u64,Page*>;
  { std::string c; for(char ch:kf+","){ if(ch==','){ if(!c.empty()) g_kfids->insert(c); c.clear(); } else c+=ch; } }
  Z3_config cfg=Z3_mk_config(); z=Z3_mk_context(cfg); Z3_set_error_handler(z,[](Z3_context c,Z3_error_code e){ fail("engine",std::string("z3: ")+Z3_get_error_msg(c,e)); });
  std::vector<Item> work; work.push_back(Item{}); double t0=now();
  struct Ch{ pid_t pid; int fd; std::string buf; Item it; double start; }; std::vector<Ch> run;
  Stats tot; u64 paths=0,pruned=0,events=0,maxdepth=0; std::set<std::string> reach; u64 nfn=0; for(unsigned i=0;i<g_nmods;++i) nfn+=g_mods[i].nfn; std::vector<u8> fn(nfn,0);
  struct Viol{ std::string kind,msg; std::vector<std::pair<std::string,u64>> in; }; std::vector<Viol> viol; std::map<std::string,Viol> known; bool stop=false; 
  struct Samp{ std::vector<std::pair<std::string,u64>> in; u64 obs,nobs; }; std::vector<Samp> samples; u64 seen=0; u64 rng=seed*0x9E3779B97F4A7C15ull+1; auto rnd=[&]{ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; };
  bool timedout=false; std::string engineErr;
  while((!work.empty()||!run.empty())&&!stop){
    if(now()-t0>budget){ timedout=true; break; }
    while(!work.empty()&&(int)run.size()<jobs){
      size_t pick=work.size()-1; if(rnd()%8==0) pick=rnd()%work.size(); std::swap(work[pick],work.back());
      Item it=std::move(work.back()); work.pop_back(); int pf[2]; if(pipe2(pf,O_CLOEXEC)) { perror("pipe"); return 3; } fcntl(pf[1],F_SETPIPE_SZ,1<<20);
      pid_t p=fork(); if(p==0){ close(pf[0]); rlimit rl{runTmo,runTmo+5}; setrlimit(RLIMIT_CPU,&rl); struct sigaction sa{}; sa.sa_handler=[](int){ fail("crash","no termination"); }; sigaction(SIGXCPU,&sa,nullptr); runItem(it,pf[1]); }
      close(pf[1]); run.push_back({p,pf[0],"",std::move(it),now()}); }
    std::vector<pollfd> pl; for(auto& c:run) pl.push_back({c.fd,POLLIN,0}); poll(pl.data(),pl.size(),200);
    for(size_t i=pl.size();i-->0;){ if(!pl[i].revents) { if(now()-run[i].start>runTmo*4+g_tmo/200){ kill(run[i].pid,SIGKILL); } continue; }
      char tmp[65536]; ssize_t r=read(run[i].fd,tmp,sizeof tmp); if(r>0){ run[i].buf.append(tmp,r); continue; }
      Ch c=std::move(run[i]); run.erase(run.begin()+i); close(c.fd); int ws; waitpid(c.pid,&ws,0);
      Rd d(c.buf); bool complete=false; std::vector<Item> ni; std::vector<std::pair<std::string,u64>> vars; 
      while(d.ok&&d.o<c.buf.size()&&!complete){ char t=d.g<char>();
        if(t=='I'){ Item n; u32 k=d.g<u32>(); for(u32 j=0;j<k&&d.ok;++j){ u64 a=d.g<u64>(),b=d.g<u64>(); n.in.push_back({a,b}); } n.bound=d.g<u32>(); n.expect=d.g<u64>(); n.depth=d.g<u32>(); k=d.g<u32>(); for(u32 j=0;j<k&&d.ok;++j){ u32 ev=d.g<u32>(),m=d.g<u32>(); std::vector<u64> v; for(u32 q=0;q<m&&d.ok;++q) v.push_back(d.g<u64>()); n.excl.push_back({ev,v}); } if(d.ok) ni.push_back(std::move(n)); }
        else if(t=='V'||t=='N'){ Viol v; v.kind=t=='V'?d.str():"known"; std::string id; if(t=='N') id=d.str(); v.msg=d.str(); u32 k=d.g<u32>(); for(u32 j=0;j<k&&d.ok;++j){ std::string n=d.str(); u64 x=d.g<u64>(); v.in.push_back({n,x}); } if(t=='N') known.emplace(id,v); else if(v.kind=="engine"){ engineErr=v.msg; stop=true; viol.push_back(v);} else { viol.push_back(v); if(!keep) stop=true; } }
        else if(t=='S'){ Stats s=d.g<Stats>(); u64 ev=d.g<u64>(),ob=d.g<u64>(),nob=d.g<u64>(); char pr=d.g<char>(); tot.queries+=s.queries;tot.cached+=s.cached;tot.sat+=s.sat;tot.unsat+=s.unsat;tot.unknown+=s.unknown;tot.checks+=s.checks;tot.checkq+=s.checkq;tot.conc+=s.conc;tot.t+=s.t; events+=ev>c.it.depth?ev-c.it.depth:0; maxdepth=std::max(maxdepth,ev);
           u32 k=d.g<u32>(); for(u32 j=0;j<k&&d.ok;++j){ std::string n=d.str(); u64 x=d.g<u64>(); vars.push_back({n,x}); }
           if(pr) ++pruned; else { ++paths; ++seen; if(samples.size()<maxsamples) samples.push_back({vars,ob,nob}); else { u64 q=rnd()%seen; if(q<maxsamples) samples[q]={vars,ob,nob}; } } }
        else if(t=='R') reach.insert(d.str());
        else if(t=='C'){ Key k; k.a=d.g<u64>(); k.b=d.g<u64>(); CacheVal v; v.res=d.g<char>(); u32 n=d.g<u32>(); for(u32 j=0;j<n&&d.ok;++j){ u64 a=d.g<u64>(),b=d.g<u64>(); v.m.push_back({a,b}); } if(d.ok&&g_cache->size()<400000) (*g_cache)[k]=v; }
        else if(t=='F'){ u64 n=d.g<u64>(); if(d.o+n<=c.buf.size()) for(u64 j=0;j<n;++j) fn[j]|=c.buf[d.o+j]; d.o+=n; }
        else if(t=='E') complete=true; else { d.ok=false; } }
      if(!complete){ Viol v; v.kind="crash"; v.msg="run ended abnormally (status "+std::to_string(ws)+")"; v.in={}; for(auto& x:c.it.in) v.in.push_back({"@"+std::to_string(x.first),x.second}); viol.push_back(v); stop=true; }
      for(auto& n:ni) work.push_back(std::move(n));
    }
  }
  u64 left=work.size()+run.size(); for(auto& c:run){ kill(c.pid,SIGKILL); int ws; waitpid(c.pid,&ws,0);} 
  FILE* f=fopen(out.c_str(),"w"); if(!f){ perror(out.c_str()); return 3; }
  fprintf(f,"{\"scenario\":%u,\"paths\":%lu,\"pruned\":%lu,\"events\":%lu,\"maxdepth\":%lu,\"queries\":%lu,\"cached\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"checks\":%lu,\"check_queries\":%lu,\"concretised\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"left\":%lu,\"timedout\":%s,\n",g_scen,paths,pruned,events,maxdepth,tot.queries,tot.cached,tot.sat,tot.unsat,tot.unknown,tot.checks,tot.checkq,tot.conc,tot.t,now()-t0,left,timedout?"true":"false");
  auto ins=[&](std::vector<std::pair<std::string,u64>> const& in){ fprintf(f,"{"); bool first=true; for(auto& x:in){ fprintf(f,"%s\"%s\":%lu",first?"":",",jesc(x.first).c_str(),x.second); first=false; } fprintf(f,"}"); };
  fprintf(f,"\"reach\":["); bool first=true; for(auto& r:reach){ fprintf(f,"%s\"%s\"",first?"":",",jesc(r).c_str()); first=false; }
  fprintf(f,"],\n\"violations\":["); first=true; for(auto& v:viol){ fprintf(f,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"in\":",first?"":",",v.kind.c_str(),jesc(v.msg).c_str()); ins(v.in); fprintf(f,"}"); first=false; }
  fprintf(f,"],\n\"known\":["); first=true; for(auto& v:known){ fprintf(f,"%s{\"id\":\"%s\",\"msg\":\"%s\",\"in\":",first?"":",",jesc(v.first).c_str(),jesc(v.second.msg).c_str()); ins(v.second.in); fprintf(f,"}"); first=false; }
  fprintf(f,"],\n\"samples\":["); first=true; for(auto& s:samples){ fprintf(f,"%s{\"obs\":\"%lx\",\"nobs\":%lu,\"in\":",first?"":",",s.obs,s.nobs); ins(s.in); fprintf(f,"}\n"); first=false; }
  fprintf(f,"],\n\"functions\":["); first=true; { std::set<std::string> names; u64 k=0; for(unsigned mi=0;mi<g_nmods;++mi){ char const* p=g_mods[mi].names; for(u64 i=0;i<g_mods[mi].nfn;++i,++k){ char const* e=strchr(p,'\n'); if(fn[k]) names.insert(std::string(p,e-p)); p=e+1; } } for(auto& n:names){ fprintf(f,"%s\"%s\"",first?"":",",n.c_str()); first=false; } }
  fprintf(f,"]}\n"); fclose(f);
  if(!engineErr.empty()) return 3; if(!viol.empty()) return 1; if(timedout||tot.unknown) return 2; return 0;
}
