// What the ordinary build of a harness with threads is linked with: sees each access to the memory through the compiler's thread
// instrumentation (the sanitiser's own runtime is not used), and gives out memory that is never used again.
#include "race.h"
#include <cstdlib>
#include <new>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
extern "C" void sym_check(bool c,char const* msg);
extern "C" int symx_tid; int symx_tid=-1;
static char* arena; static u64 brk_; static u64 const SZ=1ull<<30;
static void need(){ if(!arena){ void* p=mmap(nullptr,SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) abort(); arena=(char*)p; } }
static inline void acc(void const* p,u64 n,bool w){ if(symx_tid>=0){ int t=symx_tid; if(race::access(t,(u64)p,n,w)){ symx_tid=-1; sym_check(false,race::MSG); } } }
static u64 const MAGIC=0x51AB1EA11FE0001ull;
void* operator new(size_t n){ need(); u64 t=(n+15)/16*16+32; if(brk_+t>SZ) throw std::bad_alloc(); u64* h=(u64*)(arena+brk_); brk_+=t; h[0]=n; h[1]=MAGIC; memset(h+2,0xCD,n); return h+2; }
void operator delete(void* p)noexcept{ if(!p) return; u64* h=(u64*)p-2; if(h[1]!=MAGIC){ symx_tid=-1; sym_check(false,"double free"); } acc(p,h[0],true); h[1]=0; memset(p,0xDD,h[0]); }
void operator delete(void* p,size_t)noexcept{ operator delete(p); }
extern "C" {
void symx_threads(){ need(); race::begin((u64)arena); }
void symx_acquire(void* o){ race::acquire(symx_tid,(u64)o); }
void symx_release(void* o){ race::release(symx_tid,(u64)o); }
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void* p){ acc(p,n,false); } void __tsan_write##n(void* p){ acc(p,n,true); } void __tsan_unaligned_read##n(void* p){ acc(p,n,false); } void __tsan_unaligned_write##n(void* p){ acc(p,n,true); } void __tsan_volatile_read##n(void* p){ acc(p,n,false); } void __tsan_volatile_write##n(void* p){ acc(p,n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p,unsigned long n){ acc(p,n,false); } void __tsan_write_range(void* p,unsigned long n){ acc(p,n,true); }
void __tsan_vptr_update(void** p,void* v){ if(*p!=v) acc(p,8,true); } void __tsan_vptr_read(void** p){ acc(p,8,false); }
static void sy(void const volatile* p){ race::acquire(symx_tid,(u64)p); race::release(symx_tid,(u64)p); }
#define AT(b,T) T __tsan_atomic##b##_load(T const volatile* a,int){ race::acquire(symx_tid,(u64)a); return *a; } void __tsan_atomic##b##_store(T volatile* a,T v,int){ race::release(symx_tid,(u64)a); *a=v; }\
T __tsan_atomic##b##_exchange(T volatile* a,T v,int){ sy(a); T o=*a; *a=v; return o; } T __tsan_atomic##b##_fetch_add(T volatile* a,T v,int){ sy(a); T o=*a; *a=o+v; return o; } T __tsan_atomic##b##_fetch_sub(T volatile* a,T v,int){ sy(a); T o=*a; *a=o-v; return o; }\
T __tsan_atomic##b##_fetch_and(T volatile* a,T v,int){ sy(a); T o=*a; *a=o&v; return o; } T __tsan_atomic##b##_fetch_or(T volatile* a,T v,int){ sy(a); T o=*a; *a=o|v; return o; } T __tsan_atomic##b##_fetch_xor(T volatile* a,T v,int){ sy(a); T o=*a; *a=o^v; return o; }\
int __tsan_atomic##b##_compare_exchange_strong(T volatile* a,T* e,T v,int,int){ sy(a); if(*a==*e){ *a=v; return 1; } *e=*a; return 0; } int __tsan_atomic##b##_compare_exchange_weak(T volatile* a,T* e,T v,int m,int f){ return __tsan_atomic##b##_compare_exchange_strong(a,e,v,m,f); }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
