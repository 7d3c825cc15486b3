// Threads of the user: cooperative, switched at symbolic steps: a lock or an unlock of a mutex, or a call of the stand-in device. Between two steps, accesses to the same memory that nothing orders are races.
// native: -D_GLIBCXX_EXTERN_TEMPLATE=0 -fsanitize=thread
// link: -Wl,--wrap=__cxa_guard_acquire -Wl,--wrap=__cxa_guard_release -Wl,--wrap=__cxa_guard_abort -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=pthread_mutex_trylock -Wl,--wrap=pthread_rwlock_rdlock -Wl,--wrap=pthread_rwlock_wrlock -Wl,--wrap=pthread_rwlock_unlock
#pragma once
#include "common.hpp"
#include <pthread.h>
#include <ucontext.h>
extern "C" { extern int symx_tid; void symx_threads(); void symx_acquire( void * ); void symx_release( void * ); extern char __libc_single_threaded; }
namespace th {
uint32_t const MaxThreads = 3, StackSize = 1u << 20, MaxLocks = 64;
struct Device { uint64_t rp{}, fb{}, bound[4]{}; };
struct Thread { Device dev; ucontext_t ctx; bool done{}, blocked{}; void * fake{}; std::function< void() > f; };
struct Lock { void * m{}; int owner{ -1 }; uint32_t depth{}, readers{}; };
struct Sched { Device mainDev; Thread t[MaxThreads]; ucontext_t main; void * mainFake{}; void const * mainStack{}; size_t mainSize{}; uint32_t count{}; int cur{ -1 }; bool busy{};  uint64_t step{}; uint32_t next{}, points{}; uint64_t at[4]{}; uint32_t to[4]{}; Lock locks[MaxLocks]; uint32_t switches{}; };
inline Sched & s() { static Sched x; return x; }
alignas( 16 ) static char stacks[MaxThreads][StackSize];
inline void track() { symx_tid = s().busy ? -1 : s().cur; }
struct Busy { bool old; Busy() : old{ s().busy } { s().busy = true; track(); } ~Busy() { s().busy = old; track(); } };
inline Device & dev( int i ) { return i < 0 ? s().mainDev : s().t[i].dev; }
inline void go( int to ) {
	int from = s().cur; { auto & d = dev( from ); d.rp = fk::w().openRP; d.fb = fk::w().openFB; std::memcpy( d.bound, fk::w().bound, sizeof d.bound ); auto & e = dev( to ); fk::w().openRP = e.rp; fk::w().openFB = e.fb; std::memcpy( fk::w().bound, e.bound, sizeof e.bound ); }
	 s().cur = to; ++s().switches; track();
	swapcontext( from < 0 ? &s().main : &s().t[from].ctx, to < 0 ? &s().main : &s().t[to].ctx ); track();
}
// the next thread that can go on, the k-th other one first
inline int other( uint32_t k ) { int first = -1; uint32_t n = 0; for ( uint32_t i = 1; i < s().count; ++i ) { int x = int( ( uint32_t( s().cur < 0 ? 0 : s().cur ) + i ) % s().count ); if ( s().t[x].done || s().t[x].blocked ) continue; if ( first < 0 ) first = x; if ( n++ == k ) return x; } return first; }
// a step: the schedule may give way to another thread here
inline void step() {
	if ( symx_tid < 0 ) return;
	s().busy = true; track(); bool give = s().next < s().points && s().step == s().at[s().next]; ++s().step; if ( give ) { uint32_t k = s().count > 2 ? s().to[s().next] : 0; ++s().next; int x = other( k ); if ( x >= 0 ) { sym_reach( "preempted" ); s().busy = false; go( x ); } } s().busy = false; track();
}
inline Lock & lockOf( void * m ) { for ( auto & l : s().locks ) { if ( l.m == m ) return l; if ( !l.m ) { l.m = m; return l; } } sym_check( false, "too many mutexes for the model" ); return s().locks[0]; }
inline void block() { auto me = s().cur; s().t[me].blocked = true; int x = other( 0 ); sym_check( x >= 0, "the threads wait for each other for ever" ); sym_reach( "blocked" ); go( x ); }
inline void wake() { for ( auto & x : s().t ) x.blocked = false; }
inline bool in() { return symx_tid >= 0; }
inline void acquire( void * m, bool write, bool recursive ) {
	step(); auto & l = lockOf( m ); if ( recursive && l.owner == s().cur ) { ++l.depth; return; }
	sym_check( l.owner != s().cur, "a thread locks a mutex it holds" ); while ( l.owner >= 0 || ( write && l.readers ) ) block();
	if ( write ) { l.owner = s().cur; l.depth = 1; } else ++l.readers;
	symx_acquire( m );
}
inline bool tryAcquire( void * m, bool recursive ) { step(); auto & l = lockOf( m ); if ( recursive && l.owner == s().cur ) { ++l.depth; return true; } if ( l.owner >= 0 || l.readers ) return false; l.owner = s().cur; l.depth = 1; symx_acquire( m ); return true; }
inline void release( void * m ) { symx_release( m ); auto & l = lockOf( m ); if ( l.owner >= 0 ) { sym_check( l.owner == s().cur, "a thread unlocks a mutex held by another one" ); if ( --l.depth ) return; l.owner = -1; } else { sym_check( l.readers > 0, "a mutex that is not locked is unlocked" ); --l.readers; } wake(); step(); }
inline void entry() {
	track(); auto me = s().cur; char const * bad = nullptr;
	try { s().t[me].f(); } catch ( ... ) { bad = "a thread is ended by an exception"; }
	s().busy = true; track(); sym_check( !bad, bad ); for ( auto & l : s().locks ) sym_check( l.owner != me, "a thread ends with a mutex locked" );
	s().t[me].done = true; int x = other( 0 ); if ( x < 0 ) for ( uint32_t i = 0; i < s().count; ++i ) sym_check( s().t[i].done, "the threads wait for each other for ever" ); s().busy = false; go( x );
}
// runs the threads until each is done, giving way at most 'points' times before it is needed, at any of the first 'steps' steps
inline void run( std::vector< std::function< void() > > fs, uint32_t points, uint64_t steps) {
	s().count = uint32_t( fs.size() ); s().points = points; 
	for ( uint32_t i = 0; i < points; ++i ) { auto n = "switch" + std::to_string( i ); s().at[i] = sym_range( n.c_str(), 0, steps ); if ( i ) sym_assume( s().at[i] > s().at[i - 1] ); if ( fs.size() > 2 ) s().to[i] = hc::forkIdx( n + "to", uint32_t( fs.size() - 1 ) ); }
	int first = int( hc::forkIdx( "first", uint32_t( fs.size() ) ) );
	for ( uint32_t i = 0; i < fs.size(); ++i ) { auto & t = s().t[i]; t.f = fs[i]; getcontext( &t.ctx ); t.ctx.uc_stack.ss_sp = stacks[i]; t.ctx.uc_stack.ss_size = StackSize; t.ctx.uc_link = nullptr; makecontext( &t.ctx, entry, 0 ); }
	symx_threads(); __libc_single_threaded = 0; go( first ); for ( uint32_t i = 0; i < fs.size(); ++i ) sym_check( s().t[i].done, "a thread does not end" );
	sym_assume( s().step < steps || s().points == 0 || sym_tier() < 2 ); sym_reach( s().next == points ? "all-switches" : "fewer-switches" );
}
// a stand-in entry point: one atomic step
template< auto Fn > struct Alone; template< typename R, typename... A, R ( *Fn )( A... ) > struct Alone< Fn > { static R call( A... a ) { Busy b; return Fn( a... ); } };
template< auto Fn > struct Atomic; template< typename R, typename... A, R ( *Fn )( A... ) > struct Atomic< Fn > { static R call( A... a ) { step(); Busy b; return Fn( a... ); } };
inline std::unique_ptr< crg::GraphContext > context() {
	auto c = fk::context();
#define TH( n ) c->vk##n = Atomic< fk::n >::call;
	TH( CreateImage ) TH( DestroyImage ) TH( CreateImageView ) TH( DestroyImageView ) TH( CreateSampler ) TH( DestroySampler ) TH( CreateBuffer ) TH( DestroyBuffer ) TH( AllocateMemory ) TH( FreeMemory ) TH( BindImageMemory ) TH( BindBufferMemory ) TH( GetImageMemoryRequirements ) TH( GetBufferMemoryRequirements ) TH( MapMemory ) TH( UnmapMemory ) TH( FlushMappedMemoryRanges )
	TH( CreateGraphicsPipelines ) TH( CreateComputePipelines ) TH( DestroyPipeline ) TH( CreatePipelineLayout ) TH( DestroyPipelineLayout ) TH( CreateDescriptorSetLayout ) TH( DestroyDescriptorSetLayout ) TH( CreateDescriptorPool ) TH( DestroyDescriptorPool ) TH( AllocateDescriptorSets ) TH( UpdateDescriptorSets ) TH( CreateRenderPass ) TH( DestroyRenderPass ) TH( CreateFramebuffer ) TH( DestroyFramebuffer )
	TH( CreateCommandPool ) TH( DestroyCommandPool ) TH( AllocateCommandBuffers ) TH( FreeCommandBuffers ) TH( CreateSemaphore ) TH( DestroySemaphore ) TH( BeginCommandBuffer ) TH( EndCommandBuffer ) TH( ResetCommandBuffer ) TH( QueueSubmit ) TH( CreateQueryPool ) TH( DestroyQueryPool ) TH( CreateFence ) TH( DestroyFence ) TH( WaitForFences ) TH( ResetFences ) TH( CreateEvent ) TH( DestroyEvent )
#undef TH
#define TH( n ) c->vk##n = Alone< fk::n >::call;
	TH( CmdBindPipeline ) TH( CmdBindDescriptorSets ) TH( CmdBindVertexBuffers ) TH( CmdBindIndexBuffer ) TH( CmdDispatch ) TH( CmdDraw ) TH( CmdDrawIndexed ) TH( CmdBeginRenderPass ) TH( CmdEndRenderPass ) TH( CmdPushConstants ) TH( CmdResetQueryPool ) TH( CmdWriteTimestamp ) TH( CmdPipelineBarrier ) TH( CmdBlitImage ) TH( CmdClearColorImage ) TH( GetQueryPoolResults ) TH( ResetEvent ) TH( SetEvent ) TH( GetEventStatus ) TH( GetFenceStatus )
#undef TH
	return c; }
}
extern "C" {
int __real_pthread_mutex_lock( pthread_mutex_t * ); int __real_pthread_mutex_unlock( pthread_mutex_t * ); int __real_pthread_mutex_trylock( pthread_mutex_t * ); int __real_pthread_rwlock_rdlock( pthread_rwlock_t * ); int __real_pthread_rwlock_wrlock( pthread_rwlock_t * ); int __real_pthread_rwlock_unlock( pthread_rwlock_t * );
static bool th_rec( pthread_mutex_t * m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock( pthread_mutex_t * m ) { if ( !th::in() ) return __real_pthread_mutex_lock( m ); th::acquire( m, true, th_rec( m ) ); return 0; }
int __wrap_pthread_mutex_unlock( pthread_mutex_t * m ) { if ( !th::in() ) return __real_pthread_mutex_unlock( m ); th::release( m ); return 0; }
int __wrap_pthread_mutex_trylock( pthread_mutex_t * m ) { if ( !th::in() ) return __real_pthread_mutex_trylock( m ); return th::tryAcquire( m, th_rec( m ) ) ? 0 : 16; }
int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t * m ) { if ( !th::in() ) return __real_pthread_rwlock_rdlock( m ); th::acquire( m, false, false ); return 0; }
int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t * m ) { if ( !th::in() ) return __real_pthread_rwlock_wrlock( m ); th::acquire( m, true, false ); return 0; }
int __wrap_pthread_rwlock_unlock( pthread_rwlock_t * m ) { if ( !th::in() ) return __real_pthread_rwlock_unlock( m ); th::release( m ); return 0; }
}
extern "C" {
int __real___cxa_guard_acquire( char * ); void __real___cxa_guard_release( char * ); void __real___cxa_guard_abort( char * );
int __wrap___cxa_guard_acquire( char * g ) { if ( !th::in() ) return __real___cxa_guard_acquire( g ); th::acquire( g, true, false ); if ( *g ) { th::release( g ); return 0; } return 1; }
void __wrap___cxa_guard_release( char * g ) { if ( !th::in() ) return __real___cxa_guard_release( g ); *g = 1; th::release( g ); }
void __wrap___cxa_guard_abort( char * g ) { if ( !th::in() ) return __real___cxa_guard_abort( g ); th::release( g ); }
}
