// C17: submission waits on what it must and fences are waited before reset
#include "common.hpp"
using namespace hc;
namespace {
VkSemaphore sem() { return fk::mk< VkSemaphore >( fk::add( fk::TSem ) ); }
void submit( uint32_t n ) {
	auto ctx = fk::context(); ResourceHandler handler; Log log; FrameGraph g{ handler, "g" }; g.createPass( "p", marker( 0, log ) ); auto run = g.compile( *ctx ); fk::w().on |= fk::FENCE;
	VkSemaphore const s[3]{ VkSemaphore{}, sem(), sem() }; VkQueue queue = fk::mk< VkQueue >( 0x51 ); SemaphoreWaitArray waits; std::vector< uint32_t > which, mask; for ( uint32_t i = 0; i < n; ++i ) { auto x = std::to_string( i ); which.push_back( forkIdx( "sem" + x, 3 ) ); mask.push_back( uint32_t( sym_bits( ( "stage" + x ).c_str(), 32 ) ) ); waits.push_back( { s[which[i]], mask[i] } ); }
	size_t before = fk::w().submits.size(); uint32_t form = n == 1 ? forkIdx( "form", 2 ) : n == 0 ? 1 - forkIdx( "form", 2 ) : 0; SemaphoreWaitArray res = n == 0 && form ? run->run( queue ) : n == 1 && form ? run->run( waits[0], queue ) : run->run( waits, queue );
	sym_check( fk::w().submits.size() == before + 1, "running a graph does not submit exactly one batch" ); auto & b = fk::w().submits.back(); sym_check( b.queue == queue, "the batch goes to another queue" ); sym_check( b.waits.size() == b.stages.size(), "a wait has no stage" );
	for ( uint32_t k = 1; k < 3; ++k ) { bool want = false; uint32_t m = 0; for ( uint32_t i = 0; i < n; ++i ) if ( which[i] == k ) { want = true; m |= mask[i]; } uint32_t seen = 0; for ( size_t i = 0; i < b.waits.size(); ++i ) if ( b.waits[i] == s[k] ) { ++seen; sym_check( b.stages[i] == m, "a semaphore is not waited for at all the requested stages" ); sym_reach( "wait" ); } sym_check( seen == ( want ? 1u : 0u ), "a requested semaphore is not waited for exactly once, or another one is" ); }
	for ( auto x : b.waits ) sym_check( x == s[1] || x == s[2], "a null or foreign semaphore is waited for" );
	sym_check( res.size() == 1 && res[0].semaphore && b.signals.size() == 1 && b.signals[0] == res[0].semaphore, "the returned semaphore is not the one the batch signals" ); sym_check( ( res[0].dstStageMask & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) != 0, "the returned wait does not cover the stages of the last pass" );
	sym_check( b.cbs.size() == 1 && b.fence == VkFence( run->getFence() ), "the batch does not run the graph's commands under its fence" ); size_t marks = 0; for ( auto & c : fk::w().cmds ) if ( c.kind == fk::CMark && c.cb == b.cbs[0] ) ++marks; sym_check( marks == 1, "the batch does not hold the pass's commands" ); sym_reach( "submit" );
}
// a fence alone: any sequence of submissions, waits that may time out and resets
void fence( uint32_t steps ) {
	auto ctx = fk::context(); { Fence f{ *ctx, "f", { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }; std::unique_ptr< Fence > moved; auto cur = [&]() -> Fence & { return moved ? *moved : f; }; fk::w().on |= fk::FENCE; bool ready = false;
	for ( uint32_t t = 0; t < steps; ++t ) { std::string p = "s" + std::to_string( t ); uint32_t op = forkIdx( p, 5 ); auto h = VkFence( cur() );
		if ( op == 0 && !ready ) { cur().reset(); ready = true; sym_check( !fk::at( h ).signaled, "a fence is still signaled after its reset" ); sym_reach( "reset" ); }
		if ( op == 1 && ready ) { VkSubmitInfo i{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0, nullptr, nullptr, 0, nullptr, 0, nullptr }; ctx->vkQueueSubmit( VkQueue{}, 1, &i, cur() ); ready = false; }
		if ( op == 2 && !ready ) { sym_check( cur().wait( ~0ull ) == VK_SUCCESS, "an unlimited wait fails" ); sym_check( !fk::at( h ).pending, "a wait returns before the fence is signaled" ); }
		if ( op == 3 && !ready && fk::at( h ).pending ) { fk::w().failKinds = fk::FWait; fk::w().failing = flag( p + "late" ); fk::w().failed = false; fk::w().failAt = 0; fk::w().fallible = 0; auto r = cur().wait( 5 ); fk::w().failKinds = 0; sym_check( ( r == VK_SUCCESS ) == !fk::at( h ).pending, "a wait hides that it timed out" ); sym_reach( r == VK_SUCCESS ? "in-time" : "timeout" ); }
		if ( op == 4 && !moved ) { moved = std::make_unique< Fence >( std::move( f ) ); sym_check( VkFence( *moved ) == h && !VkFence( f ), "moving a fence loses or duplicates it" ); }
	} if ( fk::at( VkFence( cur() ) ).pending ) cur().wait( ~0ull ); }
	sym_check( fk::live( fk::TFence ) == 0, "a fence is not destroyed once" ); sym_reach( "fence" );
}
// a graph: any sequence of records, runs and waits
void sequence( uint32_t steps ) {
	auto ctx = fk::context(); ResourceHandler handler; Log log; FrameGraph g{ handler, "g" }; uint64_t on = 1; PassOpt o; o.enabled = [&on]() { return on != 0; }; g.createPass( "p", marker( 0, log, o ) ); auto run = g.compile( *ctx ); fk::w().on |= fk::FENCE | fk::INFLIGHT;
	for ( uint32_t t = 0; t < steps; ++t ) { std::string p = "s" + std::to_string( t ); uint32_t op = forkIdx( p, 5 ); size_t before = fk::w().submits.size();
		if ( op == 0 ) run->record(); if ( op == 1 ) { on = forkIdx( p + "on", 2 ); auto r = run->run( VkQueue{} ); sym_check( fk::w().submits.size() == before + 1 && r.size() == 1, "running a graph does not submit exactly one batch" ); sym_check( fk::at( VkFence( run->getFence() ) ).pending, "a batch does not signal the graph's fence" ); sym_reach( "run" ); }
		if ( op == 2 ) run->getFence().wait( ~0ull ); if ( op == 3 ) { fk::w().failKinds = fk::FWait; fk::w().failing = true; fk::w().failed = false; fk::w().failAt = 0; fk::w().fallible = 0; run->getFence().wait( 5 ); fk::w().failKinds = 0; }
		if ( op == 4 && fk::at( VkFence( run->getFence() ) ).pending ) fk::complete( run->getFence() );
		if ( op != 1 ) sym_check( fk::w().submits.size() == before, "something other than a run submits" ); }
	run->getFence().wait( ~0ull ); sym_reach( "sequence" );
}
}
extern "C" void sym_main() { switch ( sym_scenario() ) { case 0: submit( 0 ); break; case 1: submit( 1 ); break; case 2: submit( 3 ); break; case 3: fence( 4 ); break; case 4: sequence( 4 ); break; case 5: submit( 4 ); break; case 6: fence( 6 ); break; case 7: sequence( 6 ); break; } }
