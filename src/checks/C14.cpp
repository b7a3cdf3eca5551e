// C14: submissions wait for what they must and never touch work still in flight.
#include "direct.hpp"
#include <RenderGraph/Exception.hpp>
using namespace gg;

namespace
{
	using Waits = std::vector< std::pair< uint64_t, VkPipelineStageFlags > >;

	// The semaphores to wait on, each once, with every stage it was given with.
	std::map< uint64_t, VkPipelineStageFlags > expected( Waits const & given )
	{
		std::map< uint64_t, VkPipelineStageFlags > r;
		for ( auto & [s, st] : given ) if ( s ) r[s] |= st;
		return r;
	}
	std::string show( std::map< uint64_t, VkPipelineStageFlags > const & m )
	{
		std::string r;
		for ( auto & [s, st] : m ) r += pbt::fmt( " %llu@0x%x", ( unsigned long long )s, st );
		return r.empty() ? " none" : r;
	}
	VkPipelineStageFlags stage( pbt::Tape & t )
	{
		return t.pick( { VkPipelineStageFlags( VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ), VkPipelineStageFlags( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ), VkPipelineStageFlags( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT )
			, VkPipelineStageFlags( VK_PIPELINE_STAGE_TRANSFER_BIT ), VkPipelineStageFlags( VK_PIPELINE_STAGE_TRANSFER_BIT | VK_PIPELINE_STAGE_VERTEX_SHADER_BIT ) } );
	}
}

PBT_CHECK( "C14", "waits", 60000, 600000, "the list repeats a semaphore or holds a null one" )
{
	auto & t = c.t;
	auto n = t.below( 12u );
	crg::SemaphoreWaitArray in;
	Waits given;
	bool rep = false, null = false;
	std::set< uint64_t > seen;
	std::string key;
	for ( uint32_t i = 0u; i < n; ++i )
	{
		uint64_t s = t.below( 6u );
		auto st = stage( t );
		in.push_back( { sim::as< VkSemaphore >( s ), st } );
		given.push_back( { s, st } );
		if ( !s ) null = true;
		else if ( !seen.insert( s ).second ) rep = true;
		key += pbt::fmt( "%llu/%x ", ( unsigned long long )s, st );
	}
	std::vector< VkSemaphore > sems;
	std::vector< VkPipelineStageFlags > stages;
	crg::convert( in, sems, stages );
	c.check( sems.size() == stages.size(), pbt::fmt( "waits: %zu semaphores with %zu stages", sems.size(), stages.size() ) );
	std::map< uint64_t, VkPipelineStageFlags > got;
	for ( size_t i = 0u; i < sems.size(); ++i )
	{
		c.check( got.emplace( sim::u( sems[i] ), stages[i] ).second, "waits: a semaphore is waited twice, given " + key );
	}
	c.check( got == expected( given ), "waits: given " + key + "waits on" + show( got ) + ", expected" + show( expected( given ) ) );
	if ( rep ) { c.note( "repeated" ); }
	if ( null ) c.note( "null" );
	if ( rep || null ) c.nt( key );
	c.sample = key;
}

namespace
{
	void history( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.resettable = true;
		o.maxPasses = std::min( o.maxPasses, 4u );
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto n = t.range( 1u, 3u );
		for ( uint32_t i = 0u; i < n; ++i ) w.genGraph( "G" + std::to_string( i ) );
		for ( uint32_t i = 1u; i < n; ++i ) if ( t.flag() ) w.graphs[i]->depends.push_back( int( t.below( i ) ) );
		for ( auto & g : w.graphs ) w.build( *g );
		std::string log = w.describe();
		for ( auto & g : w.graphs ) w.compile( *g );
		w.dev->lazy = true;
		std::vector< uint64_t > sems{ 0u };
		for ( uint32_t i = 0u; i < 3u; ++i ) sems.push_back( w.dev->makeExternal( sim::Ty::Semaphore, "ext" + std::to_string( i ) ) );
		struct State { uint64_t cb{}, sem{}, fence{}, sub{}; size_t event{}; uint32_t runs{}; };
		std::vector< State > st( n );
		std::vector< int > deleted, queued;
		int nextItem = 0;
		std::vector< uint64_t > results; // semaphores returned so far
		size_t inflightRuns = 0, resets = 0, dups = 0, crossDel = 0;
		auto pendingOf = [&]( uint64_t id ) { for ( auto & s : w.dev->subs ) if ( s.id == id ) return !s.done; return false; };
		auto steps = t.range( 4u, c.thorough ? 28u : 16u );
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			auto gi = t.below( n );
			auto & g = *w.graphs[gi];
			auto & x = st[gi];
			switch ( t.below( 14u ) )
			{
			default:
				{
					w.setFrame( g, t.below( o.frames ) );
					w.provideExternals( g );
					auto queue = sim::queueHandle( t.below( 2u ) );
					Waits given;
					auto form = t.below( 4u );
					auto add = [&]()
					{
						auto h = !results.empty() && t.flag() ? results[t.below( uint32_t( results.size() ) )] : sems[t.below( uint32_t( sems.size() ) )];
						// Waiting for the semaphore the run itself signals is the user's mistake.
						if ( x.sem && h == x.sem ) h = 0u;
						given.push_back( { h, stage( t ) } );
					};
					if ( form == 1u ) add();
					else if ( form >= 2u ) for ( auto k = t.below( 6u ); k > 0u; --k ) add();
					auto subs0 = w.dev->subs.size();
					auto events0 = w.dev->events.size();
					bool inflight = x.sub && pendingOf( x.sub );
					bool otherInflight = false;
					for ( uint32_t k = 0u; k < n; ++k ) otherInflight = otherInflight || ( k != gi && st[k].sub && pendingOf( st[k].sub ) );
					log += pbt::fmt( "run %s (%zu waits, %s)\n", g.name.c_str(), given.size(), inflight ? "previous in flight" : "idle" );
					crg::SemaphoreWaitArray r;
					if ( form == 0u ) r = g.rg->run( queue );
					else if ( form == 1u ) r = g.rg->run( crg::SemaphoreWait{ sim::as< VkSemaphore >( given[0].first ), given[0].second }, queue );
					else
					{
						crg::SemaphoreWaitArray a;
						for ( auto & [h, m] : given ) a.push_back( { sim::as< VkSemaphore >( h ), m } );
						r = g.rg->run( a, queue );
					}
					auto where = "run of " + g.name + ":\n" + log;
					c.check( w.dev->subs.size() == subs0 + 1u, pbt::fmt( "submit: %zu submissions in one ", w.dev->subs.size() - subs0 ) + where );
					auto & sub = w.dev->subs.back();
					c.check( sub.queue == sim::u( queue ), "submit: not to the queue given to the " + where );
					c.check( sub.cmdBuf != 0u && ( !x.cb || x.cb == sub.cmdBuf ), "submit: another command buffer than before in " + where );
					c.check( sub.signals.size() == 1u, pbt::fmt( "signal: %zu semaphores signalled by ", sub.signals.size() ) + where );
					c.check( !x.sem || x.sem == sub.signals[0], "signal: another semaphore than before in " + where );
					c.check( sub.fence != 0u && ( !x.fence || x.fence == sub.fence ), "fence: no fence or another one in " + where );
					for ( uint32_t k = 0u; k < n; ++k )
						if ( k != gi ) c.check( st[k].cb != sub.cmdBuf && st[k].sem != sub.signals[0] && st[k].fence != sub.fence, "submit: shares an object with " + w.graphs[k]->name + " in " + where );
					c.check( r.size() == 1u && sim::u( r[0].semaphore ) == sub.signals[0], "result: what is returned is not what the submission signals in " + where );
					c.check( r[0].dstStageMask != 0u, "result: no stage to wait in from " + where );
					std::map< uint64_t, VkPipelineStageFlags > got;
					for ( size_t i = 0u; i < sub.waits.size(); ++i )
						c.check( got.emplace( sub.waits[i], sub.waitStages[i] ).second, "waits: a semaphore is waited twice by " + where );
					auto want = expected( given );
					c.check( got == want, "waits: on" + show( got ) + ", expected" + show( want ) + " in " + where );
					if ( want.size() != given.size() ) ++dups;
					// What is submitted was recorded by this run, once the fence told that the last one was over.
					bool begun = false, waited = !x.fence, reset = false;
					for ( auto i = x.fence ? x.event : events0; i < w.dev->events.size(); ++i )
					{
						auto & e = w.dev->events[i];
						// It may have been told to someone else than the run, since the last submission.
						if ( x.fence && e.what == "fence known signaled" && e.h == x.fence ) waited = true;
						if ( e.h == sub.cmdBuf && ( e.what == "reset cmdbuf" || e.what == "begin cmdbuf" ) )
						{
							c.check( waited, "record: the command buffer is touched before the fence is waited for in " + where );
							begun = begun || ( i >= events0 && e.what == "begin cmdbuf" );
						}
						if ( e.h == sub.fence && e.what == "reset fence" ) { c.check( waited, "fence: reset before it is waited for in " + where ); reset = true; }
					}
					c.check( begun, "record: nothing recorded by " + where );
					c.check( reset, "fence: not reset by " + where );
					c.check( !x.sub || !pendingOf( x.sub ), "record: the last submission is still in flight after " + where );
					// the queued deletions ran, once and in order
					c.check( deleted == queued, pbt::fmt( "deletion: %zu of %zu queued deletions done after ", deleted.size(), queued.size() ) + where );
					x.cb = sub.cmdBuf; x.sem = sub.signals[0]; x.fence = sub.fence; x.sub = sub.id; x.event = w.dev->events.size();
					++x.runs;
					if ( inflight ) ++inflightRuns;
					if ( otherInflight && resets ) ++crossDel;
					results.push_back( x.sem );
				}
				break;
			case 8u:
				{
					log += pbt::fmt( "record %s\n", g.name.c_str() );
					w.setFrame( g, t.below( o.frames ) );
					auto subs0 = w.dev->subs.size();
					g.rg->record();
					c.check( w.dev->subs.size() == subs0, "submit: recording submits:\n" + log );
				}
				break;
			case 9u: case 10u:
				{
					auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
					auto prog = t.flag() ? w.program( p.kind == PK::Compute ) : vector< VkPipelineShaderStageCreateInfo >{};
					auto index = t.below( p.maxPassCount );
					auto now = deleted.size();
					if ( auto q = dynamic_cast< crg::RenderQuad * >( p.rp ) ) q->resetPipeline( prog, index );
					else if ( auto m = dynamic_cast< crg::RenderMesh * >( p.rp ) ) m->resetPipeline( prog, index );
					else if ( auto cp = dynamic_cast< crg::ComputePass * >( p.rp ); cp && p.resettable ) cp->resetPipeline( prog, index );
					else break;
					log += pbt::fmt( "reset pipeline %u of %s p%u\n", index, g.name.c_str(), p.id );
					c.check( now == deleted.size(), "deletion: a reset runs the queued deletions:\n" + log );
					++resets;
				}
				break;
			case 11u:
				{
					auto item = nextItem++;
					log += pbt::fmt( "queue deletion %d\n", item );
					queued.push_back( item );
					w.ctx->delQueue.push( [item, &deleted]( crg::GraphContext & ){ deleted.push_back( item ); } );
				}
				break;
			case 12u:
				{
					std::vector< uint64_t > open;
					for ( auto & sub : w.dev->subs ) if ( !sub.done ) open.push_back( sub.id );
					if ( open.empty() ) break;
					auto id = open[t.below( uint32_t( open.size() ) )];
					log += pbt::fmt( "the device completes submission %llu\n", ( unsigned long long )id );
					for ( auto & sub : w.dev->subs ) if ( sub.id == id ) { w.dev->complete( sub ); break; }
				}
				break;
			case 13u:
				{
					auto res = g.rg->getFence().wait( t.pick( { uint64_t( 0u ), uint64_t( 1000000u ), ~uint64_t( 0u ) } ) );
					log += pbt::fmt( "wait for the fence of %s: %d\n", g.name.c_str(), int( res ) );
				}
				break;
			}
			for ( auto & v : w.dev->viols ) if ( v.cat == "sync" || v.cat == "inflight" || v.cat == "cmdstate" || v.cat == "deadlock" ) c.fail( v.cat + ": " + v.msg + "\n" + log );
		}
		w.dev->completeAll();
		w.destroy();
		c.check( deleted == queued, "deletion: some queued deletion never ran, or ran twice:\n" + log );
		for ( auto & v : w.dev->viols ) if ( v.cat == "sync" || v.cat == "inflight" ) c.fail( v.cat + ": " + v.msg + "\n" + log );
		if ( inflightRuns ) c.note( "run while in flight" );
		if ( dups ) c.note( "waits merged" );
		if ( resets ) c.note( "reset" );
		if ( crossDel ) c.note( "another graph in flight after a reset" );
		if ( nextItem ) c.note( "queued deletions" );
		if ( inflightRuns && ( dups || resets || nextItem ) ) c.nt( log );
		c.sample = log;
	}
}

PBT_CHECK( "C14", "histories", 9000, 80000, "a graph runs while its last submission is in flight, with merged waits, pipeline resets or queued deletions" ) { history( c, chk::Fam::Any ); }
PBT_CHECK( "C14", "renders", 7000, 60000, "a graph runs while its last submission is in flight, with merged waits, pipeline resets or queued deletions" ) { history( c, chk::Fam::Renders ); }

// The fences graphs and passes hold are for everyone to wait for: whatever waits ended too early, and wherever the fence
// was moved to, resetting it waits for the submission it was given to.
PBT_CHECK( "C14", "fences", 60000, 600000, "a fence is reset after a wait that ended too early, or after having been moved" )
{
	auto & t = c.t;
	chk::Direct d;
	auto & dev = *d.w.dev;
	dev.lazy = true;
	struct F { std::unique_ptr< crg::Fence > f; bool early = false, moved = false; int submitted = 0; };
	std::vector< F > fs( t.range( 1u, 3u ) );
	std::string log;
	for ( size_t i = 0; i < fs.size(); ++i )
	{
		VkFenceCreateFlags flags = t.chance( 70 ) ? VK_FENCE_CREATE_SIGNALED_BIT : 0u;
		fs[i].f = std::make_unique< crg::Fence >( *d.w.ctx, pbt::fmt( "f%zu", i ), VkFenceCreateInfo{ VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, flags } );
		log += pbt::fmt( "create f%zu, %ssignalled\n", i, flags ? "" : "un" );
	}
	auto ops = t.range( 3u, 24u );
	bool nt = false;
	for ( uint32_t n = 0; n < ops; ++n )
	{
		auto i = t.below( uint32_t( fs.size() ) );
		auto & x = fs[i];
		auto h = sim::u( VkFence( *x.f ) );
		auto o = dev.find( h, sim::Ty::Fence );
		if ( !o ) c.fail( "fence: destroyed too early:\n" + log );
		switch ( t.below( 6u ) )
		{
		case 0u: case 1u:
			if ( o->pendingSub || o->signaled )
			{
				log += pbt::fmt( "reset f%u\n", i );
				auto resets = dev.calls["vkResetFences"];
				x.f->reset();
				c.check( dev.calls["vkResetFences"] == resets + 1 && !o->signaled, "fence: not reset:\n" + log );
				if ( x.early ) c.note( "reset after an early end of a wait" );
				if ( x.moved ) c.note( "reset after a move" );
				nt = nt || x.early || x.moved;
				x.early = false;
			}
			break;
		case 2u:
			if ( !o->pendingSub && !o->signaled )
			{
				log += pbt::fmt( "submit with f%u\n", i );
				VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO };
				d.w.ctx->vkQueueSubmit( sim::queueHandle( t.below( 2u ) ), 1u, &si, *x.f );
				++x.submitted;
			}
			break;
		case 3u:
			{
				auto timeout = t.pick( { uint64_t( 0u ), uint64_t( 1000000u ), ~uint64_t( 0u ) } );
				if ( timeout == ~uint64_t( 0u ) && !o->pendingSub && !o->signaled ) break;
				auto before = o->signaled;
				auto waits = dev.calls["vkWaitForFences"];
				auto res = x.f->wait( timeout );
				log += pbt::fmt( "wait %llu for f%u: %d\n", ( unsigned long long )timeout, i, int( res ) );
				c.check( res == ( o->signaled ? VK_SUCCESS : VK_TIMEOUT ), "fence: wrong result of the wait:\n" + log );
				c.check( before || dev.calls["vkWaitForFences"] > waits, "fence: not waited for:\n" + log );
				x.early = x.early || ( res == VK_TIMEOUT && o->pendingSub );
			}
			break;
		case 4u:
			if ( o->pendingSub )
			{
				log += pbt::fmt( "the device is done with f%u\n", i );
				for ( auto & s : dev.subs ) if ( s.id == o->pendingSub ) { dev.complete( s ); break; }
			}
			break;
		case 5u:
			log += pbt::fmt( "move f%u\n", i );
			x.f = std::make_unique< crg::Fence >( std::move( *x.f ) );
			c.check( sim::u( VkFence( *x.f ) ) == h, "fence: not the one moved from:\n" + log );
			x.moved = true;
			break;
		}
		for ( auto & v : dev.viols ) if ( v.cat == "sync" || v.cat == "deadlock" || v.cat == "lifetime" ) c.fail( v.cat + ": " + v.msg + "\n" + log );
	}
	dev.completeAll();
	fs.clear();
	for ( auto & v : dev.viols ) c.fail( v.cat + ": " + v.msg + "\n" + log );
	if ( nt ) c.nt( log );
	c.sample = log;
}
