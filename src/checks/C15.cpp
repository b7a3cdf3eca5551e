// C15: GPU timers use their own query slots and report real elapsed time.
#include "direct.hpp"
#include <cmath>
using namespace gg;

namespace
{
	using sim::CK;

	double toNs( crg::Nanoseconds n ) { return double( n.count() ); }
	bool close( double got, long double want )
	{
		// converted with a float period, in double precision, and rounded down
		return std::fabs( ( long double )got - std::floor( want ) ) <= 1.0L + want * 1e-12L;
	}
	// The two slots a timer used in a frame, and where.
	struct Slots { uint64_t pool; int64_t a, b; size_t reset, begin, end; };

	float period( pbt::Tape & t ) { return t.pick( { 1.0f, 0.5f, 2.0f, 52.083332f, 83.333336f, 1000.0f, 10.0f, 0.033333335f } ); }

	void frames( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.resettable = true;
		o.maxPasses = t.chance( 15 ) ? t.range( 8u, 20u ) : std::min( o.maxPasses, 6u );
		o.frames = 4u;
		o.period = period( t );
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto n = t.chance( 30 ) ? 2u : 1u;
		for ( uint32_t i = 0u; i < n; ++i ) w.genGraph( "G" + std::to_string( i ) );
		for ( auto & g : w.graphs ) w.build( *g );
		std::string log = pbt::fmt( "period %g\n", double( o.period ) ) + w.describe();
		for ( auto & g : w.graphs ) w.compile( *g );
		w.dev->lazy = t.flag();
		uint64_t now = t.pick( { 0ull, 1000ull, 0xFFFFFF00ull, 1ull << 52 } );
		auto big = t.below( 3u );
		w.dev->tick = [&]() { now += 1u + t.below( big == 0u ? 20u : big == 1u ? 100000u : 0x7fffffffu ); return now; };
		struct Timer { std::set< std::pair< uint64_t, int64_t > > slots; Slots last{}; bool recorded{}, fresh{}, lost{}, old{}; };
		std::map< void const *, Timer > timers;
		std::map< std::pair< uint64_t, int64_t >, void const * > owner;
		std::vector< crg::FramePassTimer * > all;
		size_t retrieved = 0, skipped = 0, rerec = 0, late = 0, idle = 0;
		auto name = [&]( void const * k )
		{
			for ( auto & g : w.graphs )
			{
				if ( &g->rg->getTimer() == k ) return g->name;
				for ( auto & p : g->passes ) if ( p->rp && &p->rp->getTimer() == k ) return pbt::fmt( "%s p%u", g->name.c_str(), p->id );
			}
			return std::string( "?" );
		};
		auto frame = [&]( Graph & g )
		{
			auto & cmds = w.commands( g );
			std::vector< Slots > found, open;
			for ( size_t i = 0u; i < cmds.size(); ++i )
			{
				auto & x = cmds[i];
				if ( x.k == CK::ResetQuery )
				{
					c.check( x.a[1] == 2, pbt::fmt( "slots: %lld queries reset at once\n", ( long long )x.a[1] ) + log );
					open.push_back( { x.h[0], x.a[0], x.a[0] + 1, i, 0u, 0u } );
				}
				else if ( x.k == CK::Timestamp )
				{
					c.check( !open.empty(), "slots: a timestamp outside of any timer\n" + log );
					auto & s = open.back();
					c.check( s.pool == x.h[0], "slots: reset and written in different pools\n" + log );
					if ( !s.begin )
					{
						c.check( x.a[0] == s.a, "slots: the first timestamp is not in the first slot reset\n" + log );
						s.begin = i;
					}
					else
					{
						c.check( x.a[0] == s.b, "slots: the second timestamp is not in the second slot reset\n" + log );
						s.end = i;
						found.push_back( s );
						open.pop_back();
					}
				}
			}
			c.check( open.empty(), "slots: a timer begun is not ended\n" + log );
			c.check( !found.empty(), "slots: the graph is not timed\n" + log );
			auto spans = chk::spans( w, g );
			c.check( found.size() == spans.size() + 1u, pbt::fmt( "slots: %zu timers for %zu passes recorded\n", found.size() - 1u, spans.size() ) + log );
			auto check = [&]( void const * key, Slots const & s )
			{
				auto & tm = timers[key];
				auto pool = w.dev->find( s.pool, sim::Ty::QueryPool );
				c.check( pool && size_t( s.b ) < pool->queries.size(), "slots: outside of the query pool\n" + log );
				for ( auto q : { s.a, s.b } )
				{
					auto it = owner.emplace( std::make_pair( s.pool, q ), key ).first;
					c.check( it->second == key, "slots: " + name( key ) + " uses a slot of " + name( it->second ) + "\n" + log );
					tm.slots.insert( { s.pool, q } );
				}
				c.check( tm.slots.size() <= 4u, "slots: " + name( key ) + " uses more than two pairs of slots\n" + log );
				if ( tm.recorded && !tm.lost )
					c.check( tm.last.a != s.a && tm.last.b != s.b && tm.last.a != s.b && tm.last.b != s.a, "slots: " + name( key ) + " uses the slots of its previous frame\n" + log );
				tm.last = s;
				tm.recorded = true;
				tm.lost = false;
				tm.fresh = true;
				tm.old = false;
			};
			for ( auto & p : g.passes ) timers[&p->rp->getTimer()].old = true;
			// the graph's timer encloses the passes', which come in their order
			auto whole = found.back();
			check( &g.rg->getTimer(), whole );
			for ( size_t i = 0u; i < spans.size(); ++i )
			{
				auto & s = found[i];
				auto & sp = spans[i];
				c.check( whole.reset < s.reset && s.end < whole.end, "place: a pass is timed outside of its graph\n" + log );
				check( &sp.p->rp->getTimer(), s );
				// everything the pass records is between its timestamps
				for ( size_t k = sp.begin + 1u; k < sp.end; ++k )
				{
					if ( cmds[k].k == CK::BeginLabel || cmds[k].k == CK::EndLabel ) continue;
					c.check( k == s.reset || ( k >= s.begin && k <= s.end ), "place: commands of " + name( &sp.p->rp->getTimer() ) + " out of its timestamps: " + sim::dump( cmds[k] ) + "\n" + log );
				}
			}
			for ( size_t k = 0u; k < cmds.size(); ++k )
			{
				if ( cmds[k].k == CK::BeginLabel || cmds[k].k == CK::EndLabel ) continue;
				c.check( k == whole.reset || ( k >= whole.begin && k <= whole.end ), "place: commands of " + g.name + " out of its timestamps\n" + log );
			}
		};
		auto retrieve = [&]( crg::FramePassTimer & tm )
		{
			auto & x = timers[&tm];
			long double want = 0;
			if ( x.fresh )
			{
				w.dev->completeAll(); // what retrieving waits for anyway
				auto pool = w.dev->find( x.last.pool, sim::Ty::QueryPool );
				auto a = pool->queries[size_t( x.last.a )], b = pool->queries[size_t( x.last.b )];
				c.check( a.written && b.written, "slots: not written once run\n" + log );
				want = ( long double )( b.value - a.value ) * ( long double )o.period;
			}
			tm.retrieveGpuTime();
			auto got = toNs( tm.getGpuTime() );
			log += pbt::fmt( "retrieve %s: %.0f, expected %.3Lf\n", name( &tm ).c_str(), got, want );
			if ( x.lost ) { x.fresh = false; return; }
			// The pass didn't run in the last frame: its earlier time, not retrieved yet, may be reported or not.
			if ( x.old && got == 0.0 ) { x.fresh = false; ++idle; return; }
			c.check( close( got, want ), pbt::fmt( "time: %s reports %.0f ns, expected %.3Lf\n", name( &tm ).c_str(), got, want ) + log );
			if ( x.fresh ) ++retrieved; else ++idle;
			x.fresh = false;
		};
		auto steps = t.range( 3u, c.thorough ? 30u : 14u );
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			auto & g = *w.graphs[t.below( n )];
			auto any = [&]() -> crg::FramePassTimer &
			{
				auto i = t.below( uint32_t( g.passes.size() ) + 1u );
				return i < g.passes.size() ? g.passes[i]->rp->getTimer() : g.rg->getTimer();
			};
			switch ( t.below( 10u ) )
			{
			default:
				{
					for ( auto & [k, x] : timers ) if ( x.fresh ) { ++late; break; }
					w.setFrame( g, t.below( o.frames ) );
					log += pbt::fmt( "run %s, enabled:", g.name.c_str() );
					for ( auto & p : g.passes ) if ( p->enabled ) log += pbt::fmt( " %u", p->id ); else ++skipped;
					log += "\n";
					w.provideExternals( g );
					g.rg->run( sim::queueHandle() );
					g.lastCb = reinterpret_cast< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
					frame( g );
				}
				break;
			case 4u: case 5u:
				retrieve( any() );
				break;
			case 6u:
				for ( auto & p : g.passes ) retrieve( p->rp->getTimer() );
				retrieve( g.rg->getTimer() );
				break;
			case 7u:
				{
					auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
					if ( !p.resettable && p.kind != PK::Quad && p.kind != PK::Mesh ) break;
					if ( !p.enabled || p.inits.empty() ) { if ( p.kind == PK::Quad || p.kind == PK::Mesh ) break; }
					log += pbt::fmt( "record %s p%u again\n", g.name.c_str(), p.id );
					w.dev->completeAll();
					p.rp->resetCommandBuffer( p.index );
					p.rp->reRecordCurrent();
					++rerec;
				}
				break;
			case 8u:
				{
					if ( t.flag() ) break;
					// A recording which is not run replaces the last one: what was not retrieved yet may be lost.
					log += pbt::fmt( "record %s\n", g.name.c_str() );
					w.setFrame( g, t.below( o.frames ) );
					g.rg->record();
					timers[&g.rg->getTimer()].lost = true;
					for ( auto & p : g.passes ) timers[&p->rp->getTimer()].lost = true;
				}
				break;
			case 9u:
				{
					auto & tm = any();
					log += "reset " + name( &tm ) + "\n";
					tm.reset();
					c.check( tm.getGpuTime().count() == 0 && tm.getCpuTime().count() == 0, "reset: times left after a reset\n" + log );
				}
				break;
			}
			for ( auto & v : w.dev->viols ) if ( v.cat == "query" || v.cat == "deadlock" ) c.fail( v.cat + ": " + v.msg + "\n" + log );
		}
		w.dev->tick = {};
		w.dev->completeAll();
		if ( retrieved ) c.note( "retrieved" );
		if ( idle ) c.note( "retrieved with nothing new" );
		if ( skipped ) c.note( "disabled passes" );
		if ( rerec ) c.note( "recorded again" );
		if ( late ) c.note( "run before retrieval" );
		if ( retrieved >= 2u && ( skipped || rerec || late ) ) c.nt( log );
		c.sample = log;
	}
}

PBT_CHECK( "C15", "frames", 8000, 120000, "two times or more are retrieved, with disabled passes, passes recorded again or frames run before the retrieval" ) { frames( c, chk::Fam::Any ); }
PBT_CHECK( "C15", "renders", 5000, 80000, "two times or more are retrieved, with disabled passes, passes recorded again or frames run before the retrieval" ) { frames( c, chk::Fam::Renders ); }

// Timers on their own or in a shared pool.
PBT_CHECK( "C15", "timers", 20000, 200000, "several timers with several retrievals" )
{
	auto & t = c.t;
	Opts o;
	o.period = period( t );
	World w{ c, o };
	w.dev->lazy = t.flag();
	uint64_t now = t.pick( { 0ull, 5ull, 0xFFFFFFF0ull, 1ull << 53, ~0ull - 100000ull } );
	auto big = t.below( 3u );
	w.dev->tick = [&]() { now += 1u + t.below( big == 0u ? 9u : big == 1u ? 100000u : 0x7fffffffu ); return now; };
	std::string log = pbt::fmt( "period %g\n", double( o.period ) );
	VkCommandPool pool{};
	VkCommandPoolCreateInfo pci{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT, 0u };
	w.ctx->vkCreateCommandPool( w.ctx->device, &pci, nullptr, &pool );
	VkCommandBuffer cb{};
	VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, pool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1u };
	w.ctx->vkAllocateCommandBuffers( w.ctx->device, &ai, &cb );
	VkQueryPool shared{};
	auto n = t.range( 1u, 4u );
	VkQueryPoolCreateInfo qci{ VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, nullptr, 0u, VK_QUERY_TYPE_TIMESTAMP, n * 4u, 0u };
	w.ctx->vkCreateQueryPool( w.ctx->device, &qci, nullptr, &shared );
	uint32_t offset = 0u, users = 0u;
	struct T { std::unique_ptr< crg::FramePassTimer > t; bool own; bool fresh{}; long double want{}; };
	std::vector< T > ts;
	std::string key;
	for ( uint32_t i = 0u; i < n; ++i )
	{
		bool own = t.flag();
		auto scope = t.pick( { crg::TimerScope::eGraph, crg::TimerScope::ePass, crg::TimerScope::eUpdate } );
		auto nm = "T" + std::to_string( i );
		auto tm = own
			? std::make_unique< crg::FramePassTimer >( *w.ctx, nm, scope )
			: std::make_unique< crg::FramePassTimer >( *w.ctx, nm, scope, shared, offset );
		if ( !own ) ++users;
		c.check( offset == users * 4u, pbt::fmt( "slots: offset %u after %u timers\n", offset, users ) );
		c.check( tm->getName() == nm && tm->getScope() == scope, "timer: name or scope lost" );
		ts.push_back( { std::move( tm ), own } );
		key += own ? 'o' : 's';
	}
	size_t got2 = 0;
	auto frames = t.range( 1u, c.thorough ? 10u : 6u );
	for ( uint32_t f = 0u; f < frames; ++f )
	{
		VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO };
		w.dev->completeAll();
		w.ctx->vkBeginCommandBuffer( cb, &bi );
		std::vector< size_t > order, open;
		for ( size_t i = 0u; i < ts.size(); ++i ) if ( t.chance( 70 ) ) order.push_back( i );
		bool nested = t.flag();
		key += pbt::fmt( " f%d", int( nested ) );
		for ( auto i : order )
		{
			ts[i].t->beginPass( cb );
			if ( !nested ) ts[i].t->endPass( cb );
			key += std::to_string( i );
		}
		if ( nested ) for ( auto k = order.rbegin(); k != order.rend(); ++k ) ts[*k].t->endPass( cb );
		w.ctx->vkEndCommandBuffer( cb );
		std::map< std::pair< uint64_t, int64_t >, uint64_t > before;
		VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0u, nullptr, nullptr, 1u, &cb, 0u, nullptr };
		for ( auto i : order ) ts[i].t->notifyPassRender();
		w.ctx->vkQueueSubmit( sim::queueHandle(), 1u, &si, VkFence{} );
		// which timer wrote what: the k-th reset belongs to the k-th timer begun
		auto & cmds = w.dev->find( sim::u( cb ), sim::Ty::CmdBuf )->cmds;
		size_t k = 0u;
		std::set< std::pair< uint64_t, int64_t > > used;
		for ( auto & x : cmds )
			if ( x.k == sim::CK::ResetQuery )
			{
				c.check( k < order.size() && x.a[1] == 2, "slots: reset of other than two queries for a timer begun" );
				auto p = w.dev->find( x.h[0], sim::Ty::QueryPool );
				auto q0 = size_t( x.a[0] );
				c.check( p && q0 + 1u < p->queries.size(), "slots: outside of the query pool" );
				for ( auto q : { x.a[0], x.a[0] + 1 } ) c.check( used.insert( { x.h[0], q } ).second, "slots: shared by two timers" );
				c.check( p->queries[q0].written && p->queries[q0 + 1u].written, "slots: not written" );
				auto & tm = ts[order[k]];
				tm.want = ( long double )( p->queries[q0 + 1u].value - p->queries[q0].value ) * ( long double )o.period;
				tm.fresh = true;
				++k;
			}
		c.check( k == order.size(), "slots: a timer begun without reset" );
		for ( size_t i = 0u; i < ts.size(); ++i )
		{
			if ( !t.chance( 60 ) ) continue;
			bool was = std::count( order.begin(), order.end(), i ) != 0;
			if ( !was && ts[i].fresh ) continue; // of an earlier frame, unread
			ts[i].t->retrieveGpuTime();
			auto got = toNs( ts[i].t->getGpuTime() );
			auto want = ts[i].fresh ? ts[i].want : 0.0L;
			c.check( close( got, want ), pbt::fmt( "time: %.0f ns reported, expected %.3Lf (period %g)", got, want, double( o.period ) ) );
			if ( ts[i].fresh ) ++got2;
			ts[i].fresh = false;
		}
		for ( auto & v : w.dev->viols ) if ( v.cat == "query" ) c.fail( v.cat + ": " + v.msg );
	}
	ts.clear();
	w.dev->tick = {};
	w.dev->completeAll();
	w.ctx->vkDestroyQueryPool( w.ctx->device, shared, nullptr );
	w.ctx->vkDestroyCommandPool( w.ctx->device, pool, nullptr );
	auto left = w.dev->liveOwned();
	c.check( left.empty(), "pool: a timer leaves its query pool behind" );
	if ( n > 1u && got2 > 1u ) c.nt( key + log );
	c.note( w.dev->lazy ? "lazy device" : "eager device" );
	c.sample = log + key;
}
