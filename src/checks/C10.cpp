// C10: a failing device call surfaces as an exception, leaks nothing, and can be retried.
#include "direct.hpp"
#include <RenderGraph/Exception.hpp>
using namespace gg;

namespace
{
	std::set< std::string > const Cats{ "lifetime", "memory", "cmdstate", "descriptor", "renderpass", "deadlock", "inflight", "bounds" };

	VkResult code( pbt::Tape & t )
	{
		return t.pick( { VK_ERROR_OUT_OF_HOST_MEMORY, VK_ERROR_OUT_OF_DEVICE_MEMORY, VK_ERROR_INITIALIZATION_FAILED, VK_ERROR_DEVICE_LOST, VK_ERROR_MEMORY_MAP_FAILED
			, VK_ERROR_TOO_MANY_OBJECTS, VK_ERROR_FORMAT_NOT_SUPPORTED, VK_ERROR_FRAGMENTED_POOL, VK_ERROR_OUT_OF_POOL_MEMORY, VK_ERROR_FRAGMENTATION } );
	}

	// Runs f; when a device call fails in it, and only then, it must end with the library's exception.
	template< typename F >
	bool guarded( pbt::Case & c, sim::Device & dev, std::string const & what, F f )
	{
		auto before = dev.faulted;
		bool had = !before.empty();
		try
		{
			f();
		}
		catch ( crg::Exception & e )
		{
			c.check( !had && !dev.faulted.empty(), pbt::fmt( "spurious: %s throws with no failing call: %s", what.c_str(), e.what() ) );
			return false;
		}
		catch ( std::exception & e )
		{
			c.fail( pbt::fmt( "type: %s throws a foreign exception, %s, when %s fails", what.c_str(), e.what(), dev.faulted.c_str() ) );
		}
		c.check( had || dev.faulted.empty(), pbt::fmt( "silent: %s succeeds although %s failed", what.c_str(), dev.faulted.c_str() ) );
		return true;
	}

	std::string shown( World & w, Graph & g )
	{
		std::vector< sim::Cmd > cmds;
		for ( auto & cmd : w.commands( g ) ) if ( cmd.k != sim::CK::Timestamp && cmd.k != sim::CK::ResetQuery ) cmds.push_back( cmd );
		return sim::canon( cmds, false );
	}

	// What the user does when a step has failed.
	enum class After { Stop, Retry, Skip };
	struct Result { std::vector< std::string > frames; std::vector< std::string > names; std::string log; std::string at; };

	// The scenario is a function of the tape: with faultAt < 0 nothing fails.
	Result scenario( pbt::Case & c, chk::Fam fam, int64_t faultAt, VkResult res, After after )
	{
		auto & t = c.t;
		Result r;
		auto o = chk::family( c, fam );
		o.maxPasses = std::min( o.maxPasses, 5u );
		o.resettable = true;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto n = t.range( 1u, 2u );
		for ( uint32_t i = 0u; i < n; ++i ) w.genGraph( "G" + std::to_string( i ) );
		for ( auto & g : w.graphs ) w.build( *g );
		r.log = w.describe();
		w.dev->lazy = t.flag();
		auto frames = t.range( 1u, 3u );
		auto resets = t.chance( 30 ); // of all pipelines, before a failed run is tried again
		// the user's callbacks may fail too, which shows as any exception of theirs
		std::set< std::pair< Pass *, uint32_t > > uninitialised;
		std::string late;
		if ( t.chance( 30 ) )
			w.onUser = [&]( Pass & p, char const * what, uint32_t i )
			{
				bool init = !strcmp( what, "an initialisation" );
				if ( init ) uninitialised.insert( { &p, i } );
				if ( w.dev->fault( what ) ) throw crg::Exception{ what, __FILE__, __LINE__ };
				if ( init ) uninitialised.erase( { &p, i } );
				else if ( strstr( what, "recording" ) && uninitialised.count( { &p, i } ) ) late = pbt::fmt( "init: p%u has %s run for index %u, whose initialisation failed", p.id, what, i );
			};
		w.dev->faultAt = faultAt;
		w.dev->faultCode = res;
		bool stop = false;
		// a reset that fails is not tried again: the next run has to do
		std::function< void() > between = [](){};
		auto step = [&]( std::string const & what, auto f, bool again = true )
		{
			if ( stop ) return false;
			if ( !guarded( c, *w.dev, what, f ) )
			{
				r.at = what + ": " + w.dev->faulted;
				r.log += r.at + " fails\n";
				w.dev->completeAll();
				w.require( Cats );
				if ( after == After::Stop ) stop = true;
				// a graph that isn't compiled can't be skipped
				bool retry = after == After::Retry || ( after == After::Skip && what.rfind( "compiling", 0u ) == 0u );
				if ( retry && again ) between();
				if ( retry && again ) guarded( c, *w.dev, what + ", again", f );
				if ( !retry ) return false;
			}
			w.require( Cats );
			if ( !late.empty() ) c.fail( late + "\n" + r.log );
			return true;
		};
		for ( auto & g : w.graphs ) step( "compiling " + g->name, [&](){ w.compile( *g ); } );
		auto reset = []( Pass & p )
		{
			if ( auto q = dynamic_cast< crg::RenderQuad * >( p.rp ) ) q->resetPipeline( {}, p.index );
			else if ( auto m = dynamic_cast< crg::RenderMesh * >( p.rp ) ) m->resetPipeline( {}, p.index );
			else if ( auto cp = dynamic_cast< crg::ComputePass * >( p.rp ) ) cp->resetPipeline( {}, p.index );
			else { p.rp->resetCommandBuffer( p.index ); p.rp->reRecordCurrent(); }
		};
		for ( uint32_t f = 0u; f < frames; ++f )
			for ( auto & g : w.graphs )
			{
				if ( stop ) break;
				w.setFrame( *g, f );
				between = [&]()
				{
					if ( resets )
						for ( auto & p : g->passes )
							if ( p->enabled && ( p->kind == PK::Quad || p->kind == PK::Mesh || ( p->kind == PK::Compute && p->resettable ) ) )
							{
								guarded( c, *w.dev, pbt::fmt( "resetting %s p%u", g->name.c_str(), p->id ), [&](){ reset( *p ); } );
								w.require( Cats );
							}
				};
				auto ran = step( pbt::fmt( "running %s, frame %u", g->name.c_str(), f ), [&]()
					{
						w.provideExternals( *g );
						g->rg->run( sim::queueHandle() );
						g->lastCb = reinterpret_cast< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
					} );
				if ( stop ) break;
				if ( ran ) r.frames.push_back( shown( w, *g ) );
				// a pass which may be reset gets its program again
				auto & p = *g->passes[t.below( uint32_t( g->passes.size() ) )];
				if ( t.chance( 30 ) && p.enabled && ( p.resettable || p.kind == PK::Quad || p.kind == PK::Mesh ) )
				{
					w.dev->completeAll();
					step( pbt::fmt( "resetting %s p%u", g->name.c_str(), p.id ), [&](){ reset( p ); }, false );
				}
			}
		r.names = w.dev->faultableNames;
		w.dev->completeAll();
		for ( size_t i = w.graphs.size(); i > 0u; --i ) { w.graphs[i - 1u]->rg.reset(); w.require( Cats ); }
		w.destroy();
		w.require( Cats );
		auto left = w.dev->liveOwned();
		if ( !left.empty() ) c.fail( pbt::fmt( "leak: %zu objects left, %s%s", left.size(), w.dev->show( left[0] ).c_str(), r.at.empty() ? "" : ( " after " + r.at ).c_str() ) );
		return r;
	}

	void graphs( pbt::Case & c, chk::Fam fam )
	{
		auto res = code( c.t );
		auto after = c.t.pick( { After::Stop, After::Stop, After::Retry, After::Retry, After::Skip } );
		bool retry = after == After::Retry;
		auto rare = c.t.chance( 60 );
		auto start = c.t.pos();
		auto ref = scenario( c, fam, -1, res, After::Stop );
		std::vector< uint32_t > slice( c.t.data().begin() + std::ptrdiff_t( std::min( start, c.t.data().size() ) ), c.t.data().begin() + std::ptrdiff_t( std::min( c.t.pos(), c.t.data().size() ) ) );
		if ( ref.names.empty() ) return;
		uint32_t at;
		if ( rare )
		{
			// one of the rarely made calls
			std::map< std::string, std::vector< uint32_t > > by;
			for ( uint32_t i = 0u; i < ref.names.size(); ++i ) by[ref.names[i]].push_back( i );
			auto it = std::next( by.begin(), c.t.below( uint32_t( by.size() ) ) );
			at = c.t.pick( it->second );
		}
		else at = c.t.below( uint32_t( ref.names.size() ) );
		c.sample = ref.log + pbt::fmt( "call %u, %s, gives %d; then %s\n", at, ref.names[at].c_str(), int( res ), retry ? "again" : after == After::Skip ? "the next frame" : "everything goes" );
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		pbt::Tape t2{ slice };
		pbt::Case c2{ t2, c.verbose };
		c2.thorough = c.thorough;
		auto got = scenario( c2, fam, at, res, after );
		c.check( !got.at.empty(), pbt::fmt( "silent: %s, call %u, made no step fail", ref.names[at].c_str(), at ) );
		c.note( "fails: " + ref.names[at] );
		c.note( got.at.rfind( "compiling", 0u ) == 0u ? "while compiling" : got.at.rfind( "running", 0u ) == 0u ? "while running" : "while resetting" );
		if ( after == After::Skip ) c.note( "skipped" );
		if ( retry )
		{
			c.note( "retried" );
			c.check( got.frames.size() == ref.frames.size(), "retry: frames are missing" );
			for ( size_t i = 0u; i < ref.frames.size(); ++i )
				if ( got.frames[i] != ref.frames[i] )
				{
					std::istringstream a{ ref.frames[i] }, b{ got.frames[i] };
					std::string la, lb;
					while ( std::getline( a, la ) && std::getline( b, lb ) && la == lb ) {}
					c.fail( pbt::fmt( "retry: frame %zu is not what it is without failure (%s): '%s' instead of '%s'", i, got.at.c_str(), lb.c_str(), la.c_str() ) );
				}
		}
		c.nt( c.sample );
	}
}
PBT_CHECK( "C10", "graphs", 20000, 300000, "a device call fails in the scenario" ) { graphs( c, chk::Fam::Any ); }
PBT_CHECK( "C10", "renders", 20000, 200000, "a device call fails in the scenario" ) { graphs( c, chk::Fam::Renders ); }

// Resources asked for directly: each request may meet a failure, and must then succeed when asked again.
PBT_CHECK( "C10", "resources", 80000, 1500000, "at least 2 failures" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	auto & dev = *w.dev;
	std::vector< crg::ImageId > images;
	std::vector< crg::ImageViewId > views;
	auto ni = t.range( 1u, 3u );
	for ( uint32_t i = 0u; i < ni; ++i )
	{
		images.push_back( chk::image( w, "i" + std::to_string( i ), VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_SAMPLED_BIT, 2u ) );
		for ( uint32_t v = 0u; v < 2u; ++v ) views.push_back( chk::view( w, pbt::fmt( "v%u_%u", i, v ), images[i], { VK_IMAGE_ASPECT_COLOR_BIT, v, 1u, 0u, 1u } ) );
	}
	auto one = std::make_unique< crg::ContextResourcesCache >( *w.handler, *w.ctx );
	auto many = std::make_unique< crg::ResourcesCache >( *w.handler );
	std::string log;
	size_t failures = 0u;
	std::map< std::string, uint64_t > have;
	auto steps = t.range( 3u, 14u );
	for ( uint32_t s = 0u; s < steps; ++s )
	{
		bool single = t.flag();
		auto kind = t.below( 5u );
		auto idx = t.below( kind == 1u ? uint32_t( views.size() ) : kind == 0u ? ni : kind == 3u ? 8u : 4u );
		auto what = pbt::fmt( "%s %u of the %s cache", kind == 0u ? "image" : kind == 1u ? "view" : kind == 2u ? "sampler" : kind == 3u ? "vertex buffer" : "fence", idx, single ? "context's" : "shared" );
		auto key = kind < 2u ? pbt::fmt( "%u %u", kind, idx ) : pbt::fmt( "%u %u %d", kind, idx, int( single ) );
		uint64_t got = 0u;
		auto request = [&]()
		{
			if ( kind == 0u ) got = sim::u( single ? one->createImage( images[idx] ) : many->createImage( *w.ctx, images[idx] ) );
			else if ( kind == 1u ) got = sim::u( single ? one->createImageView( views[idx] ) : many->createImageView( *w.ctx, views[idx] ) );
			else if ( kind == 2u )
			{
				crg::SamplerDesc d{ idx & 1u ? VK_FILTER_LINEAR : VK_FILTER_NEAREST, idx & 2u ? VK_FILTER_LINEAR : VK_FILTER_NEAREST };
				got = sim::u( single ? one->createSampler( d ) : many->createSampler( *w.ctx, d ) );
			}
			else if ( kind == 3u )
			{
				crg::Texcoord tc{ ( idx & 1u ) != 0u, ( idx & 2u ) != 0u };
				auto & vb = single ? one->createQuadTriVertexBuffer( ( idx & 4u ) != 0u, tc ) : many->createQuadTriVertexBuffer( *w.ctx, ( idx & 4u ) != 0u, tc );
				got = sim::u( vb.buffer.buffer() );
				c.check( vb.memory && !vb.vertexBindings.empty(), "half: a vertex buffer lacks memory or bindings" );
			}
			else
			{
				crg::Fence f{ *w.ctx, "fence", { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, 0u } };
				crg::Fence g{ std::move( f ) };
				VkFence h = g;
				got = sim::u( h );
			}
		};
		auto liveBefore = dev.liveOwned().size();
		auto mode = t.below( 5u ); // 0, 1: no failure; 2, 3: a call fails; 4: no memory type suits
		dev.faulted.clear();
		dev.faultCode = code( t );
		auto calls = dev.calls["vkGetImageMemoryRequirements"] + dev.calls["vkGetBufferMemoryRequirements"];
		if ( mode == 2u || mode == 3u ) dev.faultAt = dev.faultable + int64_t( t.below( 6u ) );
		auto types = w.ctx->memoryProperties.memoryTypeCount;
		bool noMemory = mode == 4u;
		if ( noMemory ) w.ctx->memoryProperties.memoryTypeCount = 0u;
		bool threw = false;
		try { request(); }
		catch ( crg::Exception & ) { threw = true; }
		catch ( std::exception & e ) { c.fail( pbt::fmt( "type: asking for %s throws a foreign exception, %s", what.c_str(), e.what() ) ); }
		w.ctx->memoryProperties.memoryTypeCount = types;
		dev.faultAt = -1;
		log += what + ( dev.faulted.empty() ? "" : ", " + dev.faulted + " fails" ) + ( noMemory ? ", no memory type" : "" ) + ( threw ? ": throws\n" : "\n" );
		if ( !dev.faulted.empty() ) c.check( threw, "silent: " + what + " succeeds although " + dev.faulted + " failed\n" + log );
		else if ( noMemory )
		{
			// only what must allocate has to fail
			bool allocates = dev.calls["vkGetImageMemoryRequirements"] + dev.calls["vkGetBufferMemoryRequirements"] != calls;
			c.check( threw == allocates, pbt::fmt( "memory: %s, with no memory type that suits\n%s", threw ? "throws" : "does not throw", log.c_str() ) );
		}
		else c.check( !threw, "spurious: " + what + " throws with no failing call\n" + log );
		if ( threw )
		{
			++failures;
			if ( !dev.faulted.empty() ) c.note( "fails: " + dev.faulted );
			auto now = dev.liveOwned().size();
			// a view that fails may leave the image it made: the cache owns it
			if ( kind != 1u ) c.check( now == liveBefore, "half: objects of the failed request for " + what + " are left\n" + log );
			w.require( Cats );
			if ( t.chance( 80 ) )
			{
				dev.faulted.clear();
				try { request(); threw = false; }
				catch ( std::exception & e ) { c.fail( pbt::fmt( "retry: %s still fails, %s\n%s", what.c_str(), e.what(), log.c_str() ) ); }
			}
		}
		if ( !threw && kind != 4u )
		{
			auto ob = dev.find( got, kind == 0u ? sim::Ty::Image : kind == 1u ? sim::Ty::View : kind == 2u ? sim::Ty::Sampler : sim::Ty::Buffer );
			c.check( ob && ob->alive, "dead: " + what + " is not a live object\n" + log );
			if ( kind == 0u || kind == 3u ) c.check( ob->mem != 0u, "memory: " + what + " has no memory\n" + log );
			auto [it, ins] = have.emplace( key, got );
			c.check( ins || it->second == got, "other: asking again for " + what + " gives another object\n" + log );
			if ( kind == 1u ) have.emplace( pbt::fmt( "0 %u", idx / 2u ), sim::u( w.handler->createImage( *w.ctx, images[idx / 2u] ).first ) );
		}
		w.require( Cats );
	}
	c.sample = log;
	if ( t.flag() ) { one.reset(); many.reset(); } else { many.reset(); one.reset(); }
	w.destroy();
	// objects owned by either cache: views first is up to the user, so only leaks and double destructions count
	for ( auto & v : dev.viols ) if ( v.cat == "lifetime" && v.msg.find( "already destroyed" ) != std::string::npos ) c.fail( "lifetime: " + v.msg + "\n" + log );
	auto left = dev.liveOwned();
	if ( !left.empty() ) c.fail( pbt::fmt( "leak: %zu objects left, %s\n%s", left.size(), dev.show( left[0] ).c_str(), log.c_str() ) );
	if ( failures >= 2u ) c.nt( log );
}
