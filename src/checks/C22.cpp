// C22: recording is deterministic and settles: same graph, same frame, same commands.
#include "canon.hpp"
#include <cstdlib>
#include <new>
using namespace gg;
using namespace chk;

// --- addresses: on demand, operator new hands out blocks in a scrambled order.
namespace
{
	struct Scrambler
	{
		static constexpr size_t Depth = 6u, Sizes = 64u;
		bool on{};
		uint64_t s{};
		void * reserve[Sizes][Depth]{};
		void * get( size_t n )
		{
			size_t k = ( n + 15u ) / 16u;
			if ( !on || k >= Sizes || !k ) return std::malloc( n ? n : 1u );
			for ( auto & p : reserve[k] ) if ( !p ) p = std::malloc( k * 16u );
			s = s * 6364136223846793005ull + 1442695040888963407ull;
			auto & p = reserve[k][( s >> 33 ) % Depth];
			auto r = p;
			p = nullptr;
			return r;
		}
		void end()
		{
			on = false;
			for ( auto & r : reserve ) for ( auto & p : r ) { std::free( p ); p = nullptr; }
		}
	} scrambler;
	struct Scramble
	{
		explicit Scramble( uint32_t seed ) { if ( seed ) { scrambler.s = seed; scrambler.on = true; } }
		~Scramble() { scrambler.end(); }
	};
}
void * operator new( size_t n ) { if ( auto p = scrambler.get( n ) ) return p; throw std::bad_alloc{}; }
void * operator new[]( size_t n ) { if ( auto p = std::malloc( n ? n : 1u ) ) return p; throw std::bad_alloc{}; }
void * operator new( size_t n, std::nothrow_t const & )noexcept { return std::malloc( n ? n : 1u ); }
void * operator new[]( size_t n, std::nothrow_t const & )noexcept { return std::malloc( n ? n : 1u ); }
void operator delete( void * p, std::nothrow_t const & )noexcept { std::free( p ); }
void operator delete[]( void * p, std::nothrow_t const & )noexcept { std::free( p ); }
void operator delete( void * p )noexcept { std::free( p ); }
void operator delete[]( void * p )noexcept { std::free( p ); }
void operator delete( void * p, size_t )noexcept { std::free( p ); }
void operator delete[]( void * p, size_t )noexcept { std::free( p ); }

namespace
{
	struct Variant
	{
		uint32_t salt{};       // of the names, 0: the usual ones
		uint32_t handles{};    // first handle
		uint32_t mask{};       // order of the handles
		uint32_t heap{};       // order of the addresses
		uint32_t ids{};        // images and views made before
		bool other{};          // another graph is compiled and run on the same handler and context
	};
	struct Result { std::vector< std::string > planned, frames, finals; std::string log; size_t cmds{}, transitions{}; };

	struct Other
	{
		std::unique_ptr< crg::FrameGraph > fg;
		crg::RunnableGraphPtr rg;
		explicit Other( World & w )
		{
			auto img = chk::image( w, "other image", VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_STORAGE_BIT | VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT, 2u );
			auto v = chk::view( w, "other view", img, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } );
			fg = std::make_unique< crg::FrameGraph >( *w.handler, "other" );
			auto & a = chk::pass( *fg, "a", VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT );
			a.addOutputStorageView( v, 0u );
			auto & b = chk::pass( *fg, "b", VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
			b.addDependency( a );
			b.addSampledView( v, 0u );
		}
		void compile( World & w ) { rg = fg->compile( *w.ctx ); }
		void run() { rg->run( sim::queueHandle() ); }
	};

	Result scenario( pbt::Case & c, chk::Fam fam, Variant const & v )
	{
		auto & t = c.t;
		Result r;
		auto o = chk::family( c, fam );
		o.maxPasses = std::min( o.maxPasses, 8u );
		auto renamed = [&v]( std::string s ) { return v.salt ? pbt::fmt( "%08zx ", std::hash< std::string >{}( s + std::to_string( v.salt ) ) & 0xFFFFFFFFu ) + s : s; };
		o.name = renamed;
		Scramble scramble{ v.heap };
		World w{ c, o };
		w.dev->next += v.handles;
		w.dev->handleMask = v.mask;
		for ( uint32_t i = 0u; i < v.ids; ++i )
		{
			auto img = chk::image( w, "junk " + std::to_string( i ), VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_SAMPLED_BIT );
			if ( i & 1u ) chk::view( w, "junk view " + std::to_string( i ), img, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } );
		}
		w.genImages();
		w.genBuffers();
		auto n = t.range( 1u, 2u );
		for ( uint32_t i = 0u; i < n; ++i )
		{
			auto & g = w.genGraph( "G" + std::to_string( i ) );
			if ( i && t.flag() ) g.depends.push_back( 0 );
		}
		r.log = w.describe();
		if ( v.salt )
			for ( auto & g : w.graphs )
			{
				g->name = renamed( g->name );
				for ( auto & gr : g->groups ) gr.name = renamed( gr.name );
				for ( auto & p : g->passes ) p->name = renamed( p->name );
			}
		std::unique_ptr< Other > other;
		if ( v.other && v.ids % 2u ) other = std::make_unique< Other >( w );
		for ( auto & g : w.graphs ) w.build( *g );
		if ( v.other && !other ) other = std::make_unique< Other >( w );
		if ( other ) other->compile( w );
		for ( auto & g : w.graphs ) { w.compile( *g ); r.planned.push_back( planned( w, *g ) ); }
		Canon canon{ *w.dev };
		auto frames = t.range( 1u, std::min( o.frames, 4u ) );
		for ( uint32_t f = 0u; f < frames; ++f )
			for ( auto & g : w.graphs )
			{
				if ( other ) other->run();
				w.setFrame( *g, f );
				w.provideExternals( *g );
				g->rg->run( sim::queueHandle() );
				g->lastCb = reinterpret_cast< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
				auto & cmds = w.commands( *g );
				r.cmds += cmds.size();
				for ( auto & cmd : cmds ) if ( cmd.k == sim::CK::Barrier ) ++r.transitions;
				r.frames.push_back( canon.stream( cmds ) );
				r.finals.push_back( finals( w, *g ) );
			}
		if ( !v.salt ) chk::noteKinds( c, w );
		w.dev->completeAll();
		if ( other ) { other->rg.reset(); other->fg.reset(); }
		return r;
	}

	void twin( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		Variant v;
		auto kinds = t.below( 64u );
		if ( kinds & 1u ) v.salt = 1u + t.below( 1000u );
		if ( kinds & 2u ) v.handles = t.below( 100000u );
		if ( kinds & 4u ) v.mask = t.below( 1u << 16u );
		if ( kinds & 8u ) v.heap = 1u + t.below( 100000u );
		if ( kinds & 16u ) v.ids = t.below( 12u );
		v.other = ( kinds & 32u ) != 0u;
		auto start = t.pos();
		auto a = scenario( c, fam, {} );
		std::vector< uint32_t > slice( t.data().begin() + std::ptrdiff_t( std::min( start, t.data().size() ) ), t.data().begin() + std::ptrdiff_t( std::min( t.pos(), t.data().size() ) ) );
		pbt::Tape t2{ slice };
		pbt::Case c2{ t2, c.verbose };
		c2.thorough = c.thorough;
		c.sample = a.log + pbt::fmt( "twin: names %u, handles from %u permuted by %x, addresses %u, %u resources before, other graph %d\n", v.salt, v.handles, v.mask, v.heap, v.ids, int( v.other ) );
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		auto b = scenario( c2, fam, v );
		auto same = [&]( char const * what, std::vector< std::string > const & x, std::vector< std::string > const & y )
		{
			c.check( x.size() == y.size(), std::string( what ) + ": not as many" );
			for ( size_t i = 0u; i < x.size(); ++i )
				c.check( x[i] == y[i], pbt::fmt( "%s: %zu of the twin differs, %s", what, i, firstDiff( x[i], y[i] ).c_str() ) );
		};
		same( "plan", a.planned, b.planned );
		same( "commands", a.frames, b.frames );
		same( "states", a.finals, b.finals );
		if ( v.salt ) c.note( "other names" );
		if ( v.handles || v.mask ) c.note( "other handles" );
		if ( v.heap ) c.note( "other addresses" );
		if ( v.ids ) c.note( "other ids" );
		if ( v.other ) c.note( "with another graph" );
		if ( kinds && a.transitions >= 2u ) c.nt( c.sample );
	}

	// The same enabled passes and indices, frame after frame.
	void settles( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		auto before = t.below( 4u );      // frames of another configuration first
		auto constant = t.range( 4u, c.thorough ? 8u : 5u );
		o.frames = before + 1u;
		auto start = t.pos();
		auto once = [&]( pbt::Case & cc, bool history, std::vector< std::string > & settled )
		{
			World w{ cc, o };
			w.genImages();
			w.genBuffers();
			auto n = cc.t.range( 1u, 2u );
			for ( uint32_t i = 0u; i < n; ++i )
			{
				auto & g = w.genGraph( "G" + std::to_string( i ) );
				if ( i && cc.t.flag() ) g.depends.push_back( 0 );
			}
			if ( history )
			{
				c.sample = w.describe() + pbt::fmt( "%u frames, then %u with the configuration of the last\n", before, constant );
				if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
			}
			for ( auto & g : w.graphs ) w.build( *g );
			for ( auto & g : w.graphs ) w.compile( *g );
			size_t barriers = 0u;
			auto step = [&]( Graph & g, uint32_t f )
			{
				w.setFrame( g, f );
				w.provideExternals( g );
				g.rg->run( sim::queueHandle() );
				g.lastCb = reinterpret_cast< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
			};
			if ( history ) for ( uint32_t f = 0u; f < before; ++f ) for ( auto & g : w.graphs ) step( *g, f );
			std::vector< std::string > ref( n ), fin( n );
			Canon named{ *w.dev };
			for ( uint32_t k = 0u; k < constant; ++k )
				for ( uint32_t i = 0u; i < n; ++i )
				{
					auto & g = *w.graphs[i];
					auto made = w.dev->order.size();
					step( g, before );
					if ( !k ) continue;
					auto & cmds = w.commands( g );
					if ( c.verbose && history ) chk::trace( c, w, g, k );
					Canon canon{ *w.dev, true };
					auto now = canon.stream( cmds );
					auto st = finals( w, g );
					if ( k == 1u )
					{
						ref[i] = now;
						fin[i] = st;
						// a graph knows what the ones it depends on did last, however long ago
						if ( g.depends.empty() ) settled.push_back( named.stream( cmds ) );
						else (void)named.stream( cmds );
						for ( auto & cmd : cmds ) if ( cmd.k == sim::CK::Barrier ) ++barriers;
						continue;
					}
					c.check( now == ref[i], pbt::fmt( "unsettled: repetition %u of %s records other commands, %s", k + 1u, g.name.c_str(), firstDiff( ref[i], now ).c_str() ) );
					c.check( st == fin[i], pbt::fmt( "states: repetition %u of %s ends in other states, %s", k + 1u, g.name.c_str(), firstDiff( fin[i], st ).c_str() ) );
					c.check( w.dev->order.size() == made, pbt::fmt( "objects: repetition %u of %s creates %s", k + 1u, g.name.c_str(), w.dev->order.size() > made ? w.dev->show( w.dev->order[made] ).c_str() : "" ) );
				}
			if ( history )
			{
				chk::noteKinds( c, w );
				if ( before ) c.note( "after other configurations" );
				if ( n > 1u ) c.note( "two graphs" );
				if ( barriers >= 2u ) c.nt( c.sample );
			}
			w.dev->completeAll();
		};
		std::vector< std::string > a, b;
		once( c, true, a );
		if ( !before ) return;
		// what came before the settled frames leaves no trace in what they record
		std::vector< uint32_t > slice( t.data().begin() + std::ptrdiff_t( std::min( start, t.data().size() ) ), t.data().begin() + std::ptrdiff_t( std::min( t.pos(), t.data().size() ) ) );
		pbt::Tape t2{ slice };
		pbt::Case c2{ t2, c.verbose };
		c2.thorough = c.thorough;
		once( c2, false, b );
		for ( size_t i = 0u; i < a.size(); ++i )
			c.check( a[i] == b[i], pbt::fmt( "history: what came before the settled frames of graph %zu still shows, %s", i, firstDiff( b[i], a[i] ).c_str() ) );
	}

	// A pass recorded again on its own records what it recorded into the frame, as often as asked for, and the
	// following frames do not notice.
	void alone( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.resettable = true;
		o.frames = t.range( 2u, c.thorough ? 6u : 4u );
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		c.sample = w.describe();
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		w.build( g );
		w.compile( g );
		size_t again = 0u, barriers = 0u;
		for ( uint32_t f = 0u; f < o.frames; ++f )
		{
			w.setFrame( g, f );
			std::string before;
			auto times = t.range( 1u, 3u );
			for ( uint32_t k = 0u; k < 2u + times; ++k )
			{
				w.provideExternals( g );
				g.rg->run( sim::queueHandle() );
				g.lastCb = reinterpret_cast< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
				chk::trace( c, w, g, f );
				auto cmds = w.commands( g );
				Canon canon{ *w.dev, true };
				auto now = canon.stream( cmds );
				if ( k >= 2u ) c.check( now == before, pbt::fmt( "disturbed: after passes were recorded on their own, frame %u has other commands, %s", f, firstDiff( before, now ).c_str() ) );
				before = now;
				w.dev->completeAll();
				if ( k ) for ( auto & s : chk::spans( w, g ) )
				{
					auto & p = *s.p;
					if ( !( p.resettable || p.kind == PK::Quad || p.kind == PK::Mesh ) || !t.chance( 60u ) ) continue;
					auto expected = canon.stream( { cmds.begin() + std::ptrdiff_t( s.begin ), cmds.begin() + std::ptrdiff_t( s.end ) + 1 } );
					for ( auto n = t.range( 1u, 3u ); n; --n )
					{
						auto ev = w.dev->events.size();
						auto index = p.rp->reRecordCurrent();
						c.check( index == p.index, pbt::fmt( "index: recording p%u again returns %u instead of %u", p.id, index, p.index ) );
						uint64_t cb = 0u;
						for ( ; ev < w.dev->events.size(); ++ev ) if ( std::string( w.dev->events[ev].what ) == "begin cmdbuf" ) cb = w.dev->events[ev].h;
						auto obj = w.dev->find( cb, sim::Ty::CmdBuf );
						c.check( obj && cb != sim::u( g.lastCb ), pbt::fmt( "own: p%u does not record into a command buffer of its own", p.id ) );
						if ( c.verbose ) { fprintf( stderr, "--- p%u again\n", p.id ); for ( auto & cmd : obj->cmds ) fprintf( stderr, "%s\n", sim::dump( cmd ).c_str() ); }
						auto got = canon.stream( obj->cmds );
						c.check( got == expected, pbt::fmt( "again: p%u recorded on its own has other commands than in frame %u, %s", p.id, f, firstDiff( expected, got ).c_str() ) );
						++again;
						for ( auto & cmd : obj->cmds ) if ( cmd.k == sim::CK::Barrier ) ++barriers;
					}
				}
			}
		}
		chk::noteKinds( c, w );
		if ( again >= 2u && barriers ) c.nt( c.sample );
	}
}
PBT_CHECK( "C22", "twin", 8000, 200000, "the twin differs, and at least 2 barriers are recorded" ) { twin( c, chk::Fam::Any ); }
PBT_CHECK( "C22", "twin-dense", 5000, 120000, "the twin differs, and at least 2 barriers are recorded" ) { twin( c, chk::Fam::Dense ); }
PBT_CHECK( "C22", "twin-renders", 5000, 120000, "the twin differs, and at least 2 barriers are recorded" ) { twin( c, chk::Fam::Renders ); }
PBT_CHECK( "C22", "settles", 8000, 200000, "the settled frames record at least 2 barriers" ) { settles( c, chk::Fam::Any ); }
PBT_CHECK( "C22", "settles-dense", 5000, 120000, "the settled frames record at least 2 barriers" ) { settles( c, chk::Fam::Dense ); }
PBT_CHECK( "C22", "settles-renders", 5000, 120000, "the settled frames record at least 2 barriers" ) { settles( c, chk::Fam::Renders ); }
PBT_CHECK( "C22", "alone", 5000, 120000, "passes are recorded on their own at least twice, with barriers" ) { alone( c, chk::Fam::Any ); }
PBT_CHECK( "C22", "alone-renders", 3000, 80000, "passes are recorded on their own at least twice, with barriers" ) { alone( c, chk::Fam::Renders ); }
