// C17: signals reach exactly the connected slots; queued deletions run exactly once.
#include "direct.hpp"
#include <RenderGraph/Signal.hpp>
using namespace gg;

namespace
{
	using Slot = std::function< void( int, std::string ) >;
	using Signal = crg::Signal< Slot >;
	using Conn = crg::SignalConnection< Signal >;

	// Signals, connections and slots, with a model of what is connected.
	struct Net
	{
		pbt::Case & c;
		pbt::Tape & t;
		bool reentrant;
		struct S { std::unique_ptr< Signal > s; int depth{}; };
		std::vector< S > sigs;
		struct C { std::unique_ptr< Conn > c; int slot{ -1 }; };
		std::vector< C > conns;
		struct Sl { int sig; bool connected; };
		std::vector< Sl > slots;
		struct Emission { int sig; int arg; std::string text; std::set< int > atStart, gone; std::map< int, int > calls; };
		std::vector< Emission * > stack;
		int budget{}; // operations the slots may still do
		std::string log;
		size_t emitted{}, nested{}, moved{}, changed{}, sigGone{};

		explicit Net( pbt::Case & c, bool reentrant ) : c{ c }, t{ c.t }, reentrant{ reentrant } {}
		void say( std::string s ) { log += std::string( stack.size() * 2u, ' ' ) + s + "\n"; }
		void drop( int slot )
		{
			if ( slot < 0 ) return;
			slots[size_t( slot )].connected = false;
			for ( auto e : stack ) e->gone.insert( slot );
		}
		void called( int slot, int arg, std::string const & text )
		{
			auto & s = slots[size_t( slot )];
			c.check( !stack.empty(), pbt::fmt( "call: slot %d called without an emission\n", slot ) + log );
			auto & e = *stack.back();
			c.check( e.sig == s.sig, pbt::fmt( "call: slot %d called by another signal\n", slot ) + log );
			c.check( s.connected, pbt::fmt( "call: slot %d called after its disconnection\n", slot ) + log );
			c.check( arg == e.arg && text == e.text, pbt::fmt( "args: slot %d called with (%d, '%s'), emitted (%d, '%s')\n", slot, arg, text.c_str(), e.arg, e.text.c_str() ) + log );
			c.check( ++e.calls[slot] == 1, pbt::fmt( "call: slot %d called twice in an emission\n", slot ) + log );
			if ( reentrant && budget > 0 && t.chance( 40 ) )
			{
				--budget;
				++changed;
				op( true );
			}
		}
		void emit( int sig )
		{
			Emission e{ sig, int( t.below( 1000u ) ), t.flag() ? "a text long enough not to be stored inside of the string object itself" : "" };
			for ( size_t i = 0u; i < slots.size(); ++i ) if ( slots[i].connected && slots[i].sig == sig ) e.atStart.insert( int( i ) );
			say( pbt::fmt( "emit signal %d (%d)", sig, e.arg ) );
			if ( !stack.empty() ) ++nested;
			stack.push_back( &e );
			++sigs[size_t( sig )].depth;
			auto & s = *sigs[size_t( sig )].s;
			if ( t.flag() ) s( e.arg, std::string( e.text ) );
			else { auto a = e.arg; auto b = e.text; s( a, b ); }
			--sigs[size_t( sig )].depth;
			stack.pop_back();
			++emitted;
			for ( auto i : e.atStart )
				if ( !e.gone.count( i ) ) c.check( e.calls[i] == 1, pbt::fmt( "call: slot %d, connected to signal %d, called %d times\n", i, sig, e.calls[i] ) + log );
		}
		int pickConn( bool live )
		{
			std::vector< int > l;
			for ( size_t i = 0u; i < conns.size(); ++i ) if ( conns[i].c && ( !live || conns[i].slot >= 0 ) ) l.push_back( int( i ) );
			return l.empty() ? -1 : l[t.below( uint32_t( l.size() ) )];
		}
		int pickSig()
		{
			std::vector< int > l;
			for ( size_t i = 0u; i < sigs.size(); ++i ) if ( sigs[i].s ) l.push_back( int( i ) );
			return l.empty() ? -1 : l[t.below( uint32_t( l.size() ) )];
		}
		void op( bool inside )
		{
			switch ( t.below( inside ? 10u : 14u ) )
			{
			case 0u: case 1u: case 2u:
				{
					auto s = pickSig();
					if ( s < 0 ) break;
					auto id = int( slots.size() );
					slots.push_back( { s, true } );
					auto how = t.below( 3u );
					say( pbt::fmt( "connect slot %d to signal %d%s", id, s, how == 2u ? ", over another connection" : "" ) );
					auto conn = sigs[size_t( s )].s->connect( [this, id]( int a, std::string b ){ called( id, a, b ); } );
					auto k = how == 2u ? pickConn( false ) : -1;
					if ( k < 0 ) conns.push_back( { std::make_unique< Conn >( std::move( conn ) ), id } );
					else
					{
						auto old = conns[size_t( k )].slot;
						conns[size_t( k )].slot = id;
						drop( old );
						*conns[size_t( k )].c = std::move( conn );
					}
				}
				break;
			case 3u: case 4u:
				{
					auto k = pickConn( false );
					if ( k < 0 ) break;
					auto & x = conns[size_t( k )];
					say( pbt::fmt( "disconnect connection %d (slot %d)", k, x.slot ) );
					drop( x.slot );
					x.slot = -1;
					x.c->disconnect();
				}
				break;
			case 5u:
				{
					auto k = pickConn( false );
					if ( k < 0 ) break;
					say( pbt::fmt( "destroy connection %d (slot %d)", k, conns[size_t( k )].slot ) );
					drop( conns[size_t( k )].slot );
					conns[size_t( k )].slot = -1;
					conns[size_t( k )].c.reset();
				}
				break;
			case 6u:
				{
					auto a = pickConn( true ), b = pickConn( false );
					if ( a < 0 || b < 0 ) break;
					++moved;
					say( pbt::fmt( "move connection %d (slot %d) into %d (slot %d)", a, conns[size_t( a )].slot, b, conns[size_t( b )].slot ) );
					if ( a == b )
					{
						auto & self = *conns[size_t( a )].c;
						*conns[size_t( b )].c = std::move( self );
						break;
					}
					drop( conns[size_t( b )].slot );
					conns[size_t( b )].slot = conns[size_t( a )].slot;
					conns[size_t( a )].slot = -1;
					*conns[size_t( b )].c = std::move( *conns[size_t( a )].c );
				}
				break;
			case 7u:
				{
					auto a = pickConn( false );
					if ( a < 0 ) break;
					++moved;
					say( pbt::fmt( "new connection %zu from %d (slot %d)", conns.size(), a, conns[size_t( a )].slot ) );
					conns.push_back( { std::make_unique< Conn >( std::move( *conns[size_t( a )].c ) ), conns[size_t( a )].slot } );
					conns[size_t( a )].slot = -1;
				}
				break;
			case 8u: case 9u: default:
				{
					auto s = pickSig();
					if ( s < 0 || stack.size() > 2u ) break;
					emit( s );
				}
				break;
			case 11u:
				{
					say( pbt::fmt( "new signal %zu", sigs.size() ) );
					if ( sigs.size() < 6u ) sigs.push_back( { std::make_unique< Signal >() } );
				}
				break;
			case 12u:
				{
					auto s = pickSig();
					if ( s < 0 || sigs[size_t( s )].depth ) break;
					++sigGone;
					say( pbt::fmt( "destroy signal %d", s ) );
					for ( size_t i = 0u; i < slots.size(); ++i ) if ( slots[i].sig == s && slots[i].connected ) drop( int( i ) );
					for ( auto & x : conns ) if ( x.slot >= 0 && slots[size_t( x.slot )].sig == s ) x.slot = -1;
					sigs[size_t( s )].s.reset();
				}
				break;
			}
			for ( size_t i = 0u; i < conns.size(); ++i )
				if ( conns[i].c ) c.check( conns[i].c->isValid() == ( conns[i].slot >= 0 ), pbt::fmt( "valid: connection %zu says it is %svalid\n", i, conns[i].c->isValid() ? "" : "in" ) + log );
		}
	};

	void signals( pbt::Case & c, bool reentrant )
	{
		auto & t = c.t;
		Net n{ c, reentrant };
		n.sigs.push_back( { std::make_unique< Signal >() } );
		if ( t.flag() ) n.sigs.push_back( { std::make_unique< Signal >() } );
		auto steps = t.range( 4u, c.thorough ? 60u : 30u );
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			n.budget = 6;
			n.op( false );
		}
		for ( size_t i = 0u; i < n.sigs.size(); ++i ) if ( n.sigs[i].s ) { n.budget = 2; n.emit( int( i ) ); }
		// the sides go in any order
		bool sigsFirst = t.flag();
		if ( sigsFirst )
		{
			n.sigs.clear();
			for ( auto & x : n.conns ) if ( x.c ) c.check( !x.c->isValid(), "valid: a connection outlives all signals and is valid\n" + n.log );
			n.conns.clear();
		}
		else
		{
			n.conns.clear();
			for ( auto & s : n.slots ) s.connected = false;
			for ( size_t i = 0u; i < n.sigs.size(); ++i ) if ( n.sigs[i].s ) n.emit( int( i ) );
		}
		if ( n.nested ) c.note( "nested emission" );
		if ( n.moved ) c.note( "moved" );
		if ( n.changed ) c.note( "changed while emitting" );
		if ( n.sigGone ) c.note( "signal destroyed" );
		if ( n.emitted > 1u && n.moved && ( !reentrant || n.changed ) ) c.nt( n.log );
		c.sample = n.log;
	}
}

PBT_CHECK( "C17", "signals", 60000, 600000, "two emissions or more, with moved connections" ) { signals( c, false ); }
PBT_CHECK( "C17", "reentrant", 60000, 600000, "two emissions or more, with moved connections and slots which connect, disconnect or emit" ) { signals( c, true ); }

PBT_CHECK( "C17", "deletions", 40000, 400000, "two clears or more, and something queued while clearing" )
{
	auto & t = c.t;
	gg::silence();
	sim::Device dev;
	std::string log;
	std::vector< int > expected, done;
	int next = 0;
	size_t clears = 0u, within = 0u;
	bool last = false;
	{
		// the library's own queue, with the context which is given to the functions
		auto ctx = std::make_unique< crg::GraphContext >( sim::deviceHandle(), VkPipelineCache{}, nullptr, sim::memProps(), sim::devProps(), false, &sim::getDeviceProcAddr );
		crg::GraphContext * me = ctx.get();
		crg::DeletionQueue own;
		bool useOwn = t.flag();
		crg::DeletionQueue & q = useOwn ? own : ctx->delQueue;
		std::vector< int > waiting; // queued, not run yet
		std::vector< int > tape;
		std::function< void( int ) > push = [&]( int depth )
		{
			auto id = next++;
			auto more = depth < 3 && t.chance( 30 ) ? t.range( 1u, 2u ) : 0u;
			waiting.push_back( id );
			log += pbt::fmt( "queue %d%s\n", id, more ? " (which queues more)" : "" );
			// a payload which must live until the function ran
			auto payload = std::make_shared< int >( id );
			q.push( [&, id, more, depth, payload]( crg::GraphContext & x )
				{
					c.check( &x == me, "deletion: called with another context\n" + log );
					c.check( *payload == id, "deletion: payload lost\n" + log );
					done.push_back( id );
					log += pbt::fmt( "  deletion %d\n", id );
					if ( last ) return;
					for ( uint32_t k = 0u; k < more; ++k ) { ++within; push( depth + 1 ); }
				} );
		};
		auto steps = t.range( 2u, c.thorough ? 30u : 15u );
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			if ( t.chance( 70 ) ) { push( 0 ); continue; }
			expected = waiting;
			waiting.clear();
			done.clear();
			log += "clear\n";
			++clears;
			q.clear( *me );
			c.check( done == expected, pbt::fmt( "deletion: %zu done in a clear, %zu queued before it, or in another order\n", done.size(), expected.size() ) + log );
		}
		expected = waiting;
		done.clear();
		last = true;
		log += "destroy the context\n";
		if ( useOwn ) own.clear( *me );
		ctx.reset();
	}
	c.check( done == expected, pbt::fmt( "deletion: %zu done with the context, %zu still queued\n", done.size(), expected.size() ) + log );
	if ( within ) c.note( "queued while clearing" );
	if ( clears > 1u && within ) c.nt( log );
	c.sample = log;
}

PBT_CHECK( "C17", "timers", 3000, 30000, "several timers tell their destruction to their slots" )
{
	// The signal the library itself owns: timers tell their destruction.
	auto & t = c.t;
	auto o = chk::family( c, chk::Fam::Any );
	o.maxPasses = 4u;
	o.resettable = true;
	World w{ c, o };
	w.genImages();
	w.genBuffers();
	auto & g = w.genGraph( "G" );
	auto desc = w.describe();
	w.build( g );
	w.compile( g );
	w.setFrame( g, 0u );
	w.run( g );
	using Timers = decltype( crg::FramePassTimer::onDestroy );
	std::map< crg::FramePassTimer const *, int > connected, calls;
	std::vector< crg::SignalConnection< Timers > > conns;
	auto connect = [&]( crg::FramePassTimer & tm )
	{
		auto k = t.below( 3u );
		for ( uint32_t i = 0u; i < k; ++i )
		{
			auto p = &tm;
			auto name = tm.getName();
			conns.push_back( tm.onDestroy.connect( [&, p, name]( crg::FramePassTimer & x )
				{
					c.check( &x == p && x.getName() == name, "timer: another timer's destruction is told\n" + desc );
					++calls[p];
				} ) );
			if ( t.chance( 20 ) ) conns.pop_back(); else ++connected[p];
		}
	};
	for ( auto & p : g.passes ) connect( p->rp->getTimer() );
	connect( g.rg->getTimer() );
	c.check( calls.empty(), "timer: destruction told before it\n" + desc );
	w.dev->completeAll();
	g.rg.reset();
	c.check( calls == connected, "timer: destruction not told once to each slot\n" + desc );
	for ( auto & x : conns ) c.check( !x.isValid(), "timer: a connection outlives the timer\n" + desc );
	if ( connected.size() > 1u ) c.nt( desc );
	c.sample = desc;
}
