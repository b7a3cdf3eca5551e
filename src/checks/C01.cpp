// C01: passes run once, after their dependencies; bad graphs are rejected.
#include "frames.hpp"
#include <RenderGraph/Exception.hpp>
using namespace gg;

namespace
{
	struct Spec
	{
		uint32_t n{};
		std::vector< int > parent;           // groups; 0 is the default one
		std::vector< std::string > gname;
		std::vector< int > group;            // per pass
		std::vector< std::string > pname;
		std::vector< std::vector< uint32_t > > deps;
		std::vector< uint32_t > creation;
		std::vector< bool > enabled;
	};

	void permute( pbt::Tape & t, std::vector< uint32_t > & v )
	{
		for ( size_t i = v.size(); i > 1u; --i ) std::swap( v[i - 1u], v[t.below( uint32_t( i ) )] );
	}

	Spec gen( pbt::Case & c, uint32_t maxN, bool acyclic )
	{
		auto & t = c.t;
		Spec s;
		s.n = t.range( 1u, maxN );
		uint32_t groups = 1u + t.below( 5u );
		s.parent.push_back( -1 );
		s.gname.push_back( "G" );
		for ( uint32_t i = 1u; i < groups; ++i )
		{
			s.parent.push_back( int( t.below( i ) ) );
			s.gname.push_back( "g" + std::to_string( t.flag() ? i : t.below( 3u ) ) );
			// the same name twice below one parent is one and the same group
			for ( uint32_t j = 1u; j < i; ++j )
				if ( s.parent[j] == s.parent[i] && s.gname[j] == s.gname[i] ) { s.gname[i] = "u" + std::to_string( i ); break; }
		}
		std::vector< uint32_t > rank( s.n );
		for ( uint32_t i = 0u; i < s.n; ++i ) rank[i] = i;
		permute( t, rank );
		uint32_t density = t.pick( { 10u, 25u, 50u, 80u } );
		s.deps.resize( s.n );
		for ( uint32_t i = 0u; i < s.n; ++i )
			for ( uint32_t j = 0u; j < s.n; ++j )
				if ( ( acyclic ? rank[j] < rank[i] : true ) && t.chance( density ) )
				{
					s.deps[i].push_back( j );
					if ( t.chance( 5 ) ) s.deps[i].push_back( j );
				}
		for ( uint32_t i = 0u; i < s.n; ++i )
		{
			permute( t, s.deps[i] );
			s.group.push_back( int( t.below( groups ) ) );
			s.pname.push_back( t.chance( 30 ) ? "same" : "p" + std::to_string( i ) );
			for ( uint32_t j = 0u; j < i; ++j )
				if ( s.group[j] == s.group[i] && s.pname[j] == s.pname[i] ) { s.pname[i] = "p" + std::to_string( i ); break; }
			s.creation.push_back( i );
			s.enabled.push_back( !t.chance( 20 ) );
		}
		permute( t, s.creation );
		return s;
	}

	std::string show( Spec const & s )
	{
		std::string r = "groups";
		for ( size_t i = 0u; i < s.parent.size(); ++i ) r += pbt::fmt( " %s<%d", s.gname[i].c_str(), s.parent[i] );
		r += "\n";
		for ( auto i : s.creation )
		{
			r += pbt::fmt( "p%u '%s' in g%d%s after", i, s.pname[i].c_str(), s.group[i], s.enabled[i] ? "" : " (disabled)" );
			for ( auto d : s.deps[i] ) r += pbt::fmt( " p%u", d );
			r += "\n";
		}
		return r;
	}

	struct Built
	{
		World w;
		std::vector< uint32_t > order; // recorded passes, in order
		std::unique_ptr< crg::FrameGraph > fg;
		std::vector< crg::FramePassGroup * > groups;
		std::vector< crg::FramePass * > passes;
		crg::RunnableGraphPtr rg;
		Spec s;
		std::vector< uint32_t > runnables;
		Built( pbt::Case & c, Spec sp ) : w{ c, Opts{} }, s{ std::move( sp ) }
		{
			fg = std::make_unique< crg::FrameGraph >( *w.handler, "G" );
			for ( size_t i = 0u; i < s.parent.size(); ++i )
			{
				if ( i == 0u ) groups.push_back( &fg->getDefaultGroup() );
				else groups.push_back( &groups[size_t( s.parent[i] )]->createPassGroup( s.gname[i] ) );
			}
			passes.resize( s.n );
			for ( auto i : s.creation )
			{
				auto create = [this, i]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rgr )
				{
					runnables.push_back( i );
					return std::make_unique< crg::RunnablePass >( fp, ctx, rgr
						, crg::RunnablePass::Callbacks{ []( uint32_t ){}
							, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } )
							, [this, i]( crg::RecordContext &, VkCommandBuffer cb, uint32_t ){ order.push_back( i ); sim::cmdMark( cb, "pass:G/" + std::to_string( i ) ); }
							, crg::RunnablePass::GetPassIndexCallback( [](){ return 0u; } )
							, crg::RunnablePass::IsEnabledCallback( [this, i](){ return bool( s.enabled[i] ); } ) }
						, crg::ru::Config{} );
				};
				if ( s.group[i] == 0 && i % 2u ) passes[i] = &fg->createPass( s.pname[i], create );
				else passes[i] = &groups[size_t( s.group[i] )]->createPass( s.pname[i], create );
			}
			for ( uint32_t i = 0u; i < s.n; ++i )
			{
				if ( i % 3u == 0u ) { crg::FramePassArray a; for ( auto d : s.deps[i] ) a.push_back( passes[d] ); passes[i]->addDependencies( a ); }
				else for ( auto d : s.deps[i] ) passes[i]->addDependency( *passes[d] );
			}
		}
		void frame() { order.clear(); rg->run( sim::queueHandle() ); }
	};

	void checkOnce( pbt::Case & c, Built & b )
	{
		std::map< uint32_t, int > seen;
		for ( auto i : b.order ) ++seen[i];
		for ( uint32_t i = 0u; i < b.s.n; ++i )
		{
			int want = b.s.enabled[i] ? 1 : 0;
			c.check( seen[i] == want, pbt::fmt( "count: pass p%u recorded %d times, expected %d", i, seen[i], want ) );
		}
	}

	void checkOrder( pbt::Case & c, Built & b )
	{
		auto n = b.s.n;
		// transitive closure of the declared dependencies
		std::vector< std::vector< bool > > reach( n, std::vector< bool >( n ) );
		for ( uint32_t i = 0u; i < n; ++i ) for ( auto d : b.s.deps[i] ) reach[i][d] = true;
		for ( uint32_t k = 0u; k < n; ++k ) for ( uint32_t i = 0u; i < n; ++i ) for ( uint32_t j = 0u; j < n; ++j ) if ( reach[i][k] && reach[k][j] ) reach[i][j] = true;
		for ( size_t x = 0u; x < b.order.size(); ++x )
			for ( size_t y = x + 1u; y < b.order.size(); ++y )
				c.check( !reach[b.order[x]][b.order[y]], pbt::fmt( "order: pass p%u recorded before p%u it depends on", b.order[x], b.order[y] ) );
	}
}

PBT_CHECK( "C01", "order", 12000, 300000, "at least 3 passes and 2 dependencies" )
{
	auto s = gen( c, c.thorough ? 14u : 12u, true );
	c.sample = show( s );
	if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
	Built b{ c, s };
	try { b.rg = b.fg->compile( *b.w.ctx ); }
	catch ( crg::Exception & e ) { c.fail( std::string( "rejected: acyclic graph rejected: " ) + e.what() ); }
	c.check( b.rg != nullptr, "rejected: no runnable graph" );
	c.check( b.runnables.size() == s.n && std::set< uint32_t >( b.runnables.begin(), b.runnables.end() ).size() == s.n, "runnables: each pass must have its runnable created once" );
	size_t deps = 0u;
	for ( auto & d : s.deps ) deps += d.size();
	for ( uint32_t f = 0u; f < 3u; ++f )
	{
		b.frame();
		if ( c.verbose ) for ( auto i : b.order ) fprintf( stderr, "frame %u: p%u\n", f, i );
		checkOnce( c, b );
		checkOrder( c, b );
		for ( uint32_t i = 0u; i < s.n; ++i ) if ( c.t.chance( 30 ) ) b.s.enabled[i] = !b.s.enabled[i];
	}
	// What was submitted is what was recorded.
	{
		for ( uint32_t i = 0u; i < s.n; ++i ) b.s.enabled[i] = true;
		b.frame();
		checkOnce( c, b );
		checkOrder( c, b );
		std::vector< uint32_t > executed;
		for ( auto & cmd : b.w.dev->find( b.w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds )
			if ( cmd.k == sim::CK::Mark ) executed.push_back( uint32_t( std::stoul( cmd.s.substr( 7u ) ) ) );
		c.check( executed == b.order, "submitted: the submitted commands are not those recorded" );
	}
	c.note( pbt::fmt( "%s passes", s.n < 3u ? "1-2" : s.n < 7u ? "3-6" : "7+" ) );
	if ( s.parent.size() > 1u ) c.note( "nested groups" );
	if ( s.n >= 3u && deps >= 2u ) c.nt( c.sample );
}

PBT_CHECK( "C01", "cycles", 4000, 100000, "the dependency relation has a cycle" )
{
	auto s = gen( c, 7u, false );
	c.sample = show( s );
	if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
	auto n = s.n;
	std::vector< std::vector< bool > > reach( n, std::vector< bool >( n ) );
	for ( uint32_t i = 0u; i < n; ++i ) for ( auto d : s.deps[i] ) reach[i][d] = true;
	for ( uint32_t k = 0u; k < n; ++k ) for ( uint32_t i = 0u; i < n; ++i ) for ( uint32_t j = 0u; j < n; ++j ) if ( reach[i][k] && reach[k][j] ) reach[i][j] = true;
	bool cyclic = false, root = false;
	for ( uint32_t i = 0u; i < n; ++i ) { cyclic = cyclic || reach[i][i]; root = root || s.deps[i].empty(); }
	Built b{ c, s };
	bool rejected = false;
	try { b.rg = b.fg->compile( *b.w.ctx ); }
	catch ( crg::Exception & ) { rejected = true; }
	if ( !cyclic ) c.check( !rejected, "rejected: acyclic graph rejected" );
	if ( cyclic && root )
	{
		c.check( rejected, "accepted: a cycle next to a dependency-free pass was accepted" );
		c.note( "cycle with root" );
	}
	if ( !rejected )
	{
		for ( uint32_t i = 0u; i < n; ++i ) b.s.enabled[i] = true;
		b.frame();
		checkOnce( c, b );
		if ( !cyclic ) checkOrder( c, b );
		else c.note( "cycle without root, accepted" );
	}
	else if ( cyclic && !root ) c.note( "cycle without root, rejected" );
	if ( cyclic ) c.nt( c.sample );
}

// Names, groups and the rejections that depend on them.
PBT_CHECK( "C01", "groups", 6000, 100000, "at least 4 operations" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	crg::FrameGraph fg{ *w.handler, "G" };
	struct G { crg::FramePassGroup * g; std::string full; std::map< std::string, size_t > subs; std::set< std::string > passes; std::vector< crg::FramePass * > list; std::vector< size_t > order; };
	std::vector< G > groups;
	groups.push_back( { &fg.getDefaultGroup(), "G", {}, {}, {}, {} } );
	auto create = []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
	{
		return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ); } ) }, crg::ru::Config{} );
	};
	if ( t.chance( 30 ) )
	{
		bool thrown = false;
		try { fg.compile( *w.ctx ); } catch ( crg::Exception & ) { thrown = true; }
		c.check( thrown, "empty: a graph without passes was accepted" );
	}
	uint32_t ops = t.range( 1u, 14u );
	std::string log;
	size_t total = 0u;
	std::set< uint32_t > ids;
	std::map< crg::FramePass *, std::string > fulls;
	for ( uint32_t i = 0u; i < ops; ++i )
	{
		auto gi = size_t( t.below( uint32_t( groups.size() ) ) );
		auto nm = std::string( 1u, char( 'a' + t.below( 3u ) ) );
		if ( t.chance( 35 ) )
		{
			log += groups[gi].full + ".group(" + nm + ") ";
			auto & g = gi == 0u && t.flag() ? fg.createPassGroup( nm ) : groups[gi].g->createPassGroup( nm );
			c.check( g.getName() == nm, "name: group has another name" );
			auto it = groups[gi].subs.find( nm );
			if ( it != groups[gi].subs.end() ) { c.check( groups[it->second].g == &g, "group: an existing sub-group name returned another group" ); c.note( "existing group" ); }
			else
			{
				for ( auto & o : groups ) c.check( o.g != &g, "group: a new sub-group is an existing one" );
				groups[gi].subs[nm] = groups.size();
				groups.push_back( { &g, groups[gi].full + "/" + nm, {}, {}, {}, {} } );
				c.check( g.getFullName() == groups.back().full, "name: full name of group is " + g.getFullName() + ", not " + groups.back().full );
			}
		}
		else
		{
			log += groups[gi].full + ".pass(" + nm + ") ";
			bool dup = groups[gi].passes.count( nm ) != 0u;
			c.check( groups[gi].g->hasPass( nm ) == dup, "hasPass: wrong answer for " + nm );
			bool thrown = false;
			crg::FramePass * fp{};
			try { fp = gi == 0u && t.flag() ? &fg.createPass( nm, create ) : &groups[gi].g->createPass( nm, create ); }
			catch ( crg::Exception & ) { thrown = true; }
			c.check( thrown == dup, dup ? "duplicate: a second pass with the same name in the group was accepted" : "duplicate: a pass with a new name in the group was rejected" );
			if ( dup ) { c.note( "duplicate name" ); continue; }
			++total;
			groups[gi].passes.insert( nm );
			groups[gi].list.push_back( fp );
			fulls[fp] = groups[gi].full + "/" + nm;
			c.check( fp->getName() == nm, "name: pass has another name" );
			c.check( fp->getFullName() == fulls[fp], "name: full name of pass is " + fp->getFullName() + ", not " + fulls[fp] );
			c.check( ids.insert( fp->id ).second, "id: two passes share an id" );
			c.check( &fp->group == groups[gi].g, "group: pass is in another group" );
		}
	}
	c.sample = log;
	crg::FramePassArray all;
	fg.getDefaultGroup().listPasses( all );
	std::set< crg::FramePass const * > listed( all.begin(), all.end() );
	c.check( all.size() == total && listed.size() == total, "list: the passes of the graph are not listed exactly once each" );
	for ( auto & g : groups ) for ( auto p : g.list ) c.check( listed.count( p ) != 0u, "list: pass missing from the list" );
	bool thrown = false;
	crg::RunnableGraphPtr rg;
	try { rg = fg.compile( *w.ctx ); } catch ( crg::Exception & ) { thrown = true; }
	c.check( thrown == ( total == 0u ), total ? "rejected: graph rejected" : "empty: a graph without passes was accepted" );
	if ( ops >= 4u ) c.nt( log );
}

// The same guarantee on graphs of every kind of pass, with attachments.
PBT_CHECK( "C01", "world", 3000, 80000, "at least 3 enabled passes recorded" )
{
	Opts o;
	o.maxPasses = c.thorough ? 10u : 8u;
	World w{ c, o };
	w.genImages();
	w.genBuffers();
	auto & g = w.genGraph( "G" );
	size_t most = 0u;
	chk::frames( c, w, g, [&]( uint32_t )
		{
			std::vector< Pass * > order;
			for ( auto & s : chk::spans( w, g ) ) order.push_back( s.p );
			std::map< Pass *, int > seen;
			for ( auto p : order ) ++seen[p];
			for ( auto & p : g.passes )
				c.check( seen[p.get()] == ( p->enabled ? 1 : 0 ), pbt::fmt( "count: pass p%u (%s) recorded %d times, enabled %d", p->id, gg::name( p->kind ), seen[p.get()], int( p->enabled ) ) );
			std::function< bool( int, int ) > reach = [&]( int a, int b ) { for ( auto d : g.passes[size_t( a )]->deps ) if ( d == b || reach( d, b ) ) return true; return false; };
			for ( size_t x = 0u; x < order.size(); ++x )
				for ( size_t y = x + 1u; y < order.size(); ++y )
					c.check( !reach( int( order[x]->id ), int( order[y]->id ) ), pbt::fmt( "order: pass p%u recorded before p%u it depends on", order[x]->id, order[y]->id ) );
			most = std::max( most, order.size() );
		} );
	if ( most >= 3u ) c.nt( c.sample );
}
