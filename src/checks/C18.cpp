// C18: the exported graph, parsed as DOT, against the compiled graph.
#include "direct.hpp"
#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/GraphNode.hpp>
using namespace gg;

namespace
{
	using std::string;
	using std::vector;

	//---------------------------------------------------------------- a DOT reader
	struct BadDot { string what; };
	using Attrs = std::map< string, string >;
	using Path = vector< string >; // names of the nested subgraphs
	struct Mention { string node; Path in; bool declared; Attrs attrs; };
	struct Edge { string from, to; Attrs attrs; Path in; };
	struct Cluster { string id; Path in; Attrs attrs; };
	struct Dot
	{
		string name; bool named{};
		vector< Mention > mentions;
		vector< Edge > edges;
		vector< Cluster > clusters;
	};

	// The escapes of the texts shown.
	string shown( string const & s, string const & node )
	{
		string r;
		for ( size_t i = 0u; i < s.size(); ++i )
		{
			if ( s[i] != '\\' || i + 1u == s.size() ) { r += s[i]; continue; }
			switch ( char k = s[++i] )
			{
			case 'n': case 'l': case 'r': r += '\n'; break;
			case 'N': r += node; break;
			case 'G': case 'E': case 'T': case 'H': case 'L': r += string{ "<\\" } + k + ">"; break;
			default: r += k;
			}
		}
		return r;
	}

	struct Reader
	{
		string const & s;
		size_t p{};
		struct Tok { string text; bool quoted{}, id{}; };
		Tok tok;
		explicit Reader( string const & s ) : s{ s } { next(); }
		[[noreturn]] void bad( string what ) { throw BadDot{ what + " near '" + s.substr( p > 30u ? p - 30u : 0u, 60u ) + "'" }; }
		bool end()const { return tok.text.empty() && !tok.id; }
		bool is( char const * t )const { return !tok.quoted && tok.text == t; }
		bool word( char const * t )const
		{
			if ( tok.quoted || tok.text.size() != strlen( t ) ) return false;
			for ( size_t i = 0u; i < tok.text.size(); ++i ) if ( tolower( tok.text[i] ) != t[i] ) return false;
			return true;
		}
		void expect( char const * t ) { if ( !is( t ) ) bad( string{ "'" } + t + "' expected instead of '" + tok.text + "'" ); next(); }
		bool keyword()const { return word( "node" ) || word( "edge" ) || word( "graph" ) || word( "digraph" ) || word( "subgraph" ) || word( "strict" ); }
		string id() { if ( !tok.id || keyword() ) bad( "name expected instead of '" + tok.text + "'" ); auto r = tok.text; next(); return r; }
		void next()
		{
			tok = Tok{};
			for ( ;; )
			{
				while ( p < s.size() && isspace( uint8_t( s[p] ) ) ) ++p;
				if ( p >= s.size() ) return;
				if ( s[p] == '#' && ( p == 0u || s[p - 1u] == '\n' ) ) { while ( p < s.size() && s[p] != '\n' ) ++p; continue; }
				if ( s.compare( p, 2u, "//" ) == 0 ) { while ( p < s.size() && s[p] != '\n' ) ++p; continue; }
				if ( s.compare( p, 2u, "/*" ) == 0 ) { auto e = s.find( "*/", p + 2u ); if ( e == string::npos ) bad( "comment without end" ); p = e + 2u; continue; }
				break;
			}
			char c = s[p];
			if ( c == '"' )
			{
				tok.quoted = tok.id = true;
				for ( ++p; ; ++p )
				{
					if ( p >= s.size() ) bad( "quoted name without end" );
					if ( s[p] == '"' ) break;
					if ( s[p] == '\\' && p + 1u < s.size() )
					{
						if ( s[p + 1u] == '"' ) { tok.text += '"'; ++p; continue; }
						if ( s[p + 1u] == '\n' ) { ++p; continue; }
						tok.text += s[p++];
					}
					tok.text += s[p];
				}
				++p;
				return;
			}
			if ( s.compare( p, 2u, "->" ) == 0 ) { tok.text = "->"; p += 2u; return; }
			if ( s.compare( p, 2u, "--" ) == 0 ) bad( "undirected edge" );
			if ( isalpha( uint8_t( c ) ) || c == '_' || ( uint8_t( c ) & 0x80u ) )
			{
				tok.id = true;
				while ( p < s.size() && ( isalnum( uint8_t( s[p] ) ) || s[p] == '_' || ( uint8_t( s[p] ) & 0x80u ) ) ) tok.text += s[p++];
				return;
			}
			if ( isdigit( uint8_t( c ) ) || c == '.' || c == '-' )
			{
				tok.id = true;
				tok.text += s[p++];
				while ( p < s.size() && ( isdigit( uint8_t( s[p] ) ) || s[p] == '.' ) ) tok.text += s[p++];
				if ( tok.text == "-" || tok.text == "." ) bad( "number expected" );
				return;
			}
			if ( strchr( "{}[];,=:", c ) ) { tok.text = c; ++p; return; }
			bad( string{ "unexpected '" } + c + "'" );
		}
		Attrs attrs()
		{
			Attrs r;
			while ( is( "[" ) )
			{
				next();
				while ( !is( "]" ) )
				{
					auto k = id();
					expect( "=" );
					r[k] = id();
					if ( is( ";" ) || is( "," ) ) next();
				}
				next();
			}
			return r;
		}
		void statements( Dot & d, Path path, Attrs & own )
		{
			while ( !is( "}" ) )
			{
				if ( end() ) bad( "graph without end" );
				if ( is( ";" ) ) { next(); continue; }
				if ( word( "subgraph" ) )
				{
					next();
					auto n = id();
					auto in = path;
					path.push_back( n );
					d.clusters.push_back( { n, in, {} } );
					auto at = d.clusters.size() - 1u;
					expect( "{" );
					Attrs a;
					statements( d, path, a );
					d.clusters[at].attrs = a;
					expect( "}" );
					path.pop_back();
					continue;
				}
				if ( word( "node" ) || word( "edge" ) || word( "graph" ) ) { next(); attrs(); continue; }
				auto n = id();
				if ( is( "=" ) ) { next(); own[n] = id(); continue; }
				if ( is( "->" ) )
				{
					vector< string > chain{ n };
					while ( is( "->" ) ) { next(); chain.push_back( id() ); }
					auto a = attrs();
					for ( auto & x : chain ) d.mentions.push_back( { x, path, false, {} } );
					for ( size_t i = 1u; i < chain.size(); ++i ) d.edges.push_back( { chain[i - 1u], chain[i], a, path } );
					continue;
				}
				d.mentions.push_back( { n, path, true, attrs() } );
			}
		}
		vector< Dot > graphs()
		{
			vector< Dot > r;
			while ( !end() )
			{
				Dot d;
				if ( word( "strict" ) ) next();
				if ( !word( "digraph" ) ) bad( "digraph expected instead of '" + tok.text + "'" );
				next();
				if ( tok.id && !keyword() ) { d.name = id(); d.named = true; }
				expect( "{" );
				Attrs a;
				statements( d, {}, a );
				expect( "}" );
				r.push_back( std::move( d ) );
			}
			return r;
		}
	};

	//---------------------------------------------------------------- what is expected
	struct Link { crg::FramePass const * from, * to; string data; };
	struct Want
	{
		std::set< crg::FramePass const * > passes;
		vector< Link > links;
		bool source{}, destination{};
	};
	Path chain( crg::FramePassGroup const * g )
	{
		Path r;
		for ( ; g; g = g->parent ) r.insert( r.begin(), g->getName() );
		return r;
	}
	string str( Path const & p ) { string r; for ( auto & x : p ) r += "/" + x; return r; }
	string label( Mention const & m ) { auto it = m.attrs.find( "label" ); return shown( it == m.attrs.end() ? m.node : it->second, m.node ); }

	Want wantPasses( crg::RunnableGraph const & rg )
	{
		Want w;
		std::set< crg::GraphNode const * > seen;
		std::function< void( crg::GraphNode const * ) > visit = [&]( crg::GraphNode const * n )
		{
			if ( !seen.insert( n ).second ) return;
			for ( auto x : n->getNext() )
			{
				if ( auto from = crg::getFramePass( *n ) )
				{
					w.passes.insert( from ); // passes without a neighbour are not shown
					w.passes.insert( crg::getFramePass( *x ) );
					auto & tr = x->getInputAttaches( n );
					for ( auto & v : tr.viewTransitions ) w.links.push_back( { from, crg::getFramePass( *x ), v.data.data->name } );
					for ( auto & v : tr.bufferTransitions ) w.links.push_back( { from, crg::getFramePass( *x ), v.data.name } );
				}
				visit( x );
			}
		};
		visit( rg.getGraph() );
		return w;
	}
	Want wantTransitions( crg::RunnableGraph const & rg )
	{
		Want w;
		auto add = [&]( crg::FramePass const * from, crg::FramePass const * to, string data )
		{
			if ( from ) w.passes.insert( from ); else w.source = true;
			if ( to ) w.passes.insert( to ); else w.destination = true;
			w.links.push_back( { from, to, data } );
		};
		for ( auto & v : rg.getTransitions().viewTransitions ) add( v.outputAttach.pass, v.inputAttach.pass, v.data.data->name );
		for ( auto & v : rg.getTransitions().bufferTransitions ) add( v.outputAttach.pass, v.inputAttach.pass, v.data.name );
		return w;
	}

	bool prefix( Path const & a, Path const & b ) { return a.size() <= b.size() && std::equal( a.begin(), a.end(), b.begin() ); }

	struct Seen { std::multiset< string > nodes, edges; };

	// One graph (or the graph of one group) as exported.
	struct Judge
	{
		pbt::Case & c;
		crg::dot::Config cfg;
		string what;
		Want const & want;
		bool views; // transitions

		void say( bool ok, string m ) { c.check( ok, m + " (" + what + ")" ); }

		void presentation( Dot const & d )
		{
			for ( auto & m : d.mentions )
				if ( m.declared )
				{
					say( m.attrs.count( "id" ) == 0u || cfg.withIds, "ids are shown though not asked for" );
					bool colours = m.attrs.count( "color" ) || m.attrs.count( "fillcolor" ) || m.attrs.count( "style" );
					say( colours == cfg.withColours, "colours of the nodes don't follow the options" );
				}
			for ( auto & e : d.edges )
				say( ( e.attrs.count( "color" ) || e.attrs.count( "fontcolor" ) ) == cfg.withColours, "colours of the edges don't follow the options" );
			for ( auto & k : d.clusters )
				say( ( k.attrs.count( "fillcolor" ) != 0u ) == cfg.withColours, "colours of the groups don't follow the options" );
		}

		// All of it in one graph.
		Seen whole( Dot const & d )
		{
			presentation( d );
			// clusters: one per group in use, nested like the groups
			std::map< string, Path > names; // shown names from the outermost
			if ( cfg.withGroups )
			{
				std::map< Path, int > expected, got;
				std::set< crg::FramePassGroup const * > groups;
				for ( auto p : want.passes ) for ( auto g = &p->group; g; g = g->parent ) groups.insert( g );
				for ( auto g : groups ) ++expected[chain( g )];
				std::set< string > ids;
				for ( auto & k : d.clusters )
				{
					say( ids.insert( k.id ).second, "group exported twice: " + k.id );
					say( k.id.compare( 0u, 7u, "cluster" ) == 0, "subgraph that is not a cluster: " + k.id );
					auto n = k.in.empty() ? Path{} : names[k.in.back()];
					auto it = k.attrs.find( "label" );
					say( it != k.attrs.end(), "cluster without its group's name" );
					n.push_back( shown( it->second, "" ) );
					names[k.id] = n;
					++got[n];
				}
				for ( auto & [n, k] : got ) say( expected[n] == k, "unexpected cluster: " + str( n ) );
				for ( auto & [n, k] : expected ) say( got[n] == k, "missing cluster: " + str( n ) );
			}
			else say( d.clusters.empty(), "groups are shown though not asked for" );
			// nodes
			std::map< string, Mention const * > decl;
			for ( auto & m : d.mentions )
				if ( m.declared )
				{
					auto box = m.attrs.count( "shape" ) && m.attrs.at( "shape" ) == "box";
					if ( !decl.emplace( m.node, &m ).second ) say( box && !views, "node declared twice: " + m.node );
				}
			std::map< string, crg::FramePass const * > passOf;
			std::set< string > boxes;
			string source, destination;
			auto left = want.passes;
			for ( auto & [n, m] : decl )
			{
				auto shape = m->attrs.count( "shape" ) ? m->attrs.at( "shape" ) : string{};
				if ( shape == "box" ) { boxes.insert( n ); continue; }
				auto text = label( *m );
				if ( views && text == "ExternalSource" && m->in.empty() ) { source = n; continue; }
				if ( views && text == "ExternalDestination" && m->in.empty() ) { destination = n; continue; }
				bool exact = true; // same labels, no groups and no ids: told apart by the names of the nodes
				auto fits = [&]( crg::FramePass const * p )
				{
					if ( exact && shown( n, "" ) != p->getFullName() ) return false;
					if ( text != p->getGroupName() && text != p->getFullName() ) return false;
					if ( cfg.withIds && ( !m->attrs.count( "id" ) || m->attrs.at( "id" ) != std::to_string( p->id ) ) ) return false;
					if ( cfg.withGroups ) return !m->in.empty() && names[m->in.back()] == chain( &p->group );
					return true;
				};
				auto it = std::find_if( left.begin(), left.end(), fits );
				if ( it == left.end() ) { exact = false; it = std::find_if( left.begin(), left.end(), fits ); }
				say( it != left.end(), "node which is no pass of this group: '" + text + "' in " + str( m->in.empty() ? Path{} : names[m->in.back()] ) );
				passOf[n] = *it;
				left.erase( it );
			}
			say( left.empty(), left.empty() ? "" : "pass without node: " + ( *left.begin() )->getFullName() );
			say( source.empty() == !want.source || !views, "external source: shown though nothing comes from outside, or missing" );
			say( destination.empty() == !want.destination || !views, "external destination: shown though nothing goes outside, or missing" );
			// where the nodes are named
			std::map< string, Path > deepest;
			for ( auto & m : d.mentions )
			{
				say( decl.count( m.node ) != 0u, "node that is not declared: " + m.node );
				auto p = passOf.find( m.node );
				if ( p != passOf.end() ) say( prefix( m.in, decl[m.node]->in ), "pass drawn into a cluster that is not one of its groups: " + m.node );
				else if ( !boxes.count( m.node ) ) say( m.in.empty(), "external side drawn into a cluster" );
				else
				{
					auto & x = deepest[m.node];
					say( prefix( x, m.in ) || prefix( m.in, x ), "transition drawn into several clusters: " + m.node );
					if ( x.size() < m.in.size() ) x = m.in;
				}
			}
			// edges
			std::map< string, vector< Edge const * > > in, out;
			for ( auto & e : d.edges )
			{
				bool fromBox = boxes.count( e.from ) != 0u, toBox = boxes.count( e.to ) != 0u;
				say( fromBox != toBox, "edge which is not between a pass and a transition" );
				( fromBox ? out[e.from] : in[e.to] ).push_back( &e );
			}
			std::multiset< string > got, expected;
			auto end = [&]( string const & n, bool from )
			{
				auto it = passOf.find( n );
				if ( it != passOf.end() ) return std::to_string( it->second->id );
				say( n == ( from ? source : destination ), "edge " + string( from ? "from" : "to" ) + " the wrong external side" );
				return string{ "-" };
			};
			for ( auto & b : boxes )
			{
				say( in[b].size() == out[b].size() && !in[b].empty(), "transition without both its ends: " + b );
				if ( views ) say( in[b].size() == 1u, "several transitions share a node: " + b );
				for ( size_t i = 0u; i < in[b].size(); ++i )
				{
					auto data = shown( in[b][i]->attrs.at( "label" ), "" );
					say( shown( out[b][i]->attrs.at( "label" ), "" ) == data, "both edges of a transition carry the same resource: " + data );
					got.insert( end( in[b][i]->from, true ) + ">" + end( out[b][i]->to, false ) + ":" + data );
				}
			}
			for ( auto & l : want.links ) expected.insert( ( l.from ? std::to_string( l.from->id ) : "-" ) + ">" + ( l.to ? std::to_string( l.to->id ) : "-" ) + ":" + l.data );
			for ( auto & x : expected ) say( got.count( x ) == expected.count( x ), "transition exported too few or too many times: " + x );
			for ( auto & x : got ) say( expected.count( x ) != 0u, "transition that does not exist: " + x );
			Seen r;
			for ( auto & [n, m] : decl ) r.nodes.insert( n + "|" + label( *m ) );
			for ( auto & e : d.edges ) r.edges.insert( e.from + ">" + e.to + ":" + shown( e.attrs.at( "label" ), "" ) );
			return r;
		}

		// One graph per group.
		void split( vector< std::pair< string, Dot > > const & ds )
		{
			std::multiset< string > got, expected;
			std::multiset< string > inner, wantInner;
			for ( auto & [key, d] : ds )
			{
				presentation( d );
				auto name = shown( d.name, "" );
				say( d.named, "graph of a group without its name" );
				std::set< string > here;
				std::map< string, string > text;
				for ( auto & m : d.mentions )
					if ( m.declared && m.attrs.count( "shape" ) && m.attrs.at( "shape" ) != "box" )
					{
						say( here.insert( m.node ).second, "pass exported twice in the graph of its group: " + m.node );
						got.insert( name + ":" + label( m ) );
						text[m.node] = label( m );
					}
				std::map< string, string > from;
				for ( auto & e : d.edges ) if ( text.count( e.from ) ) from[e.to + ":" + e.attrs.at( "label" )] += "[" + text[e.from] + "]";
				for ( auto & e : d.edges )
					if ( text.count( e.to ) )
					{
						auto it = from.find( e.from + ":" + e.attrs.at( "label" ) );
						if ( it != from.end() ) inner.insert( name + ":" + it->second + ">" + text[e.to] + ":" + shown( e.attrs.at( "label" ), "" ) );
					}
			}
			for ( auto p : want.passes ) expected.insert( p->group.getName() + ":" + p->getGroupName() );
			for ( auto & x : expected ) say( got.count( x ) == expected.count( x ), "splitting loses or duplicates a pass: " + x );
			for ( auto & x : got ) say( expected.count( x ) != 0u, "splitting puts a pass in the wrong group: " + x );
			if ( views )
			{
				for ( auto & l : want.links )
					if ( l.from && l.to && &l.from->group == &l.to->group )
						wantInner.insert( l.from->group.getName() + ":[" + l.from->getGroupName() + "]>" + l.to->getGroupName() + ":" + l.data );
				say( inner == wantInner, "splitting changes the transitions inside of a group" );
			}
		}
	};

	vector< Dot > read( pbt::Case & c, string const & text, string const & what )
	{
		try { return Reader{ text }.graphs(); }
		catch ( BadDot & e )
		{
			if ( c.verbose ) fprintf( stderr, "%s\n", text.c_str() );
			c.fail( "not a DOT text: " + e.what + " (" + what + ")" );
		}
		return {};
	}

	void all( pbt::Case & c, crg::RunnableGraph const & rg )
	{
		auto wp = wantPasses( rg );
		auto wt = wantTransitions( rg );
		for ( int views = 0; views < 2; ++views )
		{
			std::unique_ptr< Seen > ref;
			for ( uint32_t bits = 0u; bits < 16u; ++bits )
			{
				crg::dot::Config cfg{ ( bits & 1u ) != 0u, ( bits & 2u ) != 0u, ( bits & 4u ) != 0u, ( bits & 8u ) != 0u };
				auto what = pbt::fmt( "%s%s%s%s%s", views ? "transitions" : "passes", cfg.withColours ? " colours" : "", cfg.withIds ? " ids" : "", cfg.withGroups ? " groups" : "", cfg.splitGroups ? " split" : "" );
				auto result = views ? crg::dot::displayTransitions( rg, cfg ) : crg::dot::displayPasses( rg, cfg );
				std::stringstream out;
				if ( views ) crg::dot::displayTransitions( out, rg, cfg );
				else crg::dot::displayPasses( out, rg, cfg );
				if ( c.verbose ) fprintf( stderr, "---- %s\n%s", what.c_str(), out.str().c_str() );
				Judge j{ c, cfg, what, views ? wt : wp, views != 0 };
				auto streamed = read( c, out.str(), what + ", stream" );
				if ( cfg.splitGroups )
				{
					vector< std::pair< string, Dot > > ds;
					for ( auto & [k, s] : result )
						for ( auto & d : read( c, s.str(), what ) )
						{
							c.check( shown( d.name, "" ) == k, "the graph of a group is not filed under its name: '" + k + "' (" + what + ")" );
							ds.emplace_back( k, std::move( d ) );
						}
					j.split( ds );
					vector< std::pair< string, Dot > > st;
					for ( auto & d : streamed ) st.emplace_back( d.name, d );
					j.what += ", stream";
					j.split( st );
				}
				else
				{
					auto it = result.find( string{} );
					c.check( it != result.end(), "no text for the graph (" + what + ")" );
					auto ds = read( c, it->second.str(), what );
					c.check( ds.size() == 1u, "not one graph (" + what + ")" );
					auto seen = j.whole( ds[0] );
					c.check( streamed.size() == 1u, "not one graph in the stream: (" + what + ")" );
					j.what += ", stream";
					j.whole( streamed[0] );
					if ( !ref ) ref = std::make_unique< Seen >( seen );
					else
					{
						c.check( ref->nodes == seen.nodes, "options change the nodes (" + what + ")" );
						c.check( ref->edges == seen.edges, "options change the edges (" + what + ")" );
					}
				}
			}
		}
	}

	string genName( pbt::Tape & t, string base )
	{
		static vector< string > const pieces{ "a", "B", " ", "\"", "\\", "\n", "{", "}", ";", "->", "[", "]", "=", "<b>", "//", "/*", "#", "%s", "\\n", "\\N", "\t", ".", "-", "é", "node", "digraph", "\r", ",", "'", "&amp;" };
		switch ( t.below( 4u ) )
		{
		case 0u: return base;
		case 1u: return base + t.pick( pieces );
		case 2u: return t.pick( pieces ) + base;
		default:
		{
			string r;
			for ( auto n = t.range( 1u, 5u ); n > 0u; --n ) r += t.pick( pieces );
			return r + base;
		}
		}
	}

	void world( pbt::Case & c, bool hostile )
	{
		auto & t = c.t;
		Opts o;
		o.maxPasses = t.chance( 15 ) ? 1u : 9u;
		o.frames = 1u;
		o.toggles = false;
		o.actions = o.implicitActions = false;
		o.maxBuffers = t.below( 4u );
		o.buffers = o.maxBuffers != 0u;
		if ( hostile ) o.name = [&t]( string n ){ return genName( t, n ); };
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( hostile ? genName( t, "G" ) : "G" );
		// deeper groups
		for ( auto k = t.below( 5u ); k > 0u; --k ) g.groups.push_back( { int( t.below( uint32_t( g.groups.size() ) ) ), "g" + std::to_string( g.groups.size() ), nullptr } );
		for ( auto & p : g.passes ) p->group = int( t.below( uint32_t( g.groups.size() ) ) );
		// few names: the same ones in several groups
		bool few = t.chance( 50 );
		std::map< int, std::set< string > > inGroup, inParent;
		bool same = false;
		std::set< string > groupNames{ g.name };
		for ( size_t i = 1u; i < g.groups.size(); ++i )
		{
			auto & x = g.groups[i];
			string n = few ? t.pick( { string{ "g" }, string{ "h" }, g.name } ) : x.name;
			if ( hostile && t.flag() ) n = genName( t, n );
			while ( !inParent[x.parent].insert( n ).second ) n += "+";
			x.name = n;
			if ( !groupNames.insert( n ).second ) same = true;
		}
		for ( auto & p : g.passes )
		{
			string n = few ? t.pick( { "p", "q", "g" } ) : p->name;
			if ( hostile && t.flag() ) n = genName( t, n );
			while ( !inGroup[p->group].insert( n ).second ) n += "+";
			p->name = n;
		}
		auto desc = w.describe();
		if ( c.verbose ) fprintf( stderr, "%s", desc.c_str() );
		c.sample = desc;
		w.build( g );
		w.compile( g );
		all( c, *g.rg );
		auto & tr = g.rg->getTransitions();
		size_t n = tr.viewTransitions.size() + tr.bufferTransitions.size();
		if ( same ) c.note( "groups of the same name" );
		if ( n == 0u ) c.note( "no transition" );
		if ( g.groups.size() > 1u ) c.note( "groups" );
		if ( g.passes.size() >= 3u && n >= 2u ) c.nt( desc );
		w.destroy();
	}
}

PBT_CHECK( "C18", "plain", 3000, 60000, "a graph of three passes or more, with two transitions or more" ) { world( c, false ); }
PBT_CHECK( "C18", "hostile", 3000, 60000, "a graph of three passes or more, with two transitions or more, whose names hold the characters DOT gives a meaning to" ) { world( c, true ); }
