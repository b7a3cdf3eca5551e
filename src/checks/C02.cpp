// C02: the published transitions and the graph of nodes against a reference model.
#include "frames.hpp"
#include <RenderGraph/GraphNode.hpp>
#include <RenderGraph/GraphVisitor.hpp>
using namespace gg;

namespace
{
	struct Im { crg::ImageId id; uint32_t mips, layers; VkFormat fmt; bool depth; };
	struct Vw { crg::ImageViewId id; int img; uint32_t mip, mips, layer, layers; std::vector< int > src; };
	// One declared attachment, once split in the views it was merged from.
	// res: view, or buffer; tag: what tells it from the pass's other uses of the resource.
	struct Use { int res; bool in, out; uint32_t tag; bool blocks; };
	struct P
	{
		std::vector< uint32_t > deps;
		std::vector< Use > images, buffers;
		crg::FramePass * fp{};
	};

	bool inRange( uint32_t v, uint32_t l, uint32_t n ) { return v >= l && v < l + n; }
	bool meets( uint32_t a, uint32_t an, uint32_t b, uint32_t bn ) { return inRange( a, b, bn ) || inRange( b, a, an ); }

	struct M
	{
		std::vector< Im > imgs;
		std::vector< Vw > views;
		std::vector< VkBuffer > bufs;
		std::vector< P > passes;
		bool overlap( int a, int b )const
		{
			auto & x = views[size_t( a )]; auto & y = views[size_t( b )];
			return x.img == y.img && meets( x.mip, x.mips, y.mip, y.mips ) && meets( x.layer, x.layers, y.layer, y.layers );
		}
		bool mipOf( int sub, int main )const
		{
			auto & x = views[size_t( sub )]; auto & y = views[size_t( main )];
			return x.img == y.img && x.mips == 1u && inRange( x.mip, y.mip, y.mips );
		}
		// A chain of declared dependencies leads from pass i to pass o, and no pass in between takes the resource.
		template< typename Takes >
		bool path( uint32_t i, uint32_t o, Takes takes, std::vector< bool > & seen )const
		{
			for ( auto d : passes[i].deps )
			{
				if ( d == o ) return true;
				if ( seen[d] || takes( d ) ) continue;
				seen[d] = true;
				if ( path( d, o, takes, seen ) ) return true;
			}
			return false;
		}
	};

	struct Tr { int data, op, ov, ip, iv; uint32_t ot, it; bool operator<( Tr const & r )const { return std::tie( data, op, ov, ip, iv, ot, it ) < std::tie( r.data, r.op, r.ov, r.ip, r.iv, r.ot, r.it ); } };

	void declareImage( crg::FramePass & fp, crg::ImageViewId v, uint32_t role, uint32_t binding, bool depth, bool single )
	{
		switch ( role )
		{
		case 0: fp.addSampledView( v, binding ); break;
		case 1: fp.addInputStorageView( v, binding ); break;
		case 2: fp.addOutputStorageView( v, binding ); break;
		case 3: fp.addInOutStorageView( v, binding ); break;
		case 4: fp.addTransferInputView( v ); break;
		case 5: fp.addTransferOutputView( v ); break;
		case 6: fp.addTransferInOutView( v ); break;
		case 7: fp.addClearableOutputStorageView( v, binding ); break;
		case 8: if ( depth ) fp.addImplicitDepthView( v, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); else fp.addImplicitColourView( v, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); break;
		case 9: if ( depth ) fp.addInputDepthView( v ); else fp.addInputColourView( v ); break;
		case 10: if ( depth ) fp.addOutputDepthView( v ); else fp.addOutputColourView( v ); break;
		default: if ( depth ) fp.addInOutDepthView( v ); else fp.addInOutColourView( v ); break;
		}
		(void)single;
	}
	bool roleIn( uint32_t r ) { return r == 0 || r == 1 || r == 3 || r == 4 || r == 6 || r == 8 || r == 9 || r == 11; }
	bool roleOut( uint32_t r ) { return r == 2 || r == 3 || r == 5 || r == 6 || r == 7 || r == 10 || r == 11; }
	char const * const roleName[] = { "sampled", "storage in", "storage out", "storage inout", "transfer in", "transfer out", "transfer inout", "storage clear", "implicit", "target in", "target out", "target inout" };
	char const * const bufName[] = { "uniform", "storage in", "storage out", "storage inout", "transfer in", "transfer out", "transfer inout", "storage clear", "implicit", "uniform view", "storage view in", "storage view out", "storage view inout" };
}

PBT_CHECK( "C02", "transitions", 130000, 3000000, "at least one transition between two passes" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	M m;
	std::string log;
	auto nImg = t.range( 1u, 3u );
	std::map< crg::ImageViewId, int > viewOf;
	for ( uint32_t i = 0u; i < nImg; ++i )
	{
		Im im;
		im.mips = t.range( 1u, 4u );
		im.layers = t.range( 1u, 3u );
		im.depth = t.chance( 25 );
		im.fmt = im.depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM;
		im.id = w.handler->createImageId( crg::ImageData{ "img" + std::to_string( i ), 0u, VK_IMAGE_TYPE_2D, im.fmt, { 32u, 32u, 1u }, 0u, im.mips, im.layers } );
		m.imgs.push_back( im );
	}
	auto aspect = [&]( int img ){ return VkImageAspectFlags( m.imgs[size_t( img )].depth ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_COLOR_BIT ); };
	auto addView = [&]( int img, uint32_t mip, uint32_t mips, uint32_t layer, uint32_t layers )
	{
		for ( size_t i = 0u; i < m.views.size(); ++i )
		{
			auto & v = m.views[i];
			if ( v.src.empty() && v.img == img && v.mip == mip && v.mips == mips && v.layer == layer && v.layers == layers ) return int( i );
		}
		auto id = w.handler->createViewId( crg::ImageViewData{ pbt::fmt( "v%zu", m.views.size() ), m.imgs[size_t( img )].id, 0u, VK_IMAGE_VIEW_TYPE_2D_ARRAY, m.imgs[size_t( img )].fmt, { aspect( img ), mip, mips, layer, layers } } );
		viewOf[id] = int( m.views.size() );
		m.views.push_back( { id, img, mip, mips, layer, layers, {} } );
		log += pbt::fmt( "v%zu: img%d mips %u+%u layers %u+%u\n", m.views.size() - 1u, img, mip, mips, layer, layers );
		return int( m.views.size() - 1u );
	};
	auto nv = t.range( 1u, 6u );
	for ( uint32_t i = 0u; i < nv; ++i )
	{
		int img = int( t.below( nImg ) );
		auto & im = m.imgs[size_t( img )];
		auto mip = t.below( im.mips ), layer = t.below( im.layers );
		if ( t.chance( 40 ) ) addView( img, 0u, im.mips, 0u, im.layers );
		else if ( t.chance( 50 ) ) addView( img, mip, 1u, 0u, im.layers );
		else addView( img, mip, 1u + t.below( im.mips - mip ), layer, 1u + t.below( im.layers - layer ) );
	}
	auto nBuf = t.below( 3u );
	bool collide = t.flag();
	for ( uint32_t i = 0u; i < nBuf; ++i ) m.bufs.push_back( w.dev->makeBuffer( 256u, "b" + std::to_string( i ) ) );
	if ( collide ) for ( uint32_t i = 0u; i < nBuf; ++i ) m.bufs[i] = VkBuffer( ( uint64_t( i + 1u ) << 32u ) | 0x1230u ); // only compiled, never run
	auto plain = m.views.size();
	crg::FrameGraph fg{ *w.handler, "G" };
	auto n = t.range( 1u, c.thorough ? 10u : 8u );
	m.passes.resize( n );
	std::vector< uint32_t > creation( n ), rank( n );
	for ( uint32_t i = 0u; i < n; ++i ) creation[i] = i;
	for ( size_t i = n; i > 1u; --i ) std::swap( creation[i - 1u], creation[t.below( uint32_t( i ) )] );
	for ( auto i : creation )
	{
		auto create = []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
		{
			return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ); } ) }, crg::ru::Config{} );
		};
		m.passes[i].fp = &fg.createPass( "p" + std::to_string( i ), create );
	}
	auto density = t.pick( { 20u, 45u, 70u } );
	for ( uint32_t i = 0u; i < n; ++i )
	{
		auto & p = m.passes[i];
		log += pbt::fmt( "p%u after", i );
		for ( uint32_t j = 0u; j < i; ++j )
			if ( t.chance( density ) || ( j + 1u == i && t.chance( 40 ) ) )
			{
				p.deps.push_back( j );
				p.fp->addDependency( *m.passes[j].fp );
				log += pbt::fmt( " p%u", j );
			}
		log += ":";
		uint32_t binding = 0u;
		auto uses = t.count( 0u, 4u, 65u );
		for ( uint32_t u = 0u; u < uses; ++u )
		{
			std::vector< int > src;
			if ( t.chance( 20 ) )
			{
				// a merge of the levels, or of the layers, of one image
				auto img = int( t.below( nImg ) );
				auto & im = m.imgs[size_t( img )];
				bool mips = t.flag();
				if ( mips && im.mips > 1u ) for ( uint32_t l = 0u; l < im.mips; ++l ) src.push_back( addView( img, l, 1u, 0u, im.layers ) );
				else if ( !mips && im.layers > 1u ) for ( uint32_t l = 0u; l < im.layers; ++l ) src.push_back( addView( img, 0u, im.mips, l, 1u ) );
			}
			bool merged = !src.empty();
			if ( !merged ) src.push_back( int( t.below( uint32_t( plain ) ) ) );
			bool clash = false;
			auto role = t.below( 12u );
			// One pass can read and write a view through two storage bindings.
			bool storage = !merged && ( role == 1u || role == 2u );
			bool both = false;
			for ( auto s : src ) for ( auto & o : p.images )
			{
				if ( !m.overlap( s, o.res ) ) continue;
				if ( storage && s == o.res && o.tag == 3u - role ) both = true;
				else clash = true;
			}
			if ( clash ) continue;
			if ( both ) c.note( "a view read and written through two bindings" );
			auto & v0 = m.views[size_t( src[0] )];
			crg::ImageViewId id = v0.id;
			if ( merged )
			{
				crg::ImageViewIdArray a;
				for ( auto s : src ) a.push_back( m.views[size_t( s )].id );
				id = p.fp->mergeViews( a );
				c.note( "merged view" );
			}
			declareImage( *p.fp, id, role, binding++, m.imgs[size_t( v0.img )].depth, v0.mips == 1u );
			log += pbt::fmt( " %s", roleName[role] );
			for ( auto s : src ) { p.images.push_back( { s, roleIn( role ), roleOut( role ), role == 1u || role == 2u ? role : 0u, false } ); log += pbt::fmt( " v%d", s ); }
			log += ",";
		}
		for ( uint32_t b = 0u; b < nBuf; ++b )
		{
			auto uses = t.chance( 45 ) ? t.pick( { 1u, 1u, 2u, 3u } ) : 0u;
			for ( uint32_t k = 0u; k < uses; ++k )
			{
				auto off = 64u * k;
				crg::Buffer buf{ m.bufs[b], "b" + std::to_string( b ) };
				auto role = t.below( 13u );
				bool in = true, out = false, blocks = true; // blocks: hides the buffer's earlier writers
				auto bv = VkBufferView( uint64_t( 0x77770000u + b ) );
				switch ( role )
				{
				case 0: p.fp->addUniformBuffer( buf, binding++, off, 64u ); blocks = false; break;
				case 1: p.fp->addInputStorageBuffer( buf, binding++, off, 64u ); break;
				case 2: p.fp->addOutputStorageBuffer( buf, binding++, off, 64u ); in = false; out = true; break;
				case 3: p.fp->addInOutStorageBuffer( buf, binding++, off, 64u ); out = true; break;
				case 4: p.fp->addTransferInputBuffer( buf, off, 64u ); break;
				case 5: p.fp->addTransferOutputBuffer( buf, off, 64u ); in = false; out = true; break;
				case 6: p.fp->addTransferInOutBuffer( buf, off, 64u ); out = true; break;
				case 7: p.fp->addClearableOutputStorageBuffer( buf, binding++, off, 64u ); in = false; out = true; break;
				case 8: p.fp->addImplicitBuffer( buf, off, 64u, { VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } ); blocks = false; break;
				case 9: p.fp->addUniformBufferView( buf, bv, binding++, off, 64u ); blocks = false; break;
				case 10: p.fp->addInputStorageBufferView( buf, bv, binding++, off, 64u ); break;
				case 11: p.fp->addOutputStorageBufferView( buf, bv, binding++, off, 64u ); in = false; out = true; break;
				default: p.fp->addInOutStorageBufferView( buf, bv, binding++, off, 64u ); out = true; break;
				}
				p.buffers.push_back( { int( b ), in, out, off, blocks } );
				log += pbt::fmt( " %s b%u+%u,", bufName[role], b, off );
				// The same range again, bound elsewhere, is not another attachment.
				if ( role == 1u && t.chance( 15 ) )
				{
					p.fp->addInputStorageBuffer( buf, binding++, off, 64u );
					log += " (twice)";
					c.note( "the same buffer range bound twice" );
				}
				if ( k ) c.note( "several ranges of a buffer in one pass" );
			}
		}
		log += "\n";
	}
	c.sample = log;
	if ( c.verbose ) fprintf( stderr, "%s", log.c_str() );

	// The reference.
	std::set< Tr > wantV, wantB;
	std::set< std::pair< int, int > > edges;
	for ( uint32_t i = 0u; i < n; ++i )
		for ( uint32_t o = 0u; o < n; ++o )
		{
			if ( i == o ) continue;
			for ( auto & ui : m.passes[i].images )
				for ( auto & uo : m.passes[o].images )
				{
					if ( !ui.in || !uo.out || !m.overlap( ui.res, uo.res ) ) continue;
					// The resource handed over is the one the writer wrote.
					if ( ui.res != uo.res && !m.mipOf( ui.res, uo.res ) ) { c.note( "partial overlap" ); continue; }
					auto takes = [&]( uint32_t d ){ for ( auto & x : m.passes[d].images ) if ( x.res == uo.res ) return true; return false; };
					std::vector< bool > seen( n );
					if ( !m.path( i, o, takes, seen ) ) continue;
					wantV.insert( { ui.res, int( o ), uo.res, int( i ), ui.res, uo.tag, ui.tag } );
					wantV.insert( { uo.res, int( o ), uo.res, int( i ), ui.res, uo.tag, ui.tag } );
					edges.insert( { int( o ), int( i ) } );
					c.note( ui.res == uo.res ? "same view" : "one level of the view written" );
				}
			for ( auto & ui : m.passes[i].buffers )
				for ( auto & uo : m.passes[o].buffers )
				{
					if ( !ui.in || !uo.out || ui.res != uo.res ) continue;
					auto takes = [&]( uint32_t d ){ for ( auto & x : m.passes[d].buffers ) if ( x.res == uo.res && x.blocks ) return true; return false; };
					std::vector< bool > seen( n );
					if ( !m.path( i, o, takes, seen ) ) continue;
					wantB.insert( { ui.res, int( o ), uo.res, int( i ), ui.res, uo.tag, ui.tag } );
					edges.insert( { int( o ), int( i ) } );
					c.note( "buffer" );
				}
		}
	auto external = [&]( std::vector< Use > P::* uses, std::set< Tr > & want, auto overlap )
	{
		for ( uint32_t i = 0u; i < n; ++i )
			for ( auto & u : m.passes[i].*uses )
			{
				bool readAsIs = false, written = false;
				for ( auto & q : m.passes ) for ( auto & x : q.*uses )
				{
					readAsIs = readAsIs || ( x.in && x.res == u.res );
					written = written || ( x.out && overlap( x.res, u.res ) );
				}
				if ( u.in && !written ) want.insert( { u.res, -1, -1, int( i ), u.res, 0u, u.tag } );
				if ( !u.in && u.out && !readAsIs ) want.insert( { u.res, int( i ), u.res, -1, -1, u.tag, 0u } );
			}
	};
	external( &P::images, wantV, [&]( int a, int b ){ return m.overlap( a, b ); } );
	external( &P::buffers, wantB, []( int a, int b ){ return a == b; } );

	auto rg = fg.compile( *w.ctx );
	std::map< crg::FramePass const *, int > passOf;
	for ( uint32_t i = 0u; i < n; ++i ) passOf[m.passes[i].fp] = int( i );
	auto show = [&]( Tr const & x, char const * what )
	{
		auto side = [&]( int p, int v, uint32_t tag ) { return p < 0 ? std::string( "outside" ) : pbt::fmt( "p%d(%s%d/%u)", p, what, v, tag ); };
		return pbt::fmt( "%s%d: %s -> %s", what, x.data, side( x.op, x.ov, x.ot ).c_str(), side( x.ip, x.iv, x.it ).c_str() );
	};
	auto compare = [&]( std::set< Tr > const & want, std::multiset< Tr > const & got, char const * what )
	{
		for ( auto & x : want ) if ( !got.count( x ) ) c.fail( std::string( "missing: no transition " ) + show( x, what ) );
		for ( auto & x : got )
		{
			if ( !want.count( x ) ) c.fail( std::string( "spurious: transition " ) + show( x, what ) );
			if ( got.count( x ) != 1u ) c.fail( std::string( "twice: transition " ) + show( x, what ) );
		}
	};
	auto readTransitions = [&]( crg::AttachmentTransitions const & tr, std::multiset< Tr > & gotV, std::multiset< Tr > & gotB )
	{
		for ( auto & x : tr.viewTransitions )
		{
			auto vi = [&]( crg::Attachment const & a ){ return a.pass ? viewOf.at( a.view() ) : -1; };
			auto pi = [&]( crg::Attachment const & a ){ return a.pass ? passOf.at( a.pass ) : -1; };
			c.check( viewOf.count( x.data ) != 0u, pbt::fmt( "spurious: transition on an unknown view (id %u, %zu sources)", x.data.id, x.data.data->source.size() ) );
			auto tag = [&]( crg::Attachment const & a ){ return !a.pass || !a.isImage() || !a.imageAttach.isStorageView() || a.isClearable() || a.isInput() == a.isOutput() ? 0u : a.isInput() ? 1u : 2u; };
			gotV.insert( { viewOf.at( x.data ), pi( x.outputAttach ), vi( x.outputAttach ), pi( x.inputAttach ), vi( x.inputAttach ), tag( x.outputAttach ), tag( x.inputAttach ) } );
		}
		for ( auto & x : tr.bufferTransitions )
		{
			auto bi = [&]( VkBuffer b ) { for ( size_t i = 0u; i < m.bufs.size(); ++i ) if ( m.bufs[i] == b ) return int( i ); return -2; };
			auto pi = [&]( crg::Attachment const & a ){ return a.pass ? passOf.at( a.pass ) : -1; };
			auto tag = [&]( crg::Attachment const & a ){ return a.pass ? uint32_t( a.bufferAttach.range.offset ) : 0u; };
			gotB.insert( { bi( x.data.buffer() ), pi( x.outputAttach ), x.outputAttach.pass ? bi( x.outputAttach.buffer() ) : -1, pi( x.inputAttach ), x.inputAttach.pass ? bi( x.inputAttach.buffer() ) : -1, tag( x.outputAttach ), tag( x.inputAttach ) } );
		}
	};
	{
		std::multiset< Tr > gotV, gotB;
		readTransitions( rg->getTransitions(), gotV, gotB );
		compare( wantV, gotV, "v" );
		compare( wantB, gotB, "b" );
	}
	// The nodes.
	auto root = rg->getGraph();
	c.check( root && root->getKind() == crg::GraphNode::Kind::Root, "root: no root node" );
	c.check( crg::isRootNode( *root ) && crg::isRootNode( root ) && !crg::isFramePassNode( *root ) && !crg::isFramePassNode( root ) && !crg::getFramePass( *root ), "root: of another kind" );
	c.check( !crg::isRootNode( crg::ConstGraphAdjacentNode{} ) && !crg::isFramePassNode( crg::ConstGraphAdjacentNode{} ), "node: no node has a kind" );
	struct Visitor : crg::GraphVisitor
	{
		crg::RootNode const * root{}; crg::FramePassNode const * pass{}; int visits{};
		void visitRootNode( crg::RootNode const * n )override { root = n; ++visits; }
		void visitFramePassNode( crg::FramePassNode const * n )override { pass = n; ++visits; }
	};
	auto visit = [&]( crg::GraphNode const * n ){ Visitor v; n->accept( &v ); c.check( v.visits == 1 && ( n == root ? v.root == n : v.pass == n ), "node: visited as another one" ); };
	visit( root );
	std::map< int, crg::GraphNode const * > nodeOf;
	std::vector< crg::GraphNode const * > todo{ root };
	std::set< crg::GraphNode const * > seen{ root };
	std::set< std::pair< int, int > > gotEdges;
	std::set< int > belowRoot;
	while ( !todo.empty() )
	{
		auto nd = todo.back();
		todo.pop_back();
		auto me = -1;
		if ( nd != root )
		{
			auto fp = crg::getFramePass( *nd );
			c.check( fp && passOf.count( fp ), "node: a node without one of the graph's passes" );
			me = passOf.at( fp );
			c.check( nodeOf.emplace( me, nd ).second, pbt::fmt( "node: two nodes for p%d", me ) );
			c.check( nd->getName() == fp->getGroupName() && nd->getId() == fp->id, "node: name or id is not the pass's" );
			c.check( &nd->getGroup() == &fp->group, "node: group is not the pass's" );
			c.check( nd->getKind() == crg::GraphNode::Kind::FramePass && crg::isFramePassNode( *nd ) && crg::isFramePassNode( nd ) && !crg::isRootNode( *nd ) && !crg::isRootNode( nd ), "node: a pass's node is of another kind" );
			visit( nd );
			c.check( &crg::nodeCast< crg::FramePassNode >( *nd ).getFramePass() == fp, "node: cast to another pass" );
		}
		std::set< crg::GraphNode const * > once;
		for ( auto nx : nd->getNext() )
		{
			c.check( once.insert( nx ).second, "edge: the same node twice below a node" );
			auto fp = crg::getFramePass( *nx );
			c.check( fp && passOf.count( fp ), "node: a node without one of the graph's passes" );
			if ( me < 0 ) belowRoot.insert( passOf.at( fp ) );
			else
			{
				gotEdges.insert( { me, passOf.at( fp ) } );
				std::multiset< Tr > gv, gb;
				readTransitions( nx->getInputAttaches( nd ), gv, gb );
				c.check( !gv.empty() || !gb.empty(), "edge: an edge without transition" );
				for ( auto & x : gv ) c.check( wantV.count( x ) && x.op == me && x.ip == passOf.at( fp ), "edge: holds another transition: " + show( x, "v" ) );
				for ( auto & x : gb ) c.check( wantB.count( x ) && x.op == me && x.ip == passOf.at( fp ), "edge: holds another transition: " + show( x, "b" ) );
				// every pair of attachments between the two passes shows on their edge
				for ( auto & x : wantV ) if ( x.op == me && x.ip == passOf.at( fp ) && x.data == x.ov ) c.check( gv.count( x ) == 1u, "edge: lacks a transition: " + show( x, "v" ) );
				for ( auto & x : wantB ) if ( x.op == me && x.ip == passOf.at( fp ) ) c.check( gb.count( x ) == 1u, "edge: lacks a transition: " + show( x, "b" ) );
			}
			if ( seen.insert( nx ).second ) todo.push_back( nx );
		}
	}
	for ( uint32_t i = 0u; i < n; ++i ) c.check( nodeOf.count( int( i ) ) != 0u, pbt::fmt( "node: p%u cannot be reached from the root", i ) );
	for ( auto & e : edges ) c.check( gotEdges.count( e ) != 0u, pbt::fmt( "edge: p%d is not below p%d", e.second, e.first ) );
	for ( auto & e : gotEdges ) c.check( edges.count( e ) != 0u, pbt::fmt( "edge: p%d is below p%d without a transition", e.second, e.first ) );
	for ( uint32_t i = 0u; i < n; ++i )
	{
		bool fed = false;
		for ( auto & e : edges ) fed = fed || e.second == int( i );
		c.check( belowRoot.count( int( i ) ) == ( fed ? 0u : 1u ), pbt::fmt( "root: p%u %s", i, fed ? "is attached to the root though passes feed it" : "is not attached to the root" ) );
		c.check( nodeOf.at( int( i ) )->hasPrev(), "root: a node without predecessor" );
	}
	if ( !edges.empty() ) c.nt( log );
	if ( collide && nBuf > 1u ) c.note( "buffer handles with the same low bits" );
}

namespace
{
	std::set< std::string > transitionsOf( crg::RunnableGraph const & rg )
	{
		std::set< std::string > r;
		auto side = []( crg::Attachment const & a ){ return a.pass ? a.pass->getFullName() + "(" + a.name + ")" : std::string( "outside" ); };
		for ( auto & x : rg.getTransitions().viewTransitions ) r.insert( x.data.data->name + ": " + side( x.outputAttach ) + " -> " + side( x.inputAttach ) );
		for ( auto & x : rg.getTransitions().bufferTransitions ) r.insert( x.data.name + ": " + side( x.outputAttach ) + " -> " + side( x.inputAttach ) );
		return r;
	}
}

// On graphs of every kind of pass: what holds whatever the attachments.
PBT_CHECK( "C02", "world", 20000, 400000, "at least one transition between two passes" )
{
	Opts o;
	o.frames = 1u;
	World w{ c, o };
	w.genImages();
	w.genBuffers();
	auto & g = w.genGraph( "G" );
	c.sample = w.describe();
	if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
	w.build( g );
	w.compile( g );
	chk::noteKinds( c, w );
	std::map< crg::FramePass const *, int > passOf;
	for ( auto & p : g.passes ) passOf[p->fp] = int( p->id );
	std::function< bool( int, int ) > reach = [&]( int a, int b ) { for ( auto d : g.passes[size_t( a )]->deps ) if ( d == b || reach( d, b ) ) return true; return false; };
	std::set< std::pair< int, int > > edges;
	auto both = [&]( crg::Attachment const & out, crg::Attachment const & in, std::string const & data )
	{
		if ( out.pass ) c.check( passOf.count( out.pass ) && out.isOutput(), "direction: " + data + " comes from what is not an output of a pass of the graph" );
		if ( in.pass ) c.check( passOf.count( in.pass ) && in.isInput(), "direction: " + data + " goes to what is not an input of a pass of the graph" );
		c.check( in.pass || out.pass, "direction: " + data + " comes from and goes to the outside" );
		if ( !in.pass || !out.pass ) return;
		auto a = passOf.at( out.pass ), b = passOf.at( in.pass );
		edges.insert( { a, b } );
		c.check( reach( b, a ), pbt::fmt( "order: p%d hands %s over to p%d, that does not depend on it", a, data.c_str(), b ) );
	};
	for ( auto & x : g.rg->getTransitions().viewTransitions )
	{
		both( x.outputAttach, x.inputAttach, x.data.data->name );
		if ( x.outputAttach.pass && x.inputAttach.pass )
		{
			auto out = x.outputAttach.view(), in = x.inputAttach.view();
			c.check( x.data == out || x.data == in, "data: the view handed over is of neither side" );
			auto a = crg::getVirtualRange( out.data->image, out.data->info.viewType, out.data->info.subresourceRange );
			auto b = crg::getVirtualRange( in.data->image, in.data->info.viewType, in.data->info.subresourceRange );
			c.check( out.data->image == in.data->image && meets( a.baseMipLevel, a.levelCount, b.baseMipLevel, b.levelCount ) && meets( a.baseArrayLayer, a.layerCount, b.baseArrayLayer, b.layerCount ), "overlap: the two sides have no subresource in common" );
		}
	}
	for ( auto & x : g.rg->getTransitions().bufferTransitions )
	{
		both( x.outputAttach, x.inputAttach, x.data.name );
		if ( x.outputAttach.pass && x.inputAttach.pass ) c.check( x.outputAttach.buffer() == x.inputAttach.buffer() && x.data.buffer() == x.outputAttach.buffer(), "data: the buffer handed over is of neither side" );
	}
	std::set< int > reached;
	std::vector< crg::GraphNode const * > todo{ g.rg->getGraph() };
	while ( !todo.empty() )
	{
		auto nd = todo.back();
		todo.pop_back();
		auto fp = crg::getFramePass( *nd );
		for ( auto nx : nd->getNext() )
		{
			auto nfp = crg::getFramePass( *nx );
			c.check( nfp && passOf.count( nfp ), "node: a node without one of the graph's passes" );
			if ( fp ) c.check( edges.count( { passOf.at( fp ), passOf.at( nfp ) } ) != 0u, "edge: without a transition" );
			if ( reached.insert( passOf.at( nfp ) ).second ) todo.push_back( nx );
		}
	}
	c.check( reached.size() == g.passes.size(), "node: a pass cannot be reached from the root" );
	if ( !edges.empty() ) c.nt( c.sample );
	// Compiling again publishes the same transitions.
	auto first = transitionsOf( *g.rg );
	auto again = g.fg->compile( *w.ctx );
	c.check( transitionsOf( *again ) == first, "again: compiling again publishes other transitions" );
}
