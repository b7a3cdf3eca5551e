// C08: chained graphs hand images and buffers over in the state the previous graph left.
#include "direct.hpp"
#include <optional>
using namespace gg;

namespace
{
	enum class Mode { Ring, Chain, Vee, Web };
	char const * name( Mode m ) { return m == Mode::Ring ? "ring" : m == Mode::Chain ? "chain" : m == Mode::Vee ? "vee" : "web"; }

	struct Cell
	{
		int img; uint32_t layer, mip;
		bool operator<( Cell const & o )const { return std::tie( img, layer, mip ) < std::tie( o.img, o.layer, o.mip ); }
	};

	VkImageViewType typeOf( Img const & img )
	{
		return img.type == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : img.type == VK_IMAGE_TYPE_1D ? VK_IMAGE_VIEW_TYPE_1D : VK_IMAGE_VIEW_TYPE_2D;
	}

	std::set< Cell > cellsOf( World & w, int view )
	{
		auto & v = w.views[size_t( view )];
		auto & img = w.imgs[size_t( v.img )];
		std::set< Cell > r;
		uint32_t layers = img.type == VK_IMAGE_TYPE_3D ? 1u : v.range.layerCount;
		for ( uint32_t l = 0u; l < layers; ++l )
			for ( uint32_t m = 0u; m < v.range.levelCount; ++m )
				r.insert( { v.img, img.type == VK_IMAGE_TYPE_3D ? 0u : v.range.baseArrayLayer + l, v.range.baseMipLevel + m } );
		return r;
	}

	struct Checker
	{
		pbt::Case & c;
		World & w;
		size_t compared{}, outputs{}, inherited{};
		// what a graph can know of: nothing when a later user is no dependency, however indirect
		std::function< bool( Graph &, Cell const & ) > knowsCell;
		std::function< bool( Graph &, size_t ) > knowsBuffer;

		VkImageLayout deviceLayout( Img const & img, uint32_t layer, uint32_t mip, bool & same )
		{
			VkImageLayout r{};
			bool first = true;
			auto vk = w.vkImage( int( &img - w.imgs.data() ) );
			auto * o = w.dev->find( sim::u( vk ), sim::Ty::Image );
			same = true;
			if ( !o ) return VK_IMAGE_LAYOUT_UNDEFINED;
			w.dev->forSubs( *o, { img.aspect, mip, 1u, layer, 1u }, [&]( sim::Sub & s, uint32_t, uint32_t, uint32_t )
				{
					if ( !first && r != s.layout ) same = false;
					r = s.layout;
					first = false;
				}, "harness" );
			return r;
		}

		void finalStates( Graph & g )
		{
			// cells the run used
			std::map< uint64_t, std::set< std::pair< uint32_t, uint32_t > > > used;
			for ( auto & cmd : w.commands( g ) )
				if ( cmd.k == sim::CK::Use )
					for ( uint32_t l = 0u; l < cmd.use.range.layerCount; ++l )
						for ( uint32_t m = 0u; m < cmd.use.range.levelCount; ++m )
							used[cmd.use.image].insert( { cmd.use.range.baseArrayLayer + l, cmd.use.range.baseMipLevel + m } );
			for ( size_t i = 0u; i < w.imgs.size(); ++i )
			{
				auto & img = w.imgs[i];
				auto vk = sim::u( w.vkImage( int( i ) ) );
				uint32_t layers = img.type == VK_IMAGE_TYPE_3D ? 1u : img.layers;
				for ( uint32_t l = 0u; l < layers; ++l )
					for ( uint32_t m = 0u; m < img.mips; ++m )
					{
						auto rep = g.fg->getFinalLayoutState( img.id, typeOf( img ), { img.aspect, m, 1u, l, 1u } );
						bool same{};
						auto dev = deviceLayout( img, l, m, same );
						if ( !same ) continue;
						if ( knowsCell && !knowsCell( g, Cell{ int( i ), l, m } ) ) continue;
						bool isUsed = used.count( vk ) && used[vk].count( { l, m } );
						auto at = pbt::fmt( "graph %s, image %zu layer %u mip %u", g.name.c_str(), i, l, m );
						if ( isUsed || rep.layout != VK_IMAGE_LAYOUT_UNDEFINED )
						{
							++compared;
							c.check( rep.layout == dev, pbt::fmt( "final layout: %s reported as %s, is %s%s", at.c_str(), layoutName( rep.layout ).c_str(), layoutName( dev ).c_str(), isUsed ? "" : " (unused by this run)" ) );
						}
					}
			}
		}

		void outputLayouts( Graph & g )
		{
			std::map< Cell, VkImageLayout > outs;
			for ( auto & [v, l] : g.outputs )
				for ( auto & x : cellsOf( w, v ) ) outs[x] = l;
			if ( outs.empty() ) return;
			auto spans = chk::spans( w, g );
			for ( size_t i = 0u; i < spans.size(); ++i )
			{
				auto & p = *spans[i].p;
				auto touches = [&]( Pass const & q, int img )
				{
					for ( auto & a : q.images )
						for ( auto v : a.views )
							if ( w.views[size_t( v )].img == img ) return true;
					return false;
				};
				for ( auto & a : p.images )
				{
					if ( !isRender( a.k ) ) continue;
					auto view = a.view( p.index );
					auto img = w.views[size_t( view )].img;
					bool last = true;
					for ( size_t j = i + 1u; j < spans.size(); ++j ) last = last && !touches( *spans[j].p, img );
					// the same pass uses the image once only
					size_t n = 0u;
					for ( auto & b : p.images )
						for ( auto v : b.views ) n += w.views[size_t( v )].img == img;
					if ( !last || n != 1u ) continue;
					auto cells = cellsOf( w, view );
					if ( !std::all_of( cells.begin(), cells.end(), [&]( Cell const & x ){ return outs.count( x ) != 0u; } ) ) continue;
					for ( auto & x : cells )
					{
						bool same{};
						auto dev = deviceLayout( w.imgs[size_t( img )], x.layer, x.mip, same );
						++outputs;
						c.check( same && dev == outs[x], pbt::fmt( "output layout: graph %s leaves image %d layer %u mip %u in %s, declared output %s", g.name.c_str(), img, x.layer, x.mip, layoutName( dev ).c_str(), layoutName( outs[x] ).c_str() ) );
					}
				}
			}
		}

		void buffers( Graph & g, chk::BufModel & m )
		{
			for ( auto & b : w.bufs )
			{
				auto it = m.latest.find( sim::u( b.vk ) );
				if ( it == m.latest.end() ) continue;
				if ( knowsBuffer && !knowsBuffer( g, size_t( &b - w.bufs.data() ) ) ) continue;
				crg::Buffer buf{ b.vk, b.name };
				auto rep = g.fg->getFinalAccessState( buf, 0u );
				c.check( rep.access == it->second.access && rep.pipelineStage == it->second.stage, pbt::fmt( "final access: graph %s reports access 0x%x stage 0x%x for buffer %s, last used with %s", g.name.c_str(), rep.access, rep.pipelineStage, b.name.c_str(), chk::show( it->second ).c_str() ) );
			}
		}
	};

	void provide( World & w )
	{
		for ( size_t i = 0u; i < w.imgs.size(); ++i )
		{
			auto & img = w.imgs[i];
			if ( !img.external ) continue;
			auto vk = w.vkImage( int( i ) );
			auto aspect = img.aspect;
			if ( img.hasDepth && img.hasStencil && !w.separate ) aspect = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
			w.dev->setImage( sim::u( vk ), { aspect, 0u, img.mips, 0u, img.type == VK_IMAGE_TYPE_3D ? 1u : img.layers }, img.extLayout, true );
		}
	}

	void run( pbt::Case & c, Mode mode, chk::Fam fam )
	{
		auto o = chk::family( c, fam );
		o.external = mode != Mode::Ring;
		o.maxPasses = std::min( o.maxPasses, 5u );
		o.minPasses = 1u;
		o.frames = fam == chk::Fam::Long ? 6u : 3u;
		World w{ c, o };
		w.genImages();
		if ( mode != Mode::Ring )
			for ( auto & img : w.imgs ) img.external = true;
		w.genBuffers();
		uint32_t n = mode == Mode::Vee ? 3u : c.t.range( 2u, c.thorough ? 5u : 4u );
		vector< int > tagI, tagB;
		for ( size_t i = 0u; i < w.imgs.size(); ++i ) tagI.push_back( int( c.t.below( 2u ) ) );
		for ( size_t i = 0u; i < w.bufs.size(); ++i ) tagB.push_back( int( c.t.below( 2u ) ) );
		for ( uint32_t i = 0u; i < n; ++i )
		{
			if ( mode == Mode::Vee && i < 2u )
			{
				w.imgAllowed = [&tagI, i]( int k ){ return tagI[size_t( k )] == int( i ); };
				w.bufAllowed = [&tagB, i]( int k ){ return tagB[size_t( k )] == int( i ); };
			}
			else { w.imgAllowed = {}; w.bufAllowed = {}; }
			w.genGraph( "G" + std::to_string( i ) );
		}
		w.imgAllowed = {};
		w.bufAllowed = {};
		switch ( mode )
		{
		case Mode::Ring:
			for ( uint32_t i = 0u; i < n; ++i ) w.graphs[i]->depends.push_back( int( ( i + n - 1u ) % n ) );
			break;
		case Mode::Chain:
			for ( uint32_t i = 1u; i < n; ++i ) w.graphs[i]->depends.push_back( int( i - 1u ) );
			break;
		default:
			w.graphs[2]->depends = { 0, 1 };
			if ( c.t.flag() ) std::swap( w.graphs[2]->depends[0], w.graphs[2]->depends[1] );
			break;
		}
		if ( c.verbose ) fprintf( stderr, "%s\n%s", name( mode ), w.describe().c_str() );
		c.sample = std::string( name( mode ) ) + "\n" + w.describe();
		// declare graphs in order; the ring is closed once they all exist
		auto ring = w.graphs[0]->depends;
		w.graphs[0]->depends.clear();
		for ( auto & g : w.graphs ) w.build( *g );
		w.graphs[0]->depends = ring;
		for ( auto d : ring ) w.graphs[0]->fg->addDependency( *w.graphs[size_t( d )]->fg );
		for ( auto & g : w.graphs ) w.compile( *g );
		Checker k{ c, w };
		std::optional< chk::BufModel > m; m.emplace( c );
		chk::cut( *m, w );
		crg::SemaphoreWaitArray wait;
		for ( uint32_t f = 0u; f < o.frames; ++f )
		{
			if ( mode != Mode::Ring )
			{
				provide( w );
				m.emplace( c );
				chk::cut( *m, w );
			}
			for ( auto & gp : w.graphs )
			{
				auto & g = *gp;
				w.setFrame( g, f );
				wait = g.rg->run( wait, sim::queueHandle() );
				g.lastCb = sim::as< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
				chk::trace( c, w, g, f );
				w.require( { "oldlayout", "layout", "content" } );
				k.finalStates( g );
				k.outputLayouts( g );
				chk::feed( *m, c, w, g );
				// in a vee, what the other branch used is not this graph's
				if ( mode != Mode::Vee || g.id == 2u ) k.buffers( g, *m );
			}
		}
		chk::noteKinds( c, w );
		c.note( name( mode ) );
		if ( k.outputs ) c.note( "output layout left by a render pass" );
		if ( m->handovers ) c.note( "buffer handed over" );
		if ( k.compared >= 4u ) c.nt( c.sample );
	}

	// Any relation between the graphs, run in any order in which what each uses was last used by itself or
	// by a graph whose knowledge reached it.
	void web( pbt::Case & c )
	{
		auto & t = c.t;
		auto o = chk::family( c, t.flag() ? chk::Fam::Any : chk::Fam::Renders );
		o.external = false;
		o.maxPasses = std::min( o.maxPasses, 4u );
		o.frames = 4u;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		uint32_t n = t.range( 2u, 5u );
		for ( uint32_t i = 0u; i < n; ++i ) w.genGraph( "G" + std::to_string( i ) );
		vector< vector< int > > deps( n );
		for ( uint32_t i = 0u; i < n; ++i )
			for ( uint32_t j = 0u; j < n; ++j )
				if ( i != j && t.chance( j < i ? 75 : 15 ) ) deps[i].insert( deps[i].begin() + std::ptrdiff_t( t.below( uint32_t( deps[i].size() + 1u ) ) ), int( j ) );
		for ( uint32_t i = 0u; i < n; ++i ) w.graphs[i]->depends = deps[i];
		c.sample = w.describe();
		for ( auto & g : w.graphs ) g->depends.clear();
		for ( auto & g : w.graphs ) w.build( *g );
		for ( uint32_t i = 0u; i < n; ++i )
		{
			w.graphs[i]->depends = deps[i];
			for ( auto d : deps[i] ) w.graphs[i]->fg->addDependency( *w.graphs[size_t( d )]->fg );
		}
		for ( auto & g : w.graphs ) w.compile( *g );
		// when each resource was last used, as far as each graph knows
		vector< std::map< Cell, size_t > > knownI( n );
		vector< std::map< size_t, size_t > > knownB( n );
		std::map< Cell, size_t > lastI;
		std::map< size_t, size_t > lastB;
		size_t time = 0u;
		Checker k{ c, w };
		k.knowsCell = [&]( Graph & g, Cell const & x ){ return knownI[g.id][x] == lastI[x]; };
		k.knowsBuffer = [&]( Graph & g, size_t b ){ return knownB[g.id][b] == lastB[b]; };
		chk::BufModel m{ c };
		chk::cut( m, w );
		crg::SemaphoreWaitArray wait;
		auto steps = t.range( 2u, c.thorough ? 16u : 10u );
		size_t runs = 0u, crossed = 0u, notRun = 0u;
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			auto first = t.below( n ), frame = t.below( o.frames );
			std::map< Cell, size_t > ki;
			std::map< size_t, size_t > kb;
			std::set< size_t > fromDeps;
			bool knows = false, other = false;
			Graph * chosen = nullptr;
			++time;
			for ( uint32_t k = 0u; k < n && !knows; ++k )
			{
				auto & g = *w.graphs[( first + k ) % n];
				w.setFrame( g, frame );
				ki = knownI[g.id];
				kb = knownB[g.id];
				fromDeps.clear();
				for ( auto d : deps[g.id] )
				{
					for ( auto & [x, at] : knownI[size_t( d )] ) ki[x] = std::max( ki[x], at );
					for ( auto & [x, at] : knownB[size_t( d )] ) { kb[x] = std::max( kb[x], at ); if ( at ) fromDeps.insert( x ); }
				}
				knows = true;
				other = false;
				auto useI = [&]( int view ) { for ( auto & x : cellsOf( w, view ) ) { knows = knows && ki[x] == lastI[x]; other = other || ( lastI[x] && knownI[g.id][x] != lastI[x] ); } };
				for ( auto & p : g.passes )
					if ( p->enabled )
					{
						for ( auto & a : p->images ) useI( a.view( p->index ) );
						for ( auto & a : p->buffers ) { auto b = size_t( a.buf( p->index ) ); knows = knows && ( a.noTransition || kb[b] == lastB[b] ); }
					}
				if ( knows ) chosen = &g; else ++notRun;
			}
			if ( !chosen ) continue;
			auto & g = *chosen;
			for ( auto & p : g.passes )
				if ( p->enabled )
				{
					for ( auto & a : p->images ) for ( auto & x : cellsOf( w, a.view( p->index ) ) ) ki[x] = lastI[x] = time;
					for ( auto & a : p->buffers ) if ( !a.noTransition ) kb[size_t( a.buf( p->index ) )] = lastB[size_t( a.buf( p->index ) )] = time;
				}
			knownI[g.id] = ki;
			knownB[g.id] = kb;
			// a graph alone does not look back at its own previous run for buffers: it waited for its end
			for ( size_t b = 0u; b < w.bufs.size(); ++b )
				if ( !fromDeps.count( b ) ) for ( auto & [at, cell] : m.cells[sim::u( w.bufs[b].vk )] ) { cell.used = false; cell.src.clear(); cell.dst.clear(); }
			c.sample += pbt::fmt( "run %s\n", g.name.c_str() );
			wait = g.rg->run( wait, sim::queueHandle() );
			g.lastCb = sim::as< VkCommandBuffer >( w.dev->subs.back().cmdBuf );
			chk::trace( c, w, g, s );
			w.require( { "oldlayout", "layout", "content" } );
			k.finalStates( g );
			k.outputLayouts( g );
			chk::feed( m, c, w, g );
			k.buffers( g, m );
			++runs;
			if ( other ) ++crossed;
		}
		chk::noteKinds( c, w );
		if ( notRun ) c.note( "a run the graph knows too little for, not done" );
		if ( crossed ) c.note( "an image taken over from another graph" );
		if ( crossed && k.compared >= 4u ) c.nt( c.sample );
	}
}
PBT_CHECK( "C08", "web", 8000, 200000, "a run took an image over from another graph" ) { web( c ); }
PBT_CHECK( "C08", "ring", 6000, 150000, "at least 4 final layouts compared" ) { run( c, Mode::Ring, c.t.flag() ? chk::Fam::Any : chk::Fam::Renders ); }
PBT_CHECK( "C08", "chain", 6000, 150000, "at least 4 final layouts compared" ) { run( c, Mode::Chain, c.t.flag() ? chk::Fam::Any : chk::Fam::Renders ); }
PBT_CHECK( "C08", "vee", 3000, 100000, "at least 4 final layouts compared" ) { run( c, Mode::Vee, chk::Fam::Any ); }
PBT_CHECK( "C08", "long", 2500, 60000, "at least 4 final layouts compared" ) { run( c, c.t.flag() ? Mode::Ring : Mode::Chain, chk::Fam::Long ); }


namespace
{
	// A, then B and C both after A, then D after both: what D gets for an image B used.
	std::string diamond()
	{
		chk::Direct d;
		auto & w = d.w;
		auto x = chk::image( w, "x", VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT );
		auto v = chk::view( w, "x", x, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } );
		crg::FrameGraph a{ *w.handler, "A" }, b{ *w.handler, "B" }, cc{ *w.handler, "C" }, e{ *w.handler, "D" };
		chk::pass( a, "a", VK_PIPELINE_STAGE_TRANSFER_BIT ).addTransferOutputView( v );
		chk::pass( b, "b", VK_PIPELINE_STAGE_TRANSFER_BIT ).addTransferInputView( v );
		chk::pass( cc, "c", VK_PIPELINE_STAGE_TRANSFER_BIT );
		chk::pass( e, "d", VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ).addSampledView( v, 0u );
		b.addDependency( a );
		cc.addDependency( a );
		e.addDependency( cc );
		e.addDependency( b );
		std::vector< crg::RunnableGraphPtr > r;
		for ( auto g : { &a, &b, &cc, &e } ) r.push_back( g->compile( *w.ctx ) );
		crg::SemaphoreWaitArray wait;
		for ( auto & g : r ) wait = g->run( wait, sim::queueHandle() );
		return chk::viols( w, { "oldlayout", "layout", "content" } );
	}
	// B runs again, the graph it depends on does not.
	std::string again()
	{
		chk::Direct d;
		auto & w = d.w;
		auto x = chk::image( w, "x", VK_FORMAT_R8G8B8A8_UNORM, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT );
		auto v = chk::view( w, "x", x, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } );
		crg::FrameGraph a{ *w.handler, "A" }, b{ *w.handler, "B" };
		chk::pass( a, "a", VK_PIPELINE_STAGE_TRANSFER_BIT ).addTransferOutputView( v );
		chk::pass( b, "b", VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ).addSampledView( v, 0u );
		b.addDependency( a );
		auto ra = a.compile( *w.ctx ), rb = b.compile( *w.ctx );
		auto wait = ra->run( sim::queueHandle() );
		rb->run( wait, sim::queueHandle() );
		rb->run( sim::queueHandle() );
		return chk::viols( w, { "oldlayout", "layout", "content" } );
	}
}
PBT_PROBE( "C08", "diamond-stale-state" ) { return diamond(); }
PBT_PROBE( "C08", "rerun-without-its-dependency" ) { return again(); }
