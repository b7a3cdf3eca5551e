// C09: device objects live exactly as long as needed and are destroyed exactly once.
#include "direct.hpp"
using namespace gg;

namespace
{
	std::set< std::string > const Cats{ "lifetime", "inflight", "memory", "cmdstate", "descriptor", "deadlock" };

	// Memory types in any order; at least one allowed type fits images, and one fits vertex buffers.
	void memory( pbt::Case & c, std::vector< VkMemoryPropertyFlags > & types, uint64_t & bits )
	{
		auto & t = c.t;
		constexpr VkMemoryPropertyFlags D = VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, H = VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, C = VK_MEMORY_PROPERTY_HOST_COHERENT_BIT;
		types.clear();
		auto n = t.range( 2u, 6u );
		for ( uint32_t i = 0u; i < n; ++i ) types.push_back( t.pick( { D, H, H | C, D | H, VkMemoryPropertyFlags( 0u ) } ) );
		auto d = t.below( n );
		auto h = ( d + 1u + t.below( n - 1u ) ) % n;
		types[d] = D;
		types[h] = t.pick( { H, H | C } );
		bits = ( 1u << d ) | ( 1u << h );
		for ( uint32_t i = 0u; i < n; ++i ) if ( t.chance( 40 ) ) bits |= 1u << i;
	}

	void finish( pbt::Case & c, sim::Device & dev, std::string const & after )
	{
		for ( auto & v : dev.viols ) if ( Cats.count( v.cat ) ) c.fail( v.cat + ": " + v.msg );
		auto left = dev.liveOwned();
		if ( !left.empty() )
		{
			std::string s;
			for ( size_t i = 0u; i < left.size() && i < 5u; ++i ) s += " " + dev.show( left[i] );
			c.fail( pbt::fmt( "leak: %zu objects left after %s:%s", left.size(), after.c_str(), s.c_str() ) );
		}
	}

	void history( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.resettable = true;
		o.maxPasses = std::min( o.maxPasses, 5u );
		memory( c, o.memTypes, o.memTypeBits );
		bool owned = t.flag(); // a cache of the user's holds the images: graphs may go in any order
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto n = t.range( 1u, 3u );
		for ( uint32_t i = 0u; i < n; ++i ) w.genGraph( "G" + std::to_string( i ) );
		for ( auto & g : w.graphs ) w.build( *g );
		std::string log = w.describe();
		std::unique_ptr< crg::ContextResourcesCache > cache;
		if ( owned )
		{
			cache = std::make_unique< crg::ContextResourcesCache >( *w.handler, *w.ctx );
			for ( auto & v : w.views ) if ( v.id.data ) cache->createImageView( v.id );
		}
		auto idle = [&]() { w.dev->completeAll(); };
		w.dev->lazy = t.flag();
		std::vector< uint32_t > order; // of compilation
		for ( uint32_t i = 0u; i < n; ++i ) order.push_back( i );
		for ( size_t i = n; owned && i > 1u; --i ) std::swap( order[i - 1u], order[t.below( uint32_t( i ) )] );
		for ( auto i : order ) w.compile( *w.graphs[i] );
		size_t runs = 0u, resets = 0u, recompiled = 0u;
		std::vector< crg::RunnableGraphPtr > extra; // further compilations of the same graphs
		auto steps = t.range( 3u, c.thorough ? 20u : 12u );
		auto runOne = [&]( Graph & g, uint32_t f )
		{
			w.setFrame( g, f );
			w.provideExternals( g );
			g.rg->run( sim::queueHandle() );
			++runs;
		};
		for ( uint32_t s = 0u; s < steps; ++s )
		{
			auto & g = *w.graphs[t.below( n )];
			switch ( t.below( 8u ) )
			{
			default:
				log += pbt::fmt( "run %s\n", g.name.c_str() );
				runOne( g, t.below( o.frames ) );
				break;
			case 4u:
				{
					log += pbt::fmt( "record %s\n", g.name.c_str() );
					w.setFrame( g, t.below( o.frames ) );
					g.rg->record();
				}
				break;
			case 5u:
				{
					auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
					if ( !p.resettable && p.kind != PK::Quad && p.kind != PK::Mesh ) break;
					auto what = t.below( 3u );
					auto index = p.index;
					log += pbt::fmt( "reset %u of %s p%u\n", what, g.name.c_str(), p.id );
					idle();
					++resets;
					if ( what == 0u ) p.rp->resetCommandBuffer( index );
					else if ( what == 1u ) p.rp->reRecordCurrent();
					else if ( p.enabled )
					{
						auto prog = t.flag() ? w.program( p.kind == PK::Compute ) : vector< VkPipelineShaderStageCreateInfo >{};
						if ( auto q = dynamic_cast< crg::RenderQuad * >( p.rp ) ) q->resetPipeline( prog, index );
						else if ( auto m = dynamic_cast< crg::RenderMesh * >( p.rp ) ) m->resetPipeline( prog, index );
						else if ( auto cp = dynamic_cast< crg::ComputePass * >( p.rp ) ) cp->resetPipeline( prog, index );
					}
				}
				break;
			case 6u:
				// compiled again: the new one must not need anything the old one owns
				if ( !owned && ( n > 1u || !extra.empty() ) ) break;
				log += pbt::fmt( "recompile %s\n", g.name.c_str() );
				idle();
				++recompiled;
				if ( owned && t.flag() ) { auto old = std::move( g.rg ); w.compile( g ); }
				else { g.rg.reset(); w.compile( g ); }
				break;
			case 7u:
				if ( !owned || extra.size() > 2u ) break;
				{
					log += pbt::fmt( "compile %s once more\n", g.name.c_str() );
					++recompiled;
					auto old = std::move( g.rg );
					w.compile( g );
					extra.push_back( std::move( old ) );
				}
				break;
			}
			w.require( Cats );
		}
		c.sample = log;
		idle();
		// everything goes, in an order that suits who owns the images
		std::vector< crg::RunnableGraphPtr * > rgs;
		for ( auto i : order ) rgs.push_back( &w.graphs[i]->rg );
		for ( auto & e : extra ) rgs.push_back( &e );
		if ( owned ) { for ( size_t i = rgs.size(); i > 1u; --i ) std::swap( rgs[i - 1u], rgs[t.below( uint32_t( i ) )] ); }
		else std::reverse( rgs.begin(), rgs.end() );
		for ( auto r : rgs ) { r->reset(); w.require( Cats ); }
		if ( cache )
		{
			cache.reset();
			w.require( Cats );
		}
		w.destroy();
		finish( c, *w.dev, "everything was destroyed" );
		chk::noteKinds( c, w );
		if ( resets ) c.note( "pass reset" );
		if ( recompiled ) c.note( "recompiled" );
		if ( owned ) c.note( "images owned by the user" );
		if ( runs >= 2u ) c.nt( log );
	}
}
PBT_CHECK( "C09", "history", 24000, 400000, "at least 2 runs" ) { history( c, chk::Fam::Any ); }
PBT_CHECK( "C09", "renders", 16000, 300000, "at least 2 runs" ) { history( c, chk::Fam::Renders ); }

// Resources asked for directly, through several caches of one handler.
PBT_CHECK( "C09", "resources", 80000, 1500000, "at least 3 objects asked for twice or more and 2 destructions" )
{
	auto & t = c.t;
	silence();
	sim::Device dev;
	memory( c, dev.memTypes, dev.memTypeBits );
	dev.memAlign = t.pick( { 1u, 256u, 4096u } );
	auto handler = std::make_unique< crg::ResourceHandler >();
	crg::GraphContext ctx{ sim::deviceHandle(), VkPipelineCache{}, nullptr, sim::memProps(), sim::devProps( 1.0f ), false, &sim::getDeviceProcAddr };
	struct I { crg::ImageId id; uint64_t h; int owner; };
	struct V { crg::ImageViewId id; size_t img; uint64_t h; int owner; };
	std::vector< I > images;
	std::vector< V > views;
	std::vector< crg::SamplerDesc > samplers;
	std::map< std::pair< size_t, size_t >, uint64_t > samplerOf;                     // cache, desc
	std::map< std::pair< size_t, uint32_t >, crg::VertexBuffer const * > vbOf;      // cache, config
	struct Cache { std::unique_ptr< crg::ContextResourcesCache > one; std::unique_ptr< crg::ResourcesCache > many; bool alive() const { return one || many; } };
	std::vector< Cache > caches;
	std::string log;
	auto n = t.range( 1u, 3u );
	for ( uint32_t i = 0u; i < n; ++i )
	{
		caches.emplace_back();
		if ( t.flag() ) caches.back().one = std::make_unique< crg::ContextResourcesCache >( *handler, ctx );
		else caches.back().many = std::make_unique< crg::ResourcesCache >( *handler );
	}
	auto ni = t.range( 1u, 4u );
	for ( uint32_t i = 0u; i < ni; ++i )
	{
		auto f = t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_D32_SFLOAT } );
		images.push_back( { handler->createImageId( crg::ImageData{ "i" + std::to_string( i ), 0u, VK_IMAGE_TYPE_2D, f, { 1u << t.below( 6u ), 1u << t.below( 6u ), 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, t.range( 1u, 3u ), t.range( 1u, 3u ) } ), 0u, -1 } );
		auto nv = t.range( 1u, 3u );
		for ( uint32_t v = 0u; v < nv; ++v )
		{
			auto & info = images.back().id.data->info;
			auto mip = t.below( info.mipLevels ), layer = t.below( info.arrayLayers );
			auto id = handler->createViewId( crg::ImageViewData{ pbt::fmt( "v%u_%u", i, v ), images.back().id, 0u, VK_IMAGE_VIEW_TYPE_2D_ARRAY, f, { VkImageAspectFlags( f == VK_FORMAT_D32_SFLOAT ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_COLOR_BIT ), mip, info.mipLevels - mip, layer, info.arrayLayers - layer } } );
			if ( std::none_of( views.begin(), views.end(), [&]( V const & x ){ return x.id == id; } ) ) views.push_back( { id, i, 0u, -1 } );
		}
	}
	auto ns = t.range( 1u, 3u );
	for ( uint32_t i = 0u; i < ns; ++i ) samplers.push_back( crg::SamplerDesc{ i & 1u ? VK_FILTER_LINEAR : VK_FILTER_NEAREST, i & 2u ? VK_FILTER_LINEAR : VK_FILTER_NEAREST } );
	size_t again = 0u, destroyed = 0u;
	auto require = [&]() { for ( auto & v : dev.viols ) if ( Cats.count( v.cat ) ) c.fail( v.cat + ": " + v.msg + "\n" + log ); };
	auto alive = [&]( uint64_t h, sim::Ty ty ){ auto o = dev.find( h, ty ); return o && o->alive; };
	auto useImage = [&]( size_t i, uint64_t h, int cache )
	{
		auto & x = images[i];
		c.check( alive( h, sim::Ty::Image ), pbt::fmt( "image: asking for image %zu gives a dead object\n%s", i, log.c_str() ) );
		if ( x.h ) { c.check( h == x.h, pbt::fmt( "same: asking again for image %zu gives another object\n%s", i, log.c_str() ) ); ++again; }
		else
		{
			x.h = h;
			x.owner = cache;
			auto & info = x.id.data->info;
			auto & ici = dev.find( h, sim::Ty::Image )->ici;
			c.check( ici.format == info.format && ici.mipLevels == info.mipLevels && ici.arrayLayers == info.arrayLayers && ici.extent.width == info.extent.width && ici.extent.height == info.extent.height && ici.usage == info.usage, "description: the image is not created as described" );
		}
		c.check( dev.find( h, sim::Ty::Image )->mem != 0u && alive( dev.find( h, sim::Ty::Image )->mem, sim::Ty::Memory ), pbt::fmt( "memory: image %zu has no memory\n%s", i, log.c_str() ) );
	};
	auto steps = t.range( 4u, 24u );
	for ( uint32_t s = 0u; s < steps; ++s )
	{
		auto k = t.below( n );
		auto & ca = caches[k];
		if ( !ca.alive() ) continue;
		switch ( t.below( 9u ) )
		{
		case 0u: case 1u:
			{
				auto i = t.below( ni );
				log += pbt::fmt( "cache %u: image %u\n", k, i );
				auto h = sim::u( ca.one ? ca.one->createImage( images[i].id ) : ca.many->createImage( ctx, images[i].id ) );
				useImage( i, h, int( k ) );
			}
			break;
		case 2u: case 3u:
			{
				auto v = t.below( uint32_t( views.size() ) );
				auto & x = views[v];
				log += pbt::fmt( "cache %u: view %u\n", k, v );
				auto h = sim::u( ca.one ? ca.one->createImageView( x.id ) : ca.many->createImageView( ctx, x.id ) );
				auto ob = dev.find( h, sim::Ty::View );
				c.check( ob && ob->alive, pbt::fmt( "view: asking for view %u gives a dead object\n%s", v, log.c_str() ) );
				useImage( x.img, sim::u( ob->vci.image ), int( k ) );
				if ( x.h ) { c.check( h == x.h, pbt::fmt( "same: asking again for view %u gives another object\n%s", v, log.c_str() ) ); ++again; }
				else { x.h = h; x.owner = int( k ); }
			}
			break;
		case 4u:
			{
				auto i = t.below( ns );
				log += pbt::fmt( "cache %u: sampler %u\n", k, i );
				auto h = sim::u( ca.one ? ca.one->createSampler( samplers[i] ) : ca.many->createSampler( ctx, samplers[i] ) );
				c.check( alive( h, sim::Ty::Sampler ), "sampler: dead\n" + log );
				auto [it, ins] = samplerOf.try_emplace( { k, i }, h );
				if ( !ins ) { ++again; c.check( it->second == h, pbt::fmt( "same: asking again for sampler %u gives another object\n%s", i, log.c_str() ) ); }
				for ( auto & [key, other] : samplerOf ) if ( key.second != i ) c.check( other != h, "shared: two different samplers are one object\n" + log );
			}
			break;
		case 5u:
			{
				auto cfg = t.below( 8u );
				log += pbt::fmt( "cache %u: vertex buffer %u\n", k, cfg );
				crg::Texcoord tc{ ( cfg & 1u ) != 0u, ( cfg & 2u ) != 0u };
				auto & vb = ca.one ? ca.one->createQuadTriVertexBuffer( ( cfg & 4u ) != 0u, tc ) : ca.many->createQuadTriVertexBuffer( ctx, ( cfg & 4u ) != 0u, tc );
				c.check( alive( sim::u( vb.buffer.buffer() ), sim::Ty::Buffer ) && alive( sim::u( vb.memory ), sim::Ty::Memory ), "vertex buffer: dead\n" + log );
				auto [it, ins] = vbOf.try_emplace( { k, cfg }, &vb );
				if ( !ins ) { ++again; c.check( it->second == &vb, "same: asking again for a vertex buffer gives another object\n" + log ); }
				for ( auto & [key, other] : vbOf ) if ( key != std::make_pair( size_t( k ), cfg ) && ( key.first == k ) ) c.check( other != &vb, "shared: two different vertex buffers are one object\n" + log );
			}
			break;
		case 6u:
			{
				auto v = t.below( uint32_t( views.size() ) );
				auto & x = views[v];
				log += pbt::fmt( "cache %u: destroy view %u\n", k, v );
				bool r = ca.one ? ca.one->destroyImageView( x.id ) : t.flag() ? ca.many->destroyImageView( ctx, x.id ) : ca.many->destroyImageView( x.id );
				c.check( r == ( x.h != 0u && x.owner == int( k ) ), pbt::fmt( "destroy: view %u, returned %d, owner %d\n%s", v, int( r ), x.owner, log.c_str() ) );
				if ( r ) { c.check( !alive( x.h, sim::Ty::View ), "destroy: the view still is there\n" + log ); x.h = 0u; x.owner = -1; ++destroyed; }
			}
			break;
		case 7u:
			{
				auto i = t.below( ni );
				auto & x = images[i];
				if ( std::any_of( views.begin(), views.end(), [&]( V const & v ){ return v.img == i && v.h; } ) ) break;
				log += pbt::fmt( "cache %u: destroy image %u\n", k, i );
				bool r = ca.one ? ca.one->destroyImage( x.id ) : t.flag() ? ca.many->destroyImage( ctx, x.id ) : ca.many->destroyImage( x.id );
				c.check( r == ( x.h != 0u && x.owner == int( k ) ), pbt::fmt( "destroy: image %u, returned %d, owner %d\n%s", i, int( r ), x.owner, log.c_str() ) );
				if ( r ) { c.check( !alive( x.h, sim::Ty::Image ), "destroy: the image still is there\n" + log ); x.h = 0u; x.owner = -1; ++destroyed; }
			}
			break;
		default:
			{
				// A cache goes, with all it owns: not while another one has a view on its images.
				if ( s + 1u < steps && t.chance( 70 ) ) break;
				if ( std::any_of( views.begin(), views.end(), [&]( V const & v ){ return v.h && v.owner != int( k ) && images[v.img].owner == int( k ); } ) ) break;
				log += pbt::fmt( "cache %u goes\n", k );
				ca.one.reset();
				ca.many.reset();
				++destroyed;
				for ( auto & v : views ) if ( v.owner == int( k ) ) { c.check( !alive( v.h, sim::Ty::View ), "cache: a view it owned is left\n" + log ); v.h = 0u; v.owner = -1; }
				for ( auto & i : images ) if ( i.owner == int( k ) ) { c.check( !alive( i.h, sim::Ty::Image ), "cache: an image it owned is left\n" + log ); i.h = 0u; i.owner = -1; }
				for ( auto it = samplerOf.begin(); it != samplerOf.end(); ) { if ( it->first.first == k ) { c.check( !alive( it->second, sim::Ty::Sampler ), "cache: a sampler it owned is left\n" + log ); it = samplerOf.erase( it ); } else ++it; }
				for ( auto it = vbOf.begin(); it != vbOf.end(); ) if ( it->first.first == k ) it = vbOf.erase( it ); else ++it;
			}
			break;
		}
		for ( auto & v : views ) if ( v.h ) c.check( alive( v.h, sim::Ty::View ), "alive: a view nobody destroyed is gone\n" + log );
		for ( auto & i : images ) if ( i.h ) c.check( alive( i.h, sim::Ty::Image ), "alive: an image nobody destroyed is gone\n" + log );
		require();
	}
	// views first
	for ( bool more = true; more; )
	{
		more = false;
		for ( uint32_t k = 0u; k < n; ++k )
		{
			if ( !caches[k].alive() ) continue;
			if ( std::any_of( views.begin(), views.end(), [&]( V const & v ){ return v.h && v.owner != int( k ) && images[v.img].owner == int( k ); } ) )
			{
				// circular ownership: destroy what the others see of this one's images first
				for ( auto & v : views )
					if ( v.h && v.owner != int( k ) && images[v.img].owner == int( k ) )
					{
						auto & o = caches[size_t( v.owner )];
						if ( o.one ) o.one->destroyImageView( v.id ); else o.many->destroyImageView( ctx, v.id );
						v.h = 0u;
						v.owner = -1;
					}
			}
			caches[k].one.reset();
			caches[k].many.reset();
			for ( auto & v : views ) if ( v.owner == int( k ) ) { v.h = 0u; v.owner = -1; }
			for ( auto & i : images ) if ( i.owner == int( k ) ) { i.h = 0u; i.owner = -1; }
			more = true;
		}
	}
	handler.reset();
	c.sample = log;
	finish( c, dev, "all caches are gone" );
	if ( again >= 3u && destroyed >= 2u ) c.nt( log );
}
