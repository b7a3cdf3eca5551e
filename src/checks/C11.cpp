// C11: what is described the same is shared, what is not never is.
#include "direct.hpp"
#include <optional>
#include <tuple>
using namespace gg;

namespace
{
	using ViewKey = std::tuple< uint32_t, uint32_t, uint32_t, uint32_t, std::array< uint32_t, 4u >, std::array< uint32_t, 5u >, std::vector< uint32_t > >;
	ViewKey keyOf( crg::ImageViewData const & d )
	{
		auto & r = d.info.subresourceRange;
		std::vector< uint32_t > src;
		for ( auto & s : d.source ) src.push_back( s.id );
		auto & m = d.info.components;
		return { d.image.id, d.info.flags, uint32_t( d.info.viewType ), uint32_t( d.info.format ), { uint32_t( m.r ), uint32_t( m.g ), uint32_t( m.b ), uint32_t( m.a ) }
			, { r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount }, src };
	}

	crg::ImageData imageData( pbt::Tape & t, uint32_t i )
	{
		bool cube = t.chance( 25 );
		bool volume = !cube && t.chance( 20 );
		auto layers = cube ? t.pick( { 6u, 12u, 18u } ) : volume ? 1u : t.range( 1u, 8u );
		auto type = volume ? VK_IMAGE_TYPE_3D : !cube && t.chance( 15 ) ? VK_IMAGE_TYPE_1D : VK_IMAGE_TYPE_2D;
		auto side = 1u << t.range( 0u, 6u );
		VkExtent3D e{ side, type == VK_IMAGE_TYPE_1D ? 1u : cube ? side : t.range( 1u, 64u ), volume ? t.range( 1u, 16u ) : 1u };
		auto mips = t.range( 1u, 5u );
		return crg::ImageData{ "image" + std::to_string( t.below( 2u ) ? i : 0u ), VkImageCreateFlags( cube ? VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT : 0u ) | VkImageCreateFlags( t.chance( 20 ) ? VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT : 0u )
			, type, t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT } ), e
			, t.pick( { VkImageUsageFlags( VK_IMAGE_USAGE_SAMPLED_BIT ), VkImageUsageFlags( VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT ), VkImageUsageFlags( VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT ) } )
			, mips, layers, t.pick( { VK_SAMPLE_COUNT_1_BIT, VK_SAMPLE_COUNT_4_BIT } ), t.pick( { VK_IMAGE_TILING_OPTIMAL, VK_IMAGE_TILING_LINEAR } ) };
	}
	VkImageViewType typeFor( pbt::Tape & t, VkImageCreateInfo const & i, uint32_t layers )
	{
		if ( i.imageType == VK_IMAGE_TYPE_3D ) return VK_IMAGE_VIEW_TYPE_3D;
		if ( i.imageType == VK_IMAGE_TYPE_1D ) return layers > 1u || t.flag() ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D;
		if ( ( i.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && layers % 6u == 0u && t.flag() ) return layers == 6u ? VK_IMAGE_VIEW_TYPE_CUBE : VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
		return layers > 1u || t.chance( 30 ) ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
	}
	VkImageAspectFlags aspectFor( pbt::Tape & t, VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_D32_SFLOAT: return VK_IMAGE_ASPECT_DEPTH_BIT;
		case VK_FORMAT_D24_UNORM_S8_UINT: return t.pick( { VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ), VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT ), VkImageAspectFlags( VK_IMAGE_ASPECT_STENCIL_BIT ) } );
		default: return VK_IMAGE_ASPECT_COLOR_BIT;
		}
	}
	crg::ImageViewData viewData( pbt::Tape & t, std::vector< crg::ImageId > const & images )
	{
		auto & img = t.pick( images );
		auto & i = img.data->info;
		VkImageSubresourceRange r{ aspectFor( t, i.format ), 0u, 1u, 0u, 1u };
		r.baseMipLevel = t.below( i.mipLevels );
		r.levelCount = t.range( 1u, i.mipLevels - r.baseMipLevel );
		bool faces = ( i.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && t.flag();
		if ( faces ) { r.baseArrayLayer = 6u * t.below( i.arrayLayers / 6u ); r.layerCount = 6u * t.range( 1u, ( i.arrayLayers - r.baseArrayLayer ) / 6u ); }
		else { r.baseArrayLayer = t.below( i.arrayLayers ); r.layerCount = t.range( 1u, i.arrayLayers - r.baseArrayLayer ); }
		auto fmt = ( i.flags & VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ) && i.format == VK_FORMAT_R8G8B8A8_UNORM && t.flag() ? VK_FORMAT_R8G8B8A8_SRGB : i.format;
		crg::ImageViewData d{ "view" + std::to_string( t.below( 3u ) ), img, 0u, typeFor( t, i, r.layerCount ), fmt, r };
		if ( t.chance( 30 ) )
		{
			auto sw = [&](){ return t.pick( { VK_COMPONENT_SWIZZLE_IDENTITY, VK_COMPONENT_SWIZZLE_R, VK_COMPONENT_SWIZZLE_G, VK_COMPONENT_SWIZZLE_B, VK_COMPONENT_SWIZZLE_A, VK_COMPONENT_SWIZZLE_ONE } ); };
			d.info.components = { sw(), sw(), sw(), sw() };
		}
		return d;
	}
	// Changes one field of a description, keeping it valid.
	void mutate( pbt::Tape & t, crg::ImageViewData & d, std::vector< crg::ImageId > const & images )
	{
		auto & i = d.image.data->info;
		auto & r = d.info.subresourceRange;
		switch ( t.below( 8u ) )
		{
		case 0u: d.info.components.r = t.pick( { VK_COMPONENT_SWIZZLE_R, VK_COMPONENT_SWIZZLE_A, VK_COMPONENT_SWIZZLE_ZERO } ); break;
		case 1u: d.info.components.g = t.pick( { VK_COMPONENT_SWIZZLE_G, VK_COMPONENT_SWIZZLE_R } ); break;
		case 2u: d.info.components.b = t.pick( { VK_COMPONENT_SWIZZLE_B, VK_COMPONENT_SWIZZLE_R } ); break;
		case 3u: d.info.components.a = t.pick( { VK_COMPONENT_SWIZZLE_A, VK_COMPONENT_SWIZZLE_ONE } ); break;
		case 4u: if ( r.levelCount > 1u ) --r.levelCount; else if ( r.baseMipLevel + 1u < i.mipLevels ) ++r.levelCount; break;
		case 5u: if ( r.baseMipLevel + r.levelCount < i.mipLevels ) ++r.baseMipLevel; else if ( r.baseMipLevel ) --r.baseMipLevel; break;
		case 6u: r.aspectMask = aspectFor( t, i.format ); break;
		default:
			{
				// the same range of another image which has it
				for ( auto & o : images )
					if ( o.id != d.image.id && o.data->info.format == i.format && o.data->info.imageType == i.imageType && o.data->info.flags == i.flags && o.data->info.mipLevels >= r.baseMipLevel + r.levelCount && o.data->info.arrayLayers >= r.baseArrayLayer + r.layerCount )
					{ d.image = o; break; }
			}
			break;
		}
	}
	void sameInfo( pbt::Case & c, VkImageViewCreateInfo const & g, crg::ImageViewData const & d )
	{
		auto & e = d.info;
		auto & a = g.subresourceRange;
		auto & b = e.subresourceRange;
		c.check( g.flags == e.flags && g.viewType == e.viewType && g.format == e.format, "device: the view is created with another kind or format" );
		c.check( g.components.r == e.components.r && g.components.g == e.components.g && g.components.b == e.components.b && g.components.a == e.components.a, "device: the view is created with another component mapping" );
		c.check( a.aspectMask == b.aspectMask && a.baseMipLevel == b.baseMipLevel && a.levelCount == b.levelCount && a.baseArrayLayer == b.baseArrayLayer && a.layerCount == b.layerCount, "device: the view is created with another range" );
	}
	std::string show( crg::ImageViewData const & d )
	{
		auto & r = d.info.subresourceRange;
		return pbt::fmt( "image %u type %d fmt %d aspect %x m%u+%u l%u+%u swizzle %d%d%d%d, %zu sources", d.image.id, int( d.info.viewType ), int( d.info.format ), r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount, int( d.info.components.r ), int( d.info.components.g ), int( d.info.components.b ), int( d.info.components.a ), d.source.size() );
	}
}

PBT_CHECK( "C11", "views", 200000, 3000000, "at least 2 views shared and 3 distinct ones" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	crg::FrameGraph fg{ *w.handler, "G" };
	auto nothing = []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
	{
		return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ); } ) } );
	};
	auto & grp = t.flag() ? fg.createPassGroup( "g" ).createPassGroup( "h" ) : fg.getDefaultGroup();
	std::vector< crg::ImageId > images, ownImages; // own: made through the graph
	std::vector< crg::ImageViewId > ownViews;
	auto ni = t.range( 1u, 4u );
	std::string log;
	std::map< uint64_t, uint32_t > objects; // device image -> id
	crg::ContextResourcesCache cache{ *w.handler, *w.ctx };
	crg::ResourcesCache other{ *w.handler };
	for ( uint32_t i = 0u; i < ni; ++i )
	{
		auto d = i && t.chance( 40 ) ? *images[t.below( i )].data : imageData( t, i );
		auto way = t.below( 4u );
		auto id = way == 0u ? fg.createImage( d ) : way == 1u ? grp.createImage( d ) : w.handler->createImageId( d );
		if ( way < 2u ) ownImages.push_back( id );
		log += pbt::fmt( "image %u: fmt %d %ux%ux%u mips %u layers %u flags %x\n", id.id, int( d.info.format ), d.info.extent.width, d.info.extent.height, d.info.extent.depth, d.info.mipLevels, d.info.arrayLayers, d.info.flags );
		for ( auto & o : images ) c.check( o.id != id.id && o.data != id.data, "images: two images asked for are one\n" + log );
		c.check( id.data->info.format == d.info.format && id.data->info.extent.width == d.info.extent.width && id.data->name == d.name, "images: the description is lost\n" + log );
		images.push_back( id );
	}
	auto makeImage = [&]( crg::ImageId const & id )
	{
		auto h = sim::u( t.flag() ? cache.createImage( id ) : other.createImage( *w.ctx, id ) );
		auto [it, ins] = objects.emplace( h, id.id );
		c.check( it->second == id.id, "images: one device image for two\n" + log );
		auto & g = w.dev->find( h, sim::Ty::Image )->ici;
		auto & e = id.data->info;
		c.check( g.flags == e.flags && g.imageType == e.imageType && g.format == e.format && g.extent.width == e.extent.width && g.extent.height == e.extent.height && g.extent.depth == e.extent.depth
			&& g.mipLevels == e.mipLevels && g.arrayLayers == e.arrayLayers && g.samples == e.samples && g.tiling == e.tiling && g.usage == e.usage && g.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED, "device: the image is not created as described\n" + log );
	};
	std::map< ViewKey, crg::ImageViewId > ids;
	std::map< uint32_t, ViewKey > byId;
	std::map< uint64_t, uint32_t > viewObjects;
	std::vector< crg::ImageViewData > asked;
	size_t shared = 0u;
	auto record = [&]( crg::ImageViewId const & id, crg::ImageViewData const & d )
	{
		auto key = keyOf( d );
		c.check( id.data != nullptr && keyOf( *id.data ) == key, "views: the description is not the one asked for: " + show( *id.data ) + "\n" + log );
		auto it = ids.find( key );
		if ( it != ids.end() )
		{
			c.check( it->second == id && it->second.data == id.data, "views: the same view asked for twice is not shared: " + show( d ) + "\n" + log );
			++shared;
		}
		else
		{
			c.check( !byId.count( id.id ), "views: two different views are one: " + show( d ) + "\n" + log );
			for ( auto & [k, o] : ids ) c.check( o.data != id.data, "views: two views share one description\n" + log );
			ids.emplace( key, id );
			byId.emplace( id.id, key );
		}
		if ( t.chance( 50 ) )
		{
			auto h = sim::u( t.flag() ? cache.createImageView( id ) : other.createImageView( *w.ctx, id ) );
			auto [vo, ins] = viewObjects.emplace( h, id.id );
			c.check( vo->second == id.id, "device: one view object for two views\n" + log );
			auto ob = w.dev->find( h, sim::Ty::View );
			sameInfo( c, ob->vci, d );
			auto im = sim::u( ob->vci.image );
			auto [io, i2] = objects.emplace( im, id.data->image.id );
			c.check( io->second == id.data->image.id, "device: the view looks at another image\n" + log );
		}
	};
	auto steps = t.range( 3u, 16u );
	for ( uint32_t s = 0u; s < steps; ++s )
	{
		switch ( t.below( 6u ) )
		{
		case 0u:
			makeImage( t.pick( images ) );
			break;
		case 1u:
			if ( !asked.empty() )
			{
				// merge views of one image: any order, overlapping or not
				auto & first = t.pick( asked );
				std::vector< crg::ImageViewData const * > of;
				for ( auto & a : asked ) if ( a.image == first.image && a.source.empty() ) of.push_back( &a );
				if ( of.empty() ) break;
				crg::ImageViewIdArray list;
				auto n = t.range( 2u, 5u );
				auto faces = ( first.image.data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && t.flag();
				for ( uint32_t i = 0u; i < ( faces ? 6u : n ); ++i )
				{
					if ( faces )
					{
						auto d = *of[0];
						d.info.viewType = VK_IMAGE_VIEW_TYPE_2D;
						d.info.subresourceRange.baseArrayLayer = i;
						d.info.subresourceRange.layerCount = 1u;
						list.push_back( w.handler->createViewId( d ) );
						record( list.back(), d );
					}
					else list.push_back( w.handler->createViewId( *t.pick( of ) ) );
				}
				bool mm = !t.chance( 25 ), ml = !t.chance( 25 );
				crg::ImageViewData e{ {}, list[0].data->image, list[0].data->info.flags, list[0].data->info.viewType, list[0].data->info.format, list[0].data->info.subresourceRange };
				e.info.components = list[0].data->info.components;
				auto & er = e.info.subresourceRange;
				uint32_t m0 = ~0u, m1 = 0u, l0 = ~0u, l1 = 0u;
				for ( auto & v : list )
				{
					auto & r = v.data->info.subresourceRange;
					m0 = std::min( m0, r.baseMipLevel ); m1 = std::max( m1, r.baseMipLevel + r.levelCount );
					l0 = std::min( l0, r.baseArrayLayer ); l1 = std::max( l1, r.baseArrayLayer + r.layerCount );
				}
				er.baseMipLevel = m0; er.levelCount = mm ? m1 - m0 : 1u;
				er.baseArrayLayer = l0; er.layerCount = ml ? l1 - l0 : 1u;
				e.source = list;
				auto & pass = fg.createPass( "p" + std::to_string( s ), nothing );
				log += pbt::fmt( "merge of %zu views of image %u\n", list.size(), e.image.id );
				auto id = pass.mergeViews( list, mm, ml );
				auto & g = *id.data;
				auto & gr = g.info.subresourceRange;
				c.check( gr.baseMipLevel == er.baseMipLevel && gr.levelCount == er.levelCount && gr.baseArrayLayer == er.baseArrayLayer && gr.layerCount == er.layerCount && gr.aspectMask == er.aspectMask
					, pbt::fmt( "merge: range is %s instead of m%u+%u l%u+%u\n%s", show( g ).c_str(), er.baseMipLevel, er.levelCount, er.baseArrayLayer, er.layerCount, log.c_str() ) );
				c.check( g.image == e.image && g.info.format == e.info.format && g.info.flags == e.info.flags, "merge: image or format changed\n" + log );
				c.check( g.source == list, "merge: the sources are not the views given\n" + log );
				for ( uint32_t i = 0u; i < list.size(); ++i ) c.check( crg::resolveView( id, i ) == list[i], "merge: an index does not resolve to its source\n" + log );
				// a kind that can hold the layers
				auto vt = g.info.viewType;
				auto n6 = gr.layerCount;
				auto it = e.image.data->info.imageType;
				bool ok = it == VK_IMAGE_TYPE_3D ? vt == VK_IMAGE_VIEW_TYPE_3D
					: it == VK_IMAGE_TYPE_1D ? ( vt == VK_IMAGE_VIEW_TYPE_1D_ARRAY || ( vt == VK_IMAGE_VIEW_TYPE_1D && n6 == 1u ) )
					: vt == VK_IMAGE_VIEW_TYPE_2D ? n6 == 1u
					: vt == VK_IMAGE_VIEW_TYPE_2D_ARRAY ? true
					: vt == VK_IMAGE_VIEW_TYPE_CUBE ? n6 == 6u && ( e.image.data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT )
					: vt == VK_IMAGE_VIEW_TYPE_CUBE_ARRAY ? n6 % 6u == 0u && ( e.image.data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : false;
				bool cubes = e.info.viewType == VK_IMAGE_VIEW_TYPE_CUBE || e.info.viewType == VK_IMAGE_VIEW_TYPE_CUBE_ARRAY; // what to make of cubes and a few more faces is up to the user
				if ( !cubes ) c.check( ok, pbt::fmt( "merge: a view of kind %d over %u layers\n%s", int( vt ), n6, log.c_str() ) );
				e.info.viewType = vt;
				if ( !ok ) break;
				c.note( "merged" );
				if ( vt == VK_IMAGE_VIEW_TYPE_CUBE ) c.note( "merged into a cube" );
				record( id, e );
			}
			break;
		default:
			{
				crg::ImageViewData d = !asked.empty() && t.chance( 60 ) ? t.pick( asked ) : viewData( t, images );
				if ( !asked.empty() && t.chance( 50 ) ) { mutate( t, d, images ); c.note( "one field changed" ); }
				if ( t.flag() ) d.name = "another name";
				log += show( d ) + "\n";
				auto way = t.below( 4u );
				auto id = way == 0u ? fg.createView( d ) : way == 1u ? grp.createView( d ) : w.handler->createViewId( d );
				if ( way < 2u ) ownViews.push_back( id );
				record( id, d );
				asked.push_back( d );
			}
			break;
		}
	}
	if ( t.chance( 30 ) && !( ownImages.empty() && ownViews.empty() ) )
	{
		// What was made through the graph is there once it is compiled, and no more than it.
		fg.createPass( "p", nothing );
		auto rg = fg.compile( *w.ctx );
		auto nImages = w.dev->calls["vkCreateImage"], nViews = w.dev->calls["vkCreateImageView"];
		for ( auto & id : ownImages )
		{
			auto h = sim::u( rg->createImage( id ) );
			auto it = objects.emplace( h, id.id ).first;
			c.check( it->second == id.id, "graph: one device image for two\n" + log );
		}
		for ( auto & id : ownViews )
		{
			auto h = sim::u( rg->createImageView( id ) );
			auto it = viewObjects.emplace( h, id.id ).first;
			c.check( it->second == id.id, "graph: one view object for two views\n" + log );
			sameInfo( c, w.dev->find( h, sim::Ty::View )->vci, *id.data );
		}
		c.check( w.dev->calls["vkCreateImage"] == nImages && w.dev->calls["vkCreateImageView"] == nViews, "graph: an image or view made through the graph was not there once compiled\n" + log );
		c.note( "the graph compiled" );
	}
	c.sample = log;
	w.require( { "lifetime", "memory" } );
	if ( shared >= 2u && ids.size() >= 3u ) c.nt( log );
}

PBT_CHECK( "C11", "samplers", 200000, 3000000, "at least 2 samplers shared and 3 distinct ones" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	crg::ContextResourcesCache cache{ *w.handler, *w.ctx };
	using Key = std::tuple< int, int, int, int, int, int, float, float, float >;
	auto key = []( crg::SamplerDesc const & d ){ return Key{ d.magFilter, d.minFilter, d.mipmapMode, d.addressModeU, d.addressModeV, d.addressModeW, d.mipLodBias, d.minLod, d.maxLod }; };
	std::map< Key, uint64_t > have;
	std::vector< crg::SamplerDesc > asked;
	std::optional< crg::SamplerDesc > collided;
	size_t shared = 0u;
	std::string log;
	auto steps = t.range( 4u, 24u );
	auto fl = [&](){ return t.pick( { VK_FILTER_NEAREST, VK_FILTER_LINEAR } ); };
	auto am = [&](){ return t.pick( { VK_SAMPLER_ADDRESS_MODE_REPEAT, VK_SAMPLER_ADDRESS_MODE_MIRRORED_REPEAT, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_EDGE, VK_SAMPLER_ADDRESS_MODE_CLAMP_TO_BORDER } ); };
	auto mm = [&](){ return t.pick( { VK_SAMPLER_MIPMAP_MODE_NEAREST, VK_SAMPLER_MIPMAP_MODE_LINEAR } ); };
	auto lod = [&](){ return t.pick( { 0.0f, 1.0f, -1.0f, 2.0f, 0.5f, 500.0f, -500.0f, 3.0f } ); };
	for ( uint32_t s = 0u; s < steps; ++s )
	{
		crg::SamplerDesc d{ fl(), fl(), mm(), am(), am(), am(), lod(), lod(), lod() };
		if ( !asked.empty() && t.chance( 75 ) )
		{
			d = t.pick( asked );
			if ( t.chance( 70 ) )
			{
				c.note( "one field changed" );
				switch ( t.below( 10u ) )
				{
				case 0u: d.magFilter = fl(); break;
				case 1u: d.minFilter = fl(); break;
				case 2u: d.mipmapMode = mm(); break;
				case 3u: d.addressModeU = am(); break;
				case 4u: d.addressModeV = am(); break;
				case 5u: d.addressModeW = am(); break;
				case 6u: d.mipLodBias = lod(); break;
				case 7u: d.minLod = lod(); break;
				case 8u: d.maxLod = lod(); break;
				default: // the same values, in other places
					if ( t.flag() ) std::swap( d.minLod, d.maxLod ); else if ( t.flag() ) std::swap( d.addressModeU, d.addressModeW ); else { std::swap( d.magFilter, d.minFilter ); }
					break;
				}
			}
		}
		if ( collided ) { d = *collided; collided.reset(); }
		else if ( t.chance( 4 ) )
		{
			// Descriptions which differ, but which the handler's hash function doesn't tell apart.
			using D = crg::SamplerDesc;
			auto col = []( int w, float bias, float lo, float hi ){ D r{}; r.magFilter = VkFilter( 0 ); r.minFilter = VkFilter( 0 ); r.mipmapMode = VkSamplerMipmapMode( 0 ); r.addressModeU = r.addressModeV = VkSamplerAddressMode( 0 ); r.addressModeW = VkSamplerAddressMode( w ); r.mipLodBias = bias; r.minLod = lo; r.maxLod = hi; return r; };
			auto pair = t.pick( { std::pair< D, D >{ col( 3, 2.26712205e-09f, 9.95594311f, 16.0f ), col( 1, -23.0415306f, 2.71969199f, 0.0f ) }
				, std::pair< D, D >{ col( 2, 0.208440617f, 3.98023907e-08f, 0.0f ), col( 1, -2.91342729e-07f, -487.141632f, 0.0f ) }
				, std::pair< D, D >{ col( 1, -2.9883671e-07f, -26790112.0f, 16.0f ), col( 3, 0.113091677f, -3.27785976e-09f, 1000.0f ) } } );
			if ( t.flag() ) std::swap( pair.first, pair.second );
			d = pair.first;
			collided = pair.second;
			c.note( "hash collision" );
		}
		asked.push_back( d );
		log += pbt::fmt( "sampler %d %d %d %d %d %d %.9g %.9g %.9g\n", d.magFilter, d.minFilter, d.mipmapMode, d.addressModeU, d.addressModeV, d.addressModeW, double( d.mipLodBias ), double( d.minLod ), double( d.maxLod ) );
		auto h = sim::u( cache.createSampler( d ) );
		auto it = have.find( key( d ) );
		if ( it != have.end() ) { c.check( it->second == h, "samplers: the same one asked for twice is not shared\n" + log ); ++shared; }
		else
		{
			for ( auto & [k, o] : have ) c.check( o != h, "samplers: two different ones are one object\n" + log );
			have.emplace( key( d ), h );
			auto ob = w.dev->find( h, sim::Ty::Sampler );
			c.check( ob && ob->alive, "samplers: dead object\n" + log );
			auto & g = ob->sci;
			c.check( g.magFilter == d.magFilter && g.minFilter == d.minFilter && g.mipmapMode == d.mipmapMode && g.addressModeU == d.addressModeU && g.addressModeV == d.addressModeV && g.addressModeW == d.addressModeW
				&& g.mipLodBias == d.mipLodBias && g.minLod == d.minLod && g.maxLod == d.maxLod && !g.anisotropyEnable && !g.compareEnable && !g.unnormalizedCoordinates, "device: the sampler is not created as described\n" + log );
		}
	}
	c.sample = log;
	if ( shared >= 2u && have.size() >= 3u ) c.nt( log );
}
