// C13: transfers touch exactly what their passes and actions describe.
#include "direct.hpp"
using namespace gg;

namespace
{
	// One transfer, however it was asked for.
	struct Transfer
	{
		sim::CK k{};
		uint64_t src{}, dst{};
		VkImageSubresourceLayers s{}, d{};
		VkOffset3D s0{}, s1{}, d0{}, d1{}; // corners; a copy's are offset and offset plus extent
		VkDeviceSize so{}, doff{}, size{};
		VkFilter filter{};
		VkImageLayout sl{}, dl{};
		VkClearValue clear{};
		VkImageSubresourceRange range{};
	};
	std::string text( World & w, Transfer const & t )
	{
		auto sub = []( VkImageSubresourceLayers const & x ){ return pbt::fmt( "aspect %x mip %u layers %u+%u", x.aspectMask, x.mipLevel, x.baseArrayLayer, x.layerCount ); };
		auto box = []( VkOffset3D const & a, VkOffset3D const & b ){ return pbt::fmt( "(%d,%d,%d)-(%d,%d,%d)", a.x, a.y, a.z, b.x, b.y, b.z ); };
		auto r = std::string( sim::name( t.k ) ) + " ";
		switch ( t.k )
		{
		case sim::CK::CopyImg: case sim::CK::Blit:
			return r + w.dev->show( t.src ) + " " + sub( t.s ) + " " + box( t.s0, t.s1 ) + " in " + layoutName( t.sl ) + " -> " + w.dev->show( t.dst ) + " " + sub( t.d ) + " " + box( t.d0, t.d1 ) + " in " + layoutName( t.dl ) + pbt::fmt( " filter %d", t.filter );
		case sim::CK::CopyBuffer:
			return r + w.dev->show( t.src ) + pbt::fmt( " at %llu -> ", (unsigned long long)t.so ) + w.dev->show( t.dst ) + pbt::fmt( " at %llu, %llu bytes", (unsigned long long)t.doff, (unsigned long long)t.size );
		case sim::CK::CopyBufImg:
			return r + w.dev->show( t.src ) + pbt::fmt( " at %llu -> ", (unsigned long long)t.so ) + w.dev->show( t.dst ) + " " + sub( t.d ) + " " + box( t.d0, t.d1 ) + " in " + layoutName( t.dl );
		case sim::CK::CopyImgBuf:
			return r + w.dev->show( t.src ) + " " + sub( t.s ) + " " + box( t.s0, t.s1 ) + " in " + layoutName( t.sl ) + " -> " + w.dev->show( t.dst ) + pbt::fmt( " at %llu", (unsigned long long)t.doff );
		default:
			return r + w.dev->show( t.dst ) + pbt::fmt( " aspect %x mips %u+%u layers %u+%u value %x %x in ", t.range.aspectMask, t.range.baseMipLevel, t.range.levelCount, t.range.baseArrayLayer, t.range.layerCount, t.clear.color.uint32[0], t.clear.color.uint32[1] ) + layoutName( t.dl );
		}
	}
	VkOffset3D end( VkOffset3D o, VkExtent3D e ) { return { o.x + int32_t( e.width ), o.y + int32_t( e.height ), o.z + int32_t( e.depth ) }; }
	VkImageSubresourceLayers layersOf( VkImageSubresourceRange const & r ) { return { r.aspectMask, r.baseMipLevel, r.baseArrayLayer, r.layerCount }; }

	// The transfers of a part of a stream, clears of attachments left out unless asked for.
	std::vector< Transfer > recorded( std::vector< sim::Cmd > const & cmds, size_t b, size_t e, bool clears )
	{
		std::vector< Transfer > r;
		for ( size_t i = b; i < e; ++i )
		{
			auto & c = cmds[i];
			Transfer t;
			t.k = c.k;
			switch ( c.k )
			{
			case sim::CK::CopyImg:
				for ( auto & x : c.ic )
				{
					t.src = c.h[0]; t.dst = c.h[1]; t.sl = VkImageLayout( c.a[0] ); t.dl = VkImageLayout( c.a[1] );
					t.s = x.srcSubresource; t.d = x.dstSubresource; t.s0 = x.srcOffset; t.s1 = end( x.srcOffset, x.extent ); t.d0 = x.dstOffset; t.d1 = end( x.dstOffset, x.extent );
					r.push_back( t );
				}
				break;
			case sim::CK::Blit:
				for ( auto & x : c.ibl )
				{
					t.src = c.h[0]; t.dst = c.h[1]; t.sl = VkImageLayout( c.a[0] ); t.dl = VkImageLayout( c.a[1] ); t.filter = VkFilter( c.a[2] );
					t.s = x.srcSubresource; t.d = x.dstSubresource; t.s0 = x.srcOffsets[0]; t.s1 = x.srcOffsets[1]; t.d0 = x.dstOffsets[0]; t.d1 = x.dstOffsets[1];
					r.push_back( t );
				}
				break;
			case sim::CK::CopyBuffer:
				for ( auto & x : c.bc ) { t.src = c.h[0]; t.dst = c.h[1]; t.so = x.srcOffset; t.doff = x.dstOffset; t.size = x.size; r.push_back( t ); }
				break;
			case sim::CK::CopyBufImg:
				for ( auto & x : c.bic ) { t.src = c.h[0]; t.dst = c.h[1]; t.dl = VkImageLayout( c.a[0] ); t.so = x.bufferOffset; t.size = x.bufferRowLength + x.bufferImageHeight; t.d = x.imageSubresource; t.d0 = x.imageOffset; t.d1 = end( x.imageOffset, x.imageExtent ); r.push_back( t ); }
				break;
			case sim::CK::CopyImgBuf:
				for ( auto & x : c.bic ) { t.src = c.h[0]; t.dst = c.h[1]; t.sl = VkImageLayout( c.a[0] ); t.doff = x.bufferOffset; t.size = x.bufferRowLength + x.bufferImageHeight; t.s = x.imageSubresource; t.s0 = x.imageOffset; t.s1 = end( x.imageOffset, x.imageExtent ); r.push_back( t ); }
				break;
			case sim::CK::ClearColor: case sim::CK::ClearDS:
				if ( clears )
					for ( auto & x : c.ranges ) { t.dst = c.h[0]; t.dl = VkImageLayout( c.a[0] ); t.range = x; t.clear = c.clears[0]; r.push_back( t ); }
				break;
			default:
				break;
			}
		}
		return r;
	}

	void compare( pbt::Case & c, World & w, std::vector< Transfer > const & got, std::vector< Transfer > const & exp, std::string const & who )
	{
		for ( size_t i = 0u; i < std::max( got.size(), exp.size() ); ++i )
		{
			if ( i >= got.size() ) c.fail( "missing: " + who + " does not record " + text( w, exp[i] ) );
			if ( i >= exp.size() ) c.fail( "extra: " + who + " records " + text( w, got[i] ) );
			auto g = text( w, got[i] ), e = text( w, exp[i] );
			if ( g != e ) c.fail( "transfer: " + who + " records\n    " + g + "\n  instead of\n    " + e );
			c.check( got[i].size == exp[i].size, "transfer: " + who + " has another row length, height or size than asked for in " + g );
		}
	}

	// The layout each subresource of an image ends in, following what is recorded.
	using Key = std::tuple< uint64_t, uint32_t, uint32_t >;
	std::map< Key, VkImageLayout > layouts( std::vector< sim::Cmd > const & cmds, size_t b, size_t e )
	{
		std::map< Key, VkImageLayout > r;
		for ( size_t i = b; i < e; ++i )
			for ( auto & x : cmds[i].ib )
				for ( uint32_t l = 0u; l < x.subresourceRange.layerCount; ++l )
					for ( uint32_t m = 0u; m < x.subresourceRange.levelCount; ++m )
						r[{ sim::u( x.image ), x.subresourceRange.baseArrayLayer + l, x.subresourceRange.baseMipLevel + m }] = x.newLayout;
		return r;
	}
	void wantLayout( pbt::Case & c, std::map< Key, VkImageLayout > & ls, uint64_t img, VkImageSubresourceRange const & range, VkImageLayout want, std::string const & who )
	{
		for ( uint32_t l = 0u; l < range.layerCount; ++l )
			for ( uint32_t m = 0u; m < range.levelCount; ++m )
			{
				auto it = ls.find( { img, range.baseArrayLayer + l, range.baseMipLevel + m } );
				c.check( it != ls.end() && it->second == want, pbt::fmt( "final layout: %s leaves layer %u mip %u of its target in %s instead of %s", who.c_str(), range.baseArrayLayer + l, range.baseMipLevel + m
					, it == ls.end() ? "what it was" : layoutName( it->second ).c_str(), layoutName( want ).c_str() ) );
			}
	}

	// Halves down to one.
	VkExtent3D level( VkExtent3D e, uint32_t m ) { for ( ; m > 0u; --m ) e = { std::max( 1u, e.width / 2u ), std::max( 1u, e.height / 2u ), std::max( 1u, e.depth / 2u ) }; return e; }
	std::vector< Transfer > mips( uint64_t img, VkExtent3D ext, uint32_t levels, VkImageSubresourceRange const & r )
	{
		std::vector< Transfer > res;
		for ( uint32_t l = 0u; l < r.layerCount; ++l )
			for ( uint32_t m = 1u; m < levels; ++m )
			{
				Transfer t;
				t.k = sim::CK::Blit;
				t.src = t.dst = img;
				t.sl = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; t.dl = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
				t.filter = VK_FILTER_LINEAR;
				t.s = { r.aspectMask, m - 1u, r.baseArrayLayer + l, 1u };
				t.d = { r.aspectMask, m, r.baseArrayLayer + l, 1u };
				t.s1 = end( {}, level( ext, m - 1u ) );
				t.d1 = end( {}, level( ext, m ) );
				res.push_back( t );
			}
		return res;
	}

	std::vector< Transfer > described( World & w, Pass & p )
	{
		std::vector< Transfer > r;
		auto view = [&]( size_t i ) -> View const & { return w.views[size_t( p.images[i].view( p.index ) )]; };
		auto img = [&]( size_t i ){ return sim::u( w.vkImage( view( i ).img ) ); };
		auto buf = [&]( size_t i ){ return sim::u( w.bufs[size_t( p.buffers[i].buf( p.index ) )].vk ); };
		Transfer t;
		t.sl = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; t.dl = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		switch ( p.kind )
		{
		case PK::ImageCopy:
			t.k = sim::CK::CopyImg;
			for ( size_t i = 0u; i + 1u < p.images.size(); i += 2u )
			{
				t.src = img( i ); t.dst = img( i + 1u );
				t.s = layersOf( view( i ).range ); t.d = layersOf( view( i + 1u ).range );
				t.s1 = t.d1 = end( {}, p.copySize );
				r.push_back( t );
			}
			break;
		case PK::ImageBlit:
			t.k = sim::CK::Blit;
			t.src = img( 0u ); t.dst = img( 1u );
			t.s = layersOf( view( 0u ).range ); t.d = layersOf( view( 1u ).range );
			t.s0 = p.offA; t.s1 = end( p.offA, p.extA ); t.d0 = p.offB; t.d1 = end( p.offB, p.extB );
			t.filter = p.filter;
			r.push_back( t );
			break;
		case PK::BufferCopy:
			t.k = sim::CK::CopyBuffer;
			t.src = buf( 0u ); t.dst = buf( 1u );
			t.so = p.buffers[0].offset + p.copyOffset; t.doff = p.buffers[1].offset + p.copyOffset; t.size = p.copyRange;
			r.push_back( t );
			break;
		case PK::BufToImg:
			t.k = sim::CK::CopyBufImg;
			t.src = buf( 0u ); t.dst = img( 0u );
			t.so = p.buffers[0].offset;
			t.d = layersOf( view( 0u ).range ); t.d0 = p.offA; t.d1 = end( p.offA, p.extA );
			r.push_back( t );
			break;
		case PK::ImgToBuf:
			t.k = sim::CK::CopyImgBuf;
			t.src = img( 0u ); t.dst = buf( 0u );
			t.doff = p.buffers[0].offset;
			t.s = layersOf( view( 0u ).range ); t.s0 = p.offA; t.s1 = end( p.offA, p.extA );
			r.push_back( t );
			break;
		case PK::GenMips:
			return mips( img( 0u ), w.imgs[size_t( view( 0u ).img )].ext, w.imgs[size_t( view( 0u ).img )].mips, view( 0u ).range );
		default:
			break;
		}
		return r;
	}

	void device( pbt::Case & c, World & w )
	{
		std::vector< std::string > ops{ "CopyImg", "Blit", "CopyBuffer", "CopyBufImg", "CopyImgBuf", "ClearColor", "ClearDS", "buffer copy" };
		chk::requireMsg( c, w, "layout", ops );
		chk::requireMsg( c, w, "bounds", ops );
		chk::requireMsg( c, w, "cmdstate", ops );
	}

	void passes( pbt::Case & c, Opts o )
	{
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		size_t n = 0u, seen = 0u;
		chk::frames( c, w, g, [&]( uint32_t )
			{
				auto & cmds = w.commands( g );
				auto spans = chk::spans( w, g );
				size_t enabled = 0u;
				for ( auto & p : g.passes ) enabled += p->enabled;
				c.check( spans.size() == enabled, pbt::fmt( "passes: %zu record for %zu enabled", spans.size(), enabled ) );
				for ( auto & span : spans )
				{
					auto p = span.p;
					auto i = span.begin, j = span.end;
					auto exp = described( w, *p );
					auto who = pbt::fmt( "p%u (%s) [index %u]", p->id, name( p->kind ), p->index );
					compare( c, w, recorded( cmds, i, j, false ), exp, who );
					if ( p->kind == PK::ImageCopy && p->finalLayout != VK_IMAGE_LAYOUT_UNDEFINED )
					{
						auto ls = layouts( cmds, i, j );
						for ( size_t x = 1u; x < p->images.size(); x += 2u )
						{
							auto & v = w.views[size_t( p->images[x].view( p->index ) )];
							wantLayout( c, ls, sim::u( w.vkImage( v.img ) ), v.range, p->finalLayout, who );
						}
						c.note( "final layout" );
					}
					if ( !exp.empty() ) { ++seen; c.note( std::string( "recorded " ) + name( p->kind ) ); }
					n += exp.size();
				}
				device( c, w );
			} );
		if ( seen >= 2u ) c.nt( c.sample );
	}
}
PBT_CHECK( "C13", "passes", 40000, 250000, "at least 2 transfer passes recorded" )
{
	auto o = chk::family( c, chk::Fam::Any );
	o.kinds = { PK::ImageCopy, PK::ImageBlit, PK::BufferCopy, PK::BufToImg, PK::ImgToBuf, PK::GenMips, PK::Generic, PK::ImageCopy, PK::BufToImg, PK::ImgToBuf };
	passes( c, o );
}

// All sizes and kinds of images, any part of the layers, one image per pass index.
PBT_CHECK( "C13", "mips", 50000, 250000, "at least 2 levels generated" )
{
	auto & t = c.t;
	Opts o;
	o.separate = 0;
	World w{ c, o };
	crg::FrameGraph fg{ *w.handler, "G" };
	uint32_t n = t.range( 1u, 3u );
	auto type = t.pick( { VK_IMAGE_TYPE_2D, VK_IMAGE_TYPE_2D, VK_IMAGE_TYPE_3D, VK_IMAGE_TYPE_1D } );
	auto fmt = t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_R16G16B16A16_SFLOAT } );
	struct One { crg::ImageId id; VkExtent3D ext; uint32_t mips; VkImageSubresourceRange range; };
	std::vector< One > imgs;
	crg::ImageViewIdArray views, given;
	std::string log;
	bool partial = t.chance( 30 );
	for ( uint32_t i = 0u; i < n; ++i )
	{
		One x;
		auto dim = [&](){ return t.chance( 50 ) ? 1u << t.below( 8u ) : t.range( 1u, 200u ); };
		x.ext = { dim(), type == VK_IMAGE_TYPE_1D ? 1u : dim(), type == VK_IMAGE_TYPE_3D ? t.range( 1u, 40u ) : 1u };
		uint32_t full = 1u;
		while ( ( std::max( { x.ext.width, x.ext.height, x.ext.depth } ) >> full ) > 0u ) ++full;
		x.mips = t.chance( 50 ) ? full : t.range( 1u, full );
		uint32_t layers = type == VK_IMAGE_TYPE_3D ? 1u : t.count( 1u, 6u, 50 );
		uint32_t base = t.below( layers );
		uint32_t cnt = 1u + t.below( layers - base );
		x.range = { VK_IMAGE_ASPECT_COLOR_BIT, 0u, x.mips, base, cnt };
		x.id = w.handler->createImageId( crg::ImageData{ pbt::fmt( "i%u", i ), 0u, type, fmt, x.ext, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT, x.mips, layers } );
		auto vt = type == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : type == VK_IMAGE_TYPE_1D ? ( cnt > 1u ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D ) : ( cnt > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D );
		views.push_back( chk::view( w, pbt::fmt( "v%u", i ), x.id, x.range, vt ) );
		// The pass may be given the first level only, or some.
		auto part = x.range;
		if ( partial ) part.levelCount = t.flag() ? 1u : t.range( 1u, x.mips );
		given.push_back( chk::view( w, pbt::fmt( "g%u", i ), x.id, part, vt ) );
		imgs.push_back( x );
		log += pbt::fmt( "index %u: %ux%ux%u, %u mips (%u given), layers %u+%u of %u\n", i, x.ext.width, x.ext.height, x.ext.depth, x.mips, part.levelCount, base, cnt, layers );
	}
	uint32_t index = 0u;
	auto out = t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } );
	auto getIndex = crg::RunnablePass::GetPassIndexCallback( [&index](){ return index; } );
	crg::ru::Config cfg;
	cfg.maxPassCount = n;
	// the first level comes from a pass before
	auto & before = fg.createPass( "write", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
		{
			return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } ), []( crg::RecordContext &, VkCommandBuffer, uint32_t ){}, getIndex }, cfg );
		} );
	before.addTransferOutputView( given );
	auto & gen = fg.createPass( "mips", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
		{
			return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg, out, cfg, getIndex );
		} );
	gen.addDependency( before );
	gen.addTransferInOutView( given, t.flag() ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag::None );
	bool sampled = t.flag();
	if ( sampled )
	{
		auto & after = fg.createPass( "read", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } ), []( crg::RecordContext &, VkCommandBuffer, uint32_t ){}, getIndex }, cfg );
			} );
		after.addDependency( gen );
		after.addSampledView( views, 0u );
	}
	c.sample = log;
	auto rg = fg.compile( *w.ctx );
	uint32_t frames = t.range( 1u, 4u );
	size_t levels = 0u;
	for ( uint32_t f = 0u; f < frames; ++f )
	{
		index = t.below( n );
		rg->run( sim::queueHandle() );
		auto & cmds = w.dev->find( w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds;
		if ( c.verbose ) { fprintf( stderr, "%s--- frame %u index %u\n", f ? "" : log.c_str(), f, index ); for ( auto & cmd : cmds ) fprintf( stderr, "%s\n", sim::dump( cmd ).c_str() ); }
		auto & x = imgs[index];
		auto exp = mips( sim::u( rg->createImage( x.id ) ), x.ext, x.mips, x.range );
		compare( c, w, recorded( cmds, 0u, cmds.size(), false ), exp, pbt::fmt( "frame %u index %u", f, index ) );
		levels += exp.size();
		device( c, w );
		w.require( { "oldlayout", "content" } );
		if ( sampled )
		{
			auto ls = layouts( cmds, 0u, cmds.size() );
			wantLayout( c, ls, sim::u( rg->createImage( x.id ) ), x.range, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, "mip generation" );
		}
	}
	if ( levels >= 2u ) c.nt( log );
}

// The ready-made actions, before or after a pass, or in the place of a disabled one.
PBT_CHECK( "C13", "actions", 90000, 250000, "at least one action of a mip above 0 or a layer above 0, or with an offset" )
{
	auto & t = c.t;
	Opts o;
	o.separate = 0;
	World w{ c, o };
	crg::FrameGraph fg{ *w.handler, "G" };
	auto kind = t.below( 4u ); // copy, blit, clear of a view, clear of an attachment
	bool depth = kind != 1u && t.chance( 30 );
	auto fmt = depth ? t.pick( { VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT } ) : t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT } );
	auto aspect = VkImageAspectFlags( !depth ? VK_IMAGE_ASPECT_COLOR_BIT : fmt == VK_FORMAT_D32_SFLOAT ? VK_IMAGE_ASPECT_DEPTH_BIT : ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) );
	struct One { crg::ImageId id; crg::ImageViewId view; VkExtent3D ext; VkImageSubresourceRange range; };
	auto make = [&]( char const * name )
	{
		One x;
		uint32_t mips = t.count( 1u, 4u, 50 ), layers = t.count( 1u, 4u, 40 );
		uint32_t m = t.below( mips ), l = t.below( layers );
		bool all = t.chance( 25 );
		x.range = { aspect, m, all ? 1u + t.below( mips - m ) : 1u, l, all ? 1u + t.below( layers - l ) : 1u };
		x.ext = { t.range( 1u, 20u ) << ( mips - 1u ), t.range( 1u, 20u ) << ( mips - 1u ), 1u };
		x.id = chk::image( w, name, fmt, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT, mips, layers, x.ext );
		x.view = chk::view( w, std::string( name ) + "v", x.id, x.range, x.range.layerCount > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D );
		x.ext = level( x.ext, m );
		return x;
	};
	auto src = make( "src" ), dst = make( "dst" );
	auto final = t.pick( { VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } );
	Transfer e;
	e.sl = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; e.dl = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
	e.s = { aspect, src.range.baseMipLevel, src.range.baseArrayLayer, 1u };
	e.d = { aspect, dst.range.baseMipLevel, dst.range.baseArrayLayer, 1u };
	e.s1 = e.d1 = { 1, 1, 1 };
	auto box = [&]( VkExtent3D x, VkOffset3D & a, VkOffset3D & b ){ a = { int32_t( t.below( x.width ) ), int32_t( t.below( x.height ) ), 0 }; b = { a.x + 1 + int32_t( t.below( x.width - uint32_t( a.x ) ) ), a.y + 1 + int32_t( t.below( x.height - uint32_t( a.y ) ) ), 1 }; };
	crg::RecordContext::ImplicitAction action;
	VkClearValue cv{};
	for ( auto & f : cv.color.uint32 ) f = t.below( 1000u );
	if ( depth ) cv.depthStencil = { 0.125f * float( t.below( 9u ) ), t.below( 256u ) };
	std::unique_ptr< crg::Attachment > att;
	switch ( kind )
	{
	case 0u:
		{
			e.k = sim::CK::CopyImg;
			VkExtent2D x{ 1u + t.below( std::min( src.ext.width, dst.ext.width ) ), 1u + t.below( std::min( src.ext.height, dst.ext.height ) ) };
			e.s1 = e.d1 = { int32_t( x.width ), int32_t( x.height ), 1 };
			action = crg::RecordContext::copyImage( src.view, dst.view, x, final );
			break;
		}
	case 1u:
		e.k = sim::CK::Blit;
		box( src.ext, e.s0, e.s1 );
		box( dst.ext, e.d0, e.d1 );
		e.filter = t.flag() ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
		action = crg::RecordContext::blitImage( src.view, dst.view, { e.s0.x, e.s0.y }, { uint32_t( e.s1.x - e.s0.x ), uint32_t( e.s1.y - e.s0.y ) }, { e.d0.x, e.d0.y }, { uint32_t( e.d1.x - e.d0.x ), uint32_t( e.d1.y - e.d0.y ) }, e.filter, final );
		break;
	default:
		e.k = depth ? sim::CK::ClearDS : sim::CK::ClearColor;
		e.range = dst.range;
		e.clear = cv;
		action = crg::RecordContext::clearAttachment( dst.view, cv, final );
		break;
	}
	bool clear = kind >= 2u;
	auto where = t.below( 3u ); // before the pass, after it, in its place
	bool enabled = true;
	std::string log = pbt::fmt( "%s %s the pass, final layout %s\n", kind == 0u ? "copy" : kind == 1u ? "blit" : "clear", where == 0u ? "before" : where == 1u ? "after" : "in the place of", layoutName( final ).c_str() );
	for ( auto x : { &src, &dst } ) log += pbt::fmt( "%s: mips %u+%u layers %u+%u, %ux%u\n", x == &src ? "source" : "target", x->range.baseMipLevel, x->range.levelCount, x->range.baseArrayLayer, x->range.layerCount, x->ext.width, x->ext.height );
	c.sample = log;
	// the source is filled first
	auto & first = chk::pass( fg, "first", VK_PIPELINE_STAGE_TRANSFER_BIT );
	if ( !clear ) first.addTransferOutputView( src.view );
	// the target may have been in use as well
	bool used = t.flag();
	if ( used ) first.addTransferOutputView( dst.view );
	crg::FramePass * owner{};
	auto & mid = fg.createPass( "mid", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
		{
			owner = const_cast< crg::FramePass * >( &fp );
			auto act = action;
			if ( kind == 3u ) act = crg::RecordContext::clearAttachment( *std::find_if( fp.images.begin(), fp.images.end(), [&]( crg::Attachment const & a ){ return a.view( 0u ) == dst.view; } ), final );
			crg::ru::Config cfg;
			if ( where == 0u ) cfg.prePassAction( act );
			else if ( where == 1u ) cfg.postPassAction( act );
			else cfg.implicitAction( dst.view, act );
			return std::make_unique< crg::RunnablePass >( fp, ctx, rg
				, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ); } )
					, []( crg::RecordContext &, VkCommandBuffer cb, uint32_t ){ sim::cmdMark( cb, "mid" ); }, crg::RunnablePass::GetPassIndexCallback( [](){ return 0u; } ), crg::RunnablePass::IsEnabledCallback( [&enabled](){ return enabled; } ) }
				, cfg );
		} );
	mid.addDependency( first );
	// an attachment to clear has the clear value declared along with it
	if ( kind == 3u && depth ) { if ( fmt == VK_FORMAT_D32_SFLOAT ) mid.addOutputDepthView( dst.view, cv ); else mid.addOutputDepthStencilView( dst.view, cv ); }
	else if ( kind == 3u ) mid.addOutputColourView( dst.view, cv );
	else mid.addTransferOutputView( dst.view );
	if ( !clear ) mid.addTransferInputView( src.view );
	auto & last = chk::pass( fg, "last", VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, []( crg::RecordContext &, VkCommandBuffer cb, uint32_t ){ sim::cmdMark( cb, "last" ); } );
	last.addDependency( mid );
	last.addSampledView( dst.view, 0u );
	auto rg = fg.compile( *w.ctx );
	uint32_t frames = t.range( 1u, 4u );
	size_t done = 0u;
	for ( uint32_t f = 0u; f < frames; ++f )
	{
		enabled = where == 2u ? t.chance( 30 ) : true;
		rg->run( sim::queueHandle() );
		auto & cmds = w.dev->find( w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds;
		if ( c.verbose ) { fprintf( stderr, "%s--- frame %u\n", f ? "" : log.c_str(), f ); for ( auto & cmd : cmds ) fprintf( stderr, "%s\n", sim::dump( cmd ).c_str() ); }
		e.src = clear ? 0u : sim::u( rg->createImage( src.id ) );
		e.dst = sim::u( rg->createImage( dst.id ) );
		std::vector< Transfer > exp;
		bool runs = where != 2u || !enabled;
		if ( runs ) { exp.push_back( e ); ++done; }
		compare( c, w, recorded( cmds, 0u, cmds.size(), true ), exp, pbt::fmt( "frame %u", f ) );
		if ( runs )
		{
			// where it sits, and in which layout it leaves its target
			size_t at = 0u, pass = cmds.size(), lastPass = cmds.size(), nextTouch = cmds.size();
			for ( size_t i = 0u; i < cmds.size(); ++i )
			{
				if ( cmds[i].k == e.k ) at = i;
				if ( cmds[i].k == sim::CK::Mark && cmds[i].s == "mid" ) pass = i;
				if ( cmds[i].k == sim::CK::Mark && cmds[i].s == "last" ) lastPass = i;
			}
			if ( where == 0u ) c.check( at < pass, "order: an action to run before the pass runs after" );
			if ( where == 1u ) c.check( at > pass, "order: an action to run after the pass runs before" );
			c.check( at < lastPass, "order: the action runs after the pass which uses its target" );
			(void)nextTouch;
			if ( final != VK_IMAGE_LAYOUT_UNDEFINED )
			{
				// right after the transfer, and only then, the target is in the asked layout
				auto stop = at + 1u;
				while ( stop < cmds.size() && cmds[stop].k == sim::CK::Barrier ) { auto ls = layouts( cmds, at + 1u, stop + 1u ); bool all = true;
					for ( uint32_t l = 0u; l < dst.range.layerCount; ++l ) for ( uint32_t m = 0u; m < dst.range.levelCount; ++m ) { auto it = ls.find( { e.dst, dst.range.baseArrayLayer + l, dst.range.baseMipLevel + m } ); all = all && it != ls.end() && it->second == final; }
					if ( all ) break;
					++stop; }
				auto ls = layouts( cmds, at + 1u, std::min( stop + 1u, cmds.size() ) );
				wantLayout( c, ls, e.dst, dst.range, final, "the action" );
			}
		}
		device( c, w );
		w.require( { "oldlayout" } );
	}
	if ( done && ( e.s.mipLevel || e.d.mipLevel || e.s.baseArrayLayer || e.d.baseArrayLayer || e.s0.x || e.s0.y || e.d0.x || e.d0.y || dst.range.layerCount > 1u || dst.range.levelCount > 1u ) ) c.nt( log );
}

// The ready-made clear of an attachment which has a view per pass index.
PBT_CHECK( "C13", "clears", 30000, 200000, "another index than the first is cleared" )
{
	auto & t = c.t;
	Opts o;
	o.separate = 0;
	World w{ c, o };
	crg::FrameGraph fg{ *w.handler, "G" };
	bool depth = t.chance( 40 );
	auto fmt = depth ? VK_FORMAT_D32_SFLOAT : VK_FORMAT_R8G8B8A8_UNORM;
	auto aspect = VkImageAspectFlags( depth ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_COLOR_BIT );
	uint32_t n = t.range( 1u, 4u );
	bool shared = t.flag(); // the layers of one image, or an image each
	crg::ImageViewIdArray views;
	crg::ImageId id{};
	for ( uint32_t i = 0u; i < n; ++i )
	{
		if ( !i || !shared ) id = chk::image( w, "img" + std::to_string( i ), fmt, VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT, 1u, shared ? n : 1u );
		views.push_back( chk::view( w, "v" + std::to_string( i ), id, { aspect, 0u, 1u, shared ? i : 0u, 1u } ) );
	}
	VkClearValue cv{};
	for ( auto & f : cv.color.uint32 ) f = t.below( 1000u );
	if ( depth ) cv.depthStencil = { 0.125f * float( t.below( 9u ) ), t.below( 256u ) };
	auto final = t.pick( { VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL } );
	bool after = t.flag();
	uint32_t index = 0u;
	auto & pass = fg.createPass( "P", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
		{
			crg::ru::Config cfg;
			cfg.maxPassCount = n;
			auto act = crg::RecordContext::clearAttachment( fp.images.front(), final );
			if ( after ) cfg.postPassAction( act ); else cfg.prePassAction( act );
			return std::make_unique< crg::RunnablePass >( fp, ctx, rg
				, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } )
					, []( crg::RecordContext &, VkCommandBuffer cb, uint32_t ){ sim::cmdMark( cb, "P" ); }, crg::RunnablePass::GetPassIndexCallback( [&index](){ return index; } ) }
				, cfg );
		} );
	if ( depth ) pass.addOutputDepthView( views, cv ); else pass.addOutputColourView( views, cv );
	auto rg = fg.compile( *w.ctx );
	std::string log = pbt::fmt( "%s, %u views of %s, %s the pass, final layout %s; ", depth ? "depth" : "colour", n, shared ? "one image" : "an image each", after ? "after" : "before", layoutName( final ).c_str() );
	bool other = false;
	for ( uint32_t f = 0u, frames = t.range( 1u, 4u ); f < frames; ++f )
	{
		index = t.below( n );
		other = other || index;
		log += pbt::fmt( "index %u; ", index );
		rg->run( sim::queueHandle() );
		auto & cmds = w.dev->find( w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds;
		size_t clears = 0u, mark = cmds.size();
		for ( size_t i = 0u; i < cmds.size(); ++i )
		{
			auto & cmd = cmds[i];
			if ( cmd.k == sim::CK::Mark ) mark = i;
			if ( cmd.k != sim::CK::ClearColor && cmd.k != sim::CK::ClearDS ) continue;
			++clears;
			auto & info = views[index].data->info.subresourceRange;
			auto & r = cmd.ranges.at( 0 );
			c.check( cmd.ranges.size() == 1u && cmd.h[0] == sim::u( rg->createImage( views[index].data->image ) ) && r.baseArrayLayer == info.baseArrayLayer && r.layerCount == 1u && r.baseMipLevel == 0u && r.levelCount == 1u && r.aspectMask == aspect, "clears: another view than the index's is cleared: " + log );
			c.check( ( cmd.k == sim::CK::ClearDS ) == depth, "clears: the wrong kind of clear: " + log );
			c.check( depth ? cmd.clears.at( 0 ).depthStencil.depth == cv.depthStencil.depth : !memcmp( &cmd.clears.at( 0 ), &cv, sizeof( cv.color ) ), "clears: another value: " + log );
			c.check( ( mark < i ) == after, "clears: at the wrong time: " + log );
		}
		c.check( clears == 1u, pbt::fmt( "clears: %zu clears instead of one: ", clears ) + log );
		if ( final != VK_IMAGE_LAYOUT_UNDEFINED )
		{
			auto & obj = *w.dev->find( sim::u( rg->createImage( views[index].data->image ) ), sim::Ty::Image );
			w.dev->forSubs( obj, views[index].data->info.subresourceRange, [&]( sim::Sub & s, uint32_t, uint32_t, uint32_t ){ c.check( s.layout == final, "clears: not left in the final layout: " + log ); }, "clears" );
		}
		w.require( { "layout", "bounds" } );
	}
	c.sample = log;
	if ( other ) c.nt( log );
}
