#include "gg.hpp"
#include <cassert>

namespace gg
{
	namespace
	{
		using T = pbt::Tape;

		VkImageViewType viewTypeOf( Img const & img, uint32_t layers )
		{
			if ( img.type == VK_IMAGE_TYPE_1D ) return layers > 1u ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D;
			if ( img.type == VK_IMAGE_TYPE_3D ) return VK_IMAGE_VIEW_TYPE_3D;
			return layers > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
		}

		bool hasDepth( VkFormat f ) { return f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_D32_SFLOAT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D16_UNORM_S8_UINT; }
		bool hasStencil( VkFormat f ) { return f == VK_FORMAT_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT || f == VK_FORMAT_D16_UNORM_S8_UINT; }
		VkExtent3D mipExt( VkExtent3D e, uint32_t m ) { return { std::max( 1u, e.width >> m ), std::max( 1u, e.height >> m ), std::max( 1u, e.depth >> m ) }; }
		template< typename C > void shuffle( T & t, C & c ) { for ( size_t i = c.size(); i > 1u; --i ) std::swap( c[i - 1u], c[i - 1u - t.below( uint32_t( i ) )] ); }
	}

	void silence()
	{
		static bool done = false;
		if ( done ) return;
		done = true;
		auto none = []( std::string const &, bool ){};
		crg::Logger::setTraceCallback( none );
		crg::Logger::setDebugCallback( none );
		crg::Logger::setInfoCallback( none );
		crg::Logger::setWarningCallback( none );
		crg::Logger::setErrorCallback( none );
	}

	char const * name( AK k )
	{
		static char const * const n[]{ "Sampled", "StorageIn", "StorageOut", "StorageClear", "StorageInOut", "TransferIn", "TransferOut", "TransferInOut", "Implicit", "ColourIn", "ColourOut", "ColourInOut", "DepthIn", "DepthOut", "DepthInOut", "DSIn", "DSOut", "DSInOut", "StencilIn", "StencilOut", "StencilInOut", "?" };
		return n[int( k )];
	}
	char const * name( BK k )
	{
		static char const * const n[]{ "Uniform", "StorageIn", "StorageOut", "StorageClear", "StorageInOut", "TransferIn", "TransferOut", "TransferInOut", "Implicit", "?" };
		return n[int( k )];
	}
	char const * name( PK k )
	{
		static char const * const n[]{ "Generic", "Compute", "RenderPass", "Quad", "Mesh", "ImageCopy", "ImageBlit", "BufferCopy", "BufToImg", "ImgToBuf", "GenMips", "?" };
		return n[int( k )];
	}
	bool isRender( AK k ) { return k >= AK::ColourIn; }
	bool isColour( AK k ) { return k >= AK::ColourIn && k <= AK::ColourInOut; }
	bool reads( AK k )
	{
		switch ( k )
		{
		case AK::StorageOut: case AK::StorageClear: case AK::TransferOut: case AK::ColourOut: case AK::DepthOut: case AK::DSOut: case AK::StencilOut: return false;
		default: return true;
		}
	}
	bool writes( AK k )
	{
		switch ( k )
		{
		case AK::StorageOut: case AK::StorageClear: case AK::StorageInOut: case AK::TransferOut: case AK::TransferInOut:
		case AK::ColourOut: case AK::ColourInOut: case AK::DepthOut: case AK::DepthInOut: case AK::DSOut: case AK::DSInOut:
		case AK::StencilOut: case AK::StencilInOut: return true;
		default: return false;
		}
	}
	bool reads( BK k ) { return !( k == BK::StorageOut || k == BK::StorageClear || k == BK::TransferOut ); }
	bool writes( BK k ) { return k == BK::StorageOut || k == BK::StorageClear || k == BK::StorageInOut || k == BK::TransferOut || k == BK::TransferInOut; }

	VkImageLayout layoutOf( AK k, VkImageLayout wanted, bool separate )
	{
		switch ( k )
		{
		case AK::Sampled: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case AK::StorageIn: case AK::StorageOut: case AK::StorageClear: case AK::StorageInOut: return VK_IMAGE_LAYOUT_GENERAL;
		case AK::TransferIn: return VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
		case AK::TransferOut: case AK::TransferInOut: return VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		case AK::Implicit: return wanted;
		case AK::ColourIn: case AK::ColourOut: case AK::ColourInOut: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case AK::DepthIn: return separate ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case AK::DepthOut: case AK::DepthInOut: return separate ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case AK::DSIn: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case AK::DSOut: case AK::DSInOut: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case AK::StencilIn: return separate ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case AK::StencilOut: case AK::StencilInOut: return separate ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		default: return VK_IMAGE_LAYOUT_UNDEFINED;
		}
	}

	Acc accessOf( BK k, Acc wanted, bool compute )
	{
		auto stage = VkPipelineStageFlags( compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT );
		switch ( k )
		{
		case BK::Uniform: return { VK_ACCESS_SHADER_READ_BIT, stage };
		case BK::StorageIn: return { VK_ACCESS_SHADER_READ_BIT, stage };
		case BK::StorageOut: case BK::StorageClear: return { VK_ACCESS_SHADER_WRITE_BIT, stage };
		case BK::StorageInOut: return { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, stage };
		case BK::TransferIn: return { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		case BK::TransferOut: return { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		case BK::TransferInOut: return { VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
		case BK::Implicit: return wanted;
		default: return {};
		}
	}

	string layoutName( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_UNDEFINED: return "UNDEFINED";
		case VK_IMAGE_LAYOUT_GENERAL: return "GENERAL";
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return "COLOR_ATT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: return "DS_ATT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: return "DS_RO";
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return "SHADER_RO";
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return "TR_SRC";
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return "TR_DST";
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: return "D_ATT";
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL: return "D_RO";
		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL: return "S_ATT";
		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL: return "S_RO";
		default: return "layout" + std::to_string( int( l ) );
		}
	}

	VkImageSubresourceRange rangeOf( Img const & img, Block const & b )
	{
		return { img.aspect, b.mip, b.mips, b.layer, b.layers };
	}

	World::World( pbt::Case & c, Opts o_ )
		: c{ c }
		, o{ std::move( o_ ) }
	{
		silence();
		dev = std::make_unique< sim::Device >();
		separate = o.separate < 0 ? c.t.chance( 40 ) : o.separate != 0;
		dev->separateDS = separate;
		dev->debugExt = o.debugExt;
		if ( !o.memTypes.empty() ) dev->memTypes = o.memTypes;
		dev->memTypeBits = o.memTypeBits;
		handler = o.handler ? o.handler : std::make_shared< crg::ResourceHandler >();
		ctx = std::make_unique< crg::GraphContext >( sim::deviceHandle()
			, VkPipelineCache{}
			, nullptr
			, sim::memProps()
			, sim::devProps( o.period )
			, separate
			, &sim::getDeviceProcAddr );
	}

	World::~World()
	{
		graphs.clear();
		o.handler.reset();
		handler.reset();
		ctx.reset();
	}

	namespace { string named( Opts const & o, string n ) { return o.name ? o.name( n ) : n; } }

	int World::addView( int img, VkImageViewType type, VkImageSubresourceRange const & r )
	{
		View v;
		v.img = img;
		v.type = type;
		v.range = r;
		v.id = handler->createViewId( crg::ImageViewData{ named( o, "v" + std::to_string( views.size() ) ), imgs[size_t( img )].id, 0u, type, imgs[size_t( img )].fmt, r } );
		views.push_back( v );
		return int( views.size() ) - 1;
	}

	void World::genImages()
	{
		auto & t = c.t;
		uint32_t count = t.range( 1u, o.maxImages );
		for ( uint32_t i = 0u; i < count; ++i )
		{
			Img img;
			uint32_t kind = t.below( 10u ); // 0-5: 2D, 6: 1D, 7,8: 3D, 9: 2D
			img.type = kind == 6u ? VK_IMAGE_TYPE_1D : ( ( kind == 7u || kind == 8u ) && o.threeD ) ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D;
			if ( img.type == VK_IMAGE_TYPE_2D && t.chance( 40 ) )
			{
				img.fmt = t.pick( { VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D16_UNORM, VK_FORMAT_D32_SFLOAT_S8_UINT, VK_FORMAT_S8_UINT } );
				if ( img.fmt == VK_FORMAT_S8_UINT && !o.stencilOnly ) img.fmt = VK_FORMAT_D32_SFLOAT;
			}
			else
				img.fmt = t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_R16G16B16A16_SFLOAT } );
			img.hasDepth = hasDepth( img.fmt );
			img.hasStencil = hasStencil( img.fmt );
			img.aspect = VkImageAspectFlags( ( img.hasDepth ? VK_IMAGE_ASPECT_DEPTH_BIT : 0 ) | ( img.hasStencil ? VK_IMAGE_ASPECT_STENCIL_BIT : 0 ) );
			if ( !img.aspect ) img.aspect = VK_IMAGE_ASPECT_COLOR_BIT;
			if ( img.hasDepth && img.hasStencil && t.chance( 25 ) ) img.aspect = t.flag() ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT;
			img.mips = t.count( 1u, 4u, 50 );
			img.layers = img.type == VK_IMAGE_TYPE_3D ? 1u : t.count( 1u, 5u, 45 );
			uint32_t shift = img.mips - 1u;
			auto dim = [&]( uint32_t m ){ return ( 1u + t.below( m ) ) << shift; };
			img.ext.width = t.chance( 70 ) ? ( 4u << shift ) : dim( 5u );
			img.ext.height = img.type == VK_IMAGE_TYPE_1D ? 1u : t.chance( 70 ) ? img.ext.width : dim( 5u );
			img.ext.depth = img.type == VK_IMAGE_TYPE_3D ? t.range( 1u, 4u ) << shift : 1u;
			// partition in blocks
			bool mipSplit = img.mips > 1u && t.chance( 70 );
			bool layerSplit = img.layers > 1u && t.chance( 70 );
			for ( uint32_t layer = 0u; layer < img.layers; )
			{
				uint32_t n = layerSplit ? t.count( 1u, img.layers - layer, 30 ) : img.layers;
				if ( mipSplit )
					for ( uint32_t m = 0u; m < img.mips; ++m ) img.blocks.push_back( { layer, n, m, 1u } );
				else
					img.blocks.push_back( { layer, n, 0u, img.mips } );
				layer += n;
			}
			img.external = o.external && t.chance( 25 );
			img.extLayout = img.aspect == VK_IMAGE_ASPECT_COLOR_BIT
				? t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL } )
				: t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } );
			img.id = handler->createImageId( crg::ImageData{ named( o, "img" + std::to_string( imgs.size() ) ), 0u, img.type, img.fmt, img.ext
				, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT
				, img.mips, img.layers } );
			int idx = int( imgs.size() );
			imgs.push_back( img );
			auto & im = imgs.back();
			for ( auto & b : im.blocks )
				im.blockView.push_back( addView( idx, viewTypeOf( im, b.layers ), rangeOf( im, b ) ) );
			if ( o.wholeViews && im.blocks.size() > 1u )
			{
				auto add = [&]( Block b ){ im.whole.push_back( addView( idx, viewTypeOf( im, b.layers ), rangeOf( im, b ) ) ); };
				add( { 0u, im.layers, 0u, im.mips } );
				if ( mipSplit && layerSplit )
				{
					// one mip, all layers
					if ( t.flag() ) add( { 0u, im.layers, t.below( im.mips ), 1u } );
					// all mips of one chunk
					if ( t.flag() ) { auto const & b = im.blocks[t.below( uint32_t( im.blocks.size() ) )]; add( { b.layer, b.layers, 0u, im.mips } ); }
				}
				else if ( mipSplit && im.mips > 2u && im.type != VK_IMAGE_TYPE_3D && t.flag() )
				{
					uint32_t m = t.below( im.mips - 1u );
					add( { 0u, im.layers, m, 2u } );
				}
				// the same ranges, as merged views of their blocks
				if ( o.merged && t.chance( 60 ) )
				{
					auto plain = im.whole;
					for ( auto wv : plain )
					{
						if ( t.chance( 40 ) ) continue;
						View v = views[size_t( wv )];
						v.id = crg::ImageViewId{};
						for ( size_t b = 0u; b < im.blocks.size(); ++b )
						{
							auto & k = im.blocks[b];
							if ( k.layer >= v.range.baseArrayLayer && k.layer + k.layers <= v.range.baseArrayLayer + v.range.layerCount
								&& k.mip >= v.range.baseMipLevel && k.mip + k.mips <= v.range.baseMipLevel + v.range.levelCount )
								v.sources.push_back( im.blockView[b] );
						}
						if ( v.sources.size() < 2u ) continue;
						im.whole.push_back( int( views.size() ) );
						views.push_back( v );
					}
				}
			}
		}
	}

	void World::genBuffers()
	{
		auto & t = c.t;
		uint32_t count = o.maxBuffers ? t.range( 1u, o.maxBuffers ) : 0u;
		for ( uint32_t i = 0u; i < count; ++i )
		{
			Buf b;
			b.name = named( o, "buf" + std::to_string( bufs.size() ) );
			b.size = 256u * ( 1u + t.below( 4u ) );
			b.vk = dev->makeBuffer( b.size, b.name );
			b.view = sim::as< VkBufferView >( dev->makeExternal( sim::Ty::BufferView, b.name + "v" ) );
			bufs.push_back( b );
		}
	}

	vector< VkPipelineShaderStageCreateInfo > World::program( bool compute )
	{
		vector< VkPipelineShaderStageCreateInfo > r;
		auto stage = [&]( VkShaderStageFlagBits s )
		{
			VkPipelineShaderStageCreateInfo i{ VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO };
			i.stage = s;
			i.module = sim::as< VkShaderModule >( dev->makeExternal( sim::Ty::Shader, "shader" + std::to_string( nextProgram++ ) ) );
			i.pName = "main";
			r.push_back( i );
		};
		if ( compute ) stage( VK_SHADER_STAGE_COMPUTE_BIT );
		else
		{
			stage( VK_SHADER_STAGE_VERTEX_BIT );
			stage( VK_SHADER_STAGE_FRAGMENT_BIT );
		}
		return r;
	}

	Graph & World::genGraph( string gname )
	{
		auto & t = c.t;
		graphs.push_back( std::make_unique< Graph >() );
		auto & g = *graphs.back();
		g.w = this;
		g.id = uint32_t( graphs.size() ) - 1u;
		g.name = std::move( gname );
		g.groups.push_back( { -1, "", nullptr } );
		if ( o.groups )
		{
			uint32_t ng = t.chance( 50 ) ? t.below( 4u ) : 0u;
			for ( uint32_t i = 0u; i < ng; ++i )
				g.groups.push_back( { int( t.below( uint32_t( g.groups.size() ) ) ), "g" + std::to_string( i ), nullptr } );
		}
		uint32_t n = t.range( o.minPasses, o.maxPasses );
		for ( uint32_t i = 0u; i < n; ++i )
		{
			g.passes.push_back( std::make_unique< Pass >() );
			auto & p = *g.passes.back();
			p.w = this;
			p.g = &g;
			p.id = i;
			p.name = "p" + std::to_string( i );
			p.group = int( t.below( uint32_t( g.groups.size() ) ) );
			g.creation.push_back( int( i ) );
			genPass( g, p );
		}
		if ( t.chance( 25 ) ) shuffle( t, g.creation );
		// dependencies: on earlier passes only (acyclic)
		for ( uint32_t i = 1u; i < n; ++i )
		{
			auto & p = *g.passes[i];
			if ( o.fullDeps ) { p.deps.push_back( int( i ) - 1 ); continue; }
			for ( uint32_t j = 0u; j < i; ++j )
				if ( t.chance( j + 1u == i ? 60u : 25u ) ) p.deps.push_back( int( j ) );
		}
		// external images: declared as inputs of the graph
		for ( size_t i = 0u; i < imgs.size(); ++i )
			if ( imgs[i].external && mayUse( i ) )
				for ( auto v : imgs[i].blockView ) g.inputs.emplace_back( v, imgs[i].extLayout );
		if ( o.outputs )
		{
			for ( size_t i = 0u; i < imgs.size(); ++i )
				if ( t.chance( 20 ) && mayUse( i ) )
				{
					auto l = imgs[i].aspect == VK_IMAGE_ASPECT_COLOR_BIT
						? t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_PRESENT_SRC_KHR } )
						: t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL } );
					for ( auto v : imgs[i].blockView )
						if ( t.chance( 80 ) ) g.outputs.emplace_back( v, l );
				}
		}
		genSchedule( g );
		return g;
	}

	void World::genSchedule( Graph & g )
	{
		auto & t = c.t;
		bool toggles = o.toggles && t.chance( 60 );
		bool indices = t.chance( 70 );
		for ( auto & pp : g.passes )
		{
			auto & p = *pp;
			p.enabledAt.clear();
			p.indexAt.clear();
			bool en = !( toggles && t.chance( 20 ) );
			uint32_t idx = 0u;
			for ( uint32_t f = 0u; f < o.frames; ++f )
			{
				if ( f && toggles && t.chance( 25 ) ) en = !en;
				if ( p.maxPassCount > 1u && indices && t.chance( 60 ) ) idx = t.below( p.maxPassCount );
				p.enabledAt.push_back( en );
				p.indexAt.push_back( idx );
			}
			p.enabled = p.enabledAt[0];
			p.index = p.indexAt[0];
			p.byDefault = ( p.id + p.images.size() ) % 3u == 0u
				&& std::count( p.enabledAt.begin(), p.enabledAt.end(), false ) == 0
				&& size_t( std::count( p.indexAt.begin(), p.indexAt.end(), 0u ) ) == p.indexAt.size();
		}
	}

	namespace
	{
		// Chooses views / buffers of one pass so that, for a given pass index, no two of
		// them share a subresource.
		struct Picker
		{
			World & w;
			Pass & p;
			T & t;
			vector< vector< vector< bool > > > used; // [index][img][block]
			vector< vector< bool > > usedBuf;        // [index][buf]
			vector< uint32_t > bindings;
			Picker( World & w, Pass & p )
				: w{ w }, p{ p }, t{ w.c.t }
			{
				clearUsed();
				for ( uint32_t i = 0u; i < 16u; ++i ) bindings.push_back( i );
				if ( t.chance( 40 ) ) shuffle( t, bindings );
			}
			void clearUsed()
			{
				used.clear();
				usedBuf.clear();
				for ( uint32_t i = 0u; i < p.maxPassCount; ++i )
				{
					used.emplace_back();
					for ( size_t i = 0u; i < w.imgs.size(); ++i ) used.back().emplace_back( w.imgs[i].blocks.size(), !w.mayUse( i ) );
					usedBuf.emplace_back();
					for ( size_t i = 0u; i < w.bufs.size(); ++i ) usedBuf.back().push_back( w.bufAllowed && !w.bufAllowed( int( i ) ) );
				}
			}
			uint32_t binding()
			{
				auto b = bindings.front();
				bindings.erase( bindings.begin() );
				return b;
			}
			vector< size_t > covered( View const & v )
			{
				vector< size_t > r;
				auto & img = w.imgs[size_t( v.img )];
				for ( size_t i = 0u; i < img.blocks.size(); ++i )
				{
					auto & b = img.blocks[i];
					bool l = b.layer < v.range.baseArrayLayer + v.range.layerCount && v.range.baseArrayLayer < b.layer + b.layers;
					bool m = b.mip < v.range.baseMipLevel + v.range.levelCount && v.range.baseMipLevel < b.mip + b.mips;
					if ( l && m ) r.push_back( i );
				}
				return r;
			}
			bool isFree( int v, uint32_t first, uint32_t last )
			{
				auto & view = w.views[size_t( v )];
				for ( auto b : covered( view ) )
					for ( uint32_t i = first; i < last; ++i )
						if ( used[i][size_t( view.img )][b] ) return false;
				return true;
			}
			void take( int v, uint32_t first, uint32_t last )
			{
				auto & view = w.views[size_t( v )];
				for ( auto b : covered( view ) )
					for ( uint32_t i = first; i < last; ++i ) used[i][size_t( view.img )][b] = true;
			}
			using Pred = std::function< bool( View const &, Img const & ) >;
			vector< int > candidates( Pred const & pred, uint32_t first, uint32_t last, bool whole )
			{
				vector< int > r;
				for ( auto & img : w.imgs )
				{
					auto consider = [&]( int v )
					{
						if ( pred( w.views[size_t( v )], img ) && isFree( v, first, last ) ) r.push_back( v );
					};
					for ( auto v : img.blockView ) consider( v );
					if ( whole ) for ( auto v : img.whole ) consider( v );
				}
				return r;
			}
			// one view for all indices, or one per index
			vector< int > pick( Pred const & pred, bool whole, bool sameShape )
			{
				auto n = p.maxPassCount;
				bool multi = n > 1u && t.chance( 50 );
				vector< int > r;
				if ( !multi )
				{
					auto cand = candidates( pred, 0u, n, whole );
					if ( cand.empty() ) return r;
					r.push_back( t.pick( cand ) );
					take( r[0], 0u, n );
					return r;
				}
				auto saved = used;
				for ( uint32_t i = 0u; i < n; ++i )
				{
					auto cand = candidates( [&]( View const & v, Img const & img )
						{
							if ( !pred( v, img ) ) return false;
							if ( r.empty() ) return true;
							auto & v0 = w.views[size_t( r[0] )];
							auto & i0 = w.imgs[size_t( v0.img )];
							if ( v0.img == v.img && v0.range.baseMipLevel == v.range.baseMipLevel && v0.range.layerCount == v.range.layerCount ) return true;
							if ( ( i0.aspect == VK_IMAGE_ASPECT_COLOR_BIT ) != ( img.aspect == VK_IMAGE_ASPECT_COLOR_BIT ) ) return false;
							if ( i0.external != img.external ) return false;
							if ( !sameShape ) return i0.hasDepth == img.hasDepth && i0.hasStencil == img.hasStencil;
							auto e0 = mipExt( i0.ext, v0.range.baseMipLevel );
							auto e1 = mipExt( img.ext, v.range.baseMipLevel );
							return i0.fmt == img.fmt && i0.type == img.type && e0.width == e1.width && e0.height == e1.height && e0.depth == e1.depth && v0.range.layerCount == v.range.layerCount;
						}, i, i + 1u, whole );
					if ( cand.empty() ) { used = saved; return {}; }
					r.push_back( t.pick( cand ) );
					take( r.back(), i, i + 1u );
				}
				return r;
			}
			vector< int > pickBuf()
			{
				auto n = p.maxPassCount;
				bool multi = n > 1u && w.bufs.size() > 1u && t.chance( 50 );
				vector< int > r;
				auto cand = [&]( uint32_t first, uint32_t last )
				{
					vector< int > v;
					for ( size_t b = 0u; b < w.bufs.size(); ++b )
					{
						bool ok = true;
						for ( uint32_t i = first; i < last; ++i ) ok = ok && !usedBuf[i][b];
						if ( ok ) v.push_back( int( b ) );
					}
					return v;
				};
				if ( !multi )
				{
					auto v = cand( 0u, n );
					if ( v.empty() ) return r;
					r.push_back( t.pick( v ) );
					for ( uint32_t i = 0u; i < n; ++i ) usedBuf[i][size_t( r[0] )] = true;
					return r;
				}
				auto saved = usedBuf;
				for ( uint32_t i = 0u; i < n; ++i )
				{
					auto v = cand( i, i + 1u );
					if ( v.empty() ) { usedBuf = saved; return {}; }
					r.push_back( t.pick( v ) );
					usedBuf[i][size_t( r.back() )] = true;
				}
				return r;
			}
		};

		crg::SamplerDesc genSampler( T & t )
		{
			crg::SamplerDesc s{};
			if ( t.flag() ) s.magFilter = VK_FILTER_LINEAR;
			if ( t.flag() ) s.minFilter = VK_FILTER_LINEAR;
			if ( t.chance( 30 ) ) s.addressModeU = VK_SAMPLER_ADDRESS_MODE_REPEAT;
			if ( t.chance( 30 ) ) s.maxLod = 1.0f;
			return s;
		}
	}

	void World::genPass( Graph & g, Pass & p )
	{
		auto & t = c.t;
		static vector< PK > const all{ PK::Generic, PK::Compute, PK::RenderPass, PK::Quad, PK::Mesh, PK::Generic, PK::Quad, PK::RenderPass, PK::Compute, PK::ImageCopy, PK::ImageBlit, PK::BufferCopy, PK::BufToImg, PK::ImgToBuf, PK::GenMips };
		p.kind = t.pick( o.kinds.empty() ? all : o.kinds );
		p.maxPassCount = o.maxIndex > 1u && t.chance( 35 ) ? t.range( 2u, o.maxIndex ) : 1u;
		p.isCompute = p.kind == PK::Compute || ( p.kind == PK::Generic && t.flag() );
		p.resettable = o.resettable && t.flag();
		if ( o.actions )
		{
			p.pre = t.chance( 25 ) ? t.range( 1u, 3u ) : 0u;
			p.post = t.chance( 25 ) ? t.range( 1u, 3u ) : 0u;
		}
		p.enabledByPtr = t.flag();
		Picker pk{ *this, p };
		auto any = []( View const &, Img const & ){ return true; };
		auto addImg = [&]( AK k, Picker::Pred const & pred, bool whole, bool sameShape = false )
		{
			auto v = pk.pick( pred, whole && o.wholeViews, sameShape );
			if ( v.empty() ) return false;
			IAtt a;
			a.k = k;
			a.views = std::move( v );
			p.images.push_back( std::move( a ) );
			return true;
		};
		auto addBuf = [&]( BK k )
		{
			auto v = pk.pickBuf();
			if ( v.empty() ) return false;
			BAtt a;
			a.k = k;
			a.bufs = std::move( v );
			VkDeviceSize size = ~VkDeviceSize{};
			for ( auto b : a.bufs ) size = std::min( size, bufs[size_t( b )].size );
			if ( o.subBufferRanges && t.chance( 40 ) )
			{
				a.offset = 64u * t.below( uint32_t( size / 64u ) );
				a.range = 4u * ( 1u + t.below( uint32_t( ( size - a.offset ) / 4u ) ) );
			}
			else if ( o.subBufferRanges && t.chance( 30 ) )
			{
				a.offset = t.chance( 40 ) ? 64u * t.below( uint32_t( size / 64u ) ) : 0u;
				a.range = VK_WHOLE_SIZE;
			}
			else
			{
				a.offset = 0u;
				a.range = 256u;
			}
			if ( k == BK::Implicit )
				a.wanted = t.pick( { Acc{ VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT }
					, Acc{ VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT }
					, Acc{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT }
					, Acc{ VK_ACCESS_HOST_READ_BIT, VK_PIPELINE_STAGE_HOST_BIT } } );
			if ( k <= BK::StorageInOut )
			{
				a.binding = pk.binding();
				a.isView = a.bufs.size() == 1u && t.chance( 25 );
			}
			else if ( k == BK::Implicit )
				a.isView = a.bufs.size() == 1u && t.chance( 25 );
			p.buffers.push_back( std::move( a ) );
			return true;
		};
		auto common = [&]( bool storage )
		{
			uint32_t n = t.count( 0u, 4u, 60 );
			for ( uint32_t i = 0u; i < n && o.images; ++i )
			{
				auto k = t.pick( { AK::Sampled, AK::Sampled, AK::StorageIn, AK::StorageOut, AK::StorageInOut, AK::StorageClear, AK::TransferIn, AK::TransferOut, AK::TransferInOut, AK::Implicit } );
				if ( !storage && k >= AK::TransferIn && k <= AK::TransferInOut ) k = AK::Sampled;
				if ( !addImg( k, any, true ) ) continue;
				auto & a = p.images.back();
				if ( k <= AK::StorageInOut ) a.binding = pk.binding();
				if ( k == AK::Sampled ) a.sampler = genSampler( t );
				if ( k == AK::TransferInOut ) a.noTransition = t.chance( 20 );
				if ( k == AK::Implicit )
				{
					bool colour = imgs[size_t( views[size_t( a.views[0] )].img )].aspect == VK_IMAGE_ASPECT_COLOR_BIT;
					a.wanted = colour
						? t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_UNDEFINED } )
						: t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_UNDEFINED } );
				}
			}
			uint32_t nb = t.count( 0u, 3u, 50 );
			for ( uint32_t i = 0u; i < nb && o.buffers; ++i )
			{
				auto k = t.pick( { BK::StorageIn, BK::Uniform, BK::StorageOut, BK::StorageInOut, BK::StorageClear, BK::TransferIn, BK::TransferOut, BK::TransferInOut, BK::Implicit } );
				if ( !storage && k >= BK::TransferIn && k <= BK::TransferInOut ) k = BK::StorageIn;
				if ( addBuf( k ) && k == BK::TransferInOut ) p.buffers.back().noTransition = t.chance( 20 );
			}
		};
		auto single = [&]( View const & v ){ return v.range.levelCount == 1u && ( v.sources.empty() || v.sources.size() >= p.maxPassCount ); };
		switch ( p.kind )
		{
		case PK::Generic:
			common( true );
			break;
		case PK::Compute:
			common( true );
			p.programByCreator = t.chance( 30 );
			{
				uint32_t n = p.maxPassCount > 1u && ( p.programByCreator || t.flag() ) ? p.maxPassCount : 1u; // a creator makes one program per index
				for ( uint32_t i = 0u; i < n; ++i ) p.programs.push_back( program( true ) );
			}
			for ( int i = 0; i < 3; ++i )
			{
				p.counts[i] = t.range( 1u, 9u );
				p.countsByFn[i] = t.flag();
			}
			break;
		case PK::RenderPass:
		case PK::Quad:
		case PK::Mesh:
			{
				// render attachments share extent and layer count
				VkExtent3D ext{};
				uint32_t layers = 0u;
				auto renderable = [&]( View const & v, Img const & img )
				{
					if ( !single( v ) || img.type != VK_IMAGE_TYPE_2D ) return false;
					auto e = mipExt( img.ext, v.range.baseMipLevel );
					return ( layers == 0u || v.range.layerCount == layers ) && ( ext.width == 0u || ( e.width == ext.width && e.height == ext.height ) );
				};
				auto note = [&]()
				{
					auto & v = views[size_t( p.images.back().views[0] )];
					ext = mipExt( imgs[size_t( v.img )].ext, v.range.baseMipLevel );
					layers = v.range.layerCount;
					auto & a = p.images.back();
					a.hasClear = t.flag();
					for ( auto & f : a.clear.color.uint32 ) f = a.hasClear ? t.below( 1000u ) : 0u;
					if ( a.k == AK::ColourInOut && t.flag() )
					{
						a.hasBlend = true;
						a.blend.blendEnable = VK_TRUE;
						a.blend.colorWriteMask = t.below( 16u );
						a.blend.srcColorBlendFactor = t.pick( { VK_BLEND_FACTOR_ONE, VK_BLEND_FACTOR_SRC_ALPHA } );
					}
				};
				uint32_t nc = t.below( 4u );
				for ( uint32_t i = 0u; i < nc; ++i )
				{
					auto k = t.pick( { AK::ColourOut, AK::ColourInOut, AK::ColourIn, AK::ColourOut } );
					if ( addImg( k, [&]( View const & v, Img const & img ){ return img.aspect == VK_IMAGE_ASPECT_COLOR_BIT && renderable( v, img ); }, k == AK::ColourOut, true ) ) note();
				}
				if ( p.images.empty() || t.chance( 50 ) )
				{
					auto k = t.pick( { AK::DepthOut, AK::DepthInOut, AK::DepthIn, AK::DSOut, AK::DSInOut, AK::DSIn, AK::StencilOut, AK::StencilInOut, AK::StencilIn } );
					bool ds = k >= AK::DSIn && k <= AK::DSInOut, st = k >= AK::StencilIn;
					bool ok = addImg( k, [&]( View const & v, Img const & img )
						{
							if ( img.aspect == VK_IMAGE_ASPECT_COLOR_BIT || !renderable( v, img ) ) return false;
							auto full = VkImageAspectFlags( ( img.hasDepth ? VK_IMAGE_ASPECT_DEPTH_BIT : 0 ) | ( img.hasStencil ? VK_IMAGE_ASPECT_STENCIL_BIT : 0 ) );
							if ( img.aspect != full ) return false;
							if ( ds ) return img.hasDepth && img.hasStencil;
							if ( st ) return img.hasStencil && ( !separate || !img.hasDepth );
							return img.hasDepth && ( !separate || !img.hasStencil );
						}, k == AK::DepthOut || k == AK::DSOut || k == AK::StencilOut, true );
					if ( ok ) note();
				}
				if ( p.images.empty() )
				{
					// nothing to render to: fall back on a user pass
					p.kind = PK::Generic;
					common( true );
					break;
				}
				common( true );
				shuffle( t, p.images );
				// the framebuffer is sized by the largest of the configured size and the attachments'
				p.renderSize = t.chance( 60 ) ? VkExtent2D{ ext.width, ext.height } : VkExtent2D{ 1u + t.below( ext.width ), 1u + t.below( ext.height ) };
				p.renderPos = { int32_t( t.below( 3u ) ), int32_t( t.below( 3u ) ) };
				if ( p.kind != PK::RenderPass )
				{
					p.programByCreator = t.chance( 30 );
					uint32_t n = p.maxPassCount > 1u && ( p.programByCreator || t.flag() ) ? p.maxPassCount : 1u; // a creator makes one program per index
					for ( uint32_t i = 0u; i < n; ++i ) p.programs.push_back( program( false ) );
					p.instances = t.range( 1u, 4u );
					p.hasTexcoord = t.flag();
					p.texcoord = { t.flag(), t.flag() };
					p.primitives = t.range( 1u, 9u );
					p.vertices = t.range( 1u, 9u );
					p.cull = t.pick( { VkCullModeFlags( VK_CULL_MODE_NONE ), VkCullModeFlags( VK_CULL_MODE_BACK_BIT ), VkCullModeFlags( VK_CULL_MODE_FRONT_BIT ) } );
					p.indexType = t.flag() ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32;
					p.depthTest = t.flag();
				}
			}
			break;
		case PK::ImageCopy:
			{
				uint32_t pairs = t.count( 1u, 2u, 30 );
				VkExtent3D size{ ~0u, ~0u, ~0u };
				for ( uint32_t i = 0u; i < pairs; ++i )
				{
					auto saved = pk.used;
					View s0;
					VkFormat fmt{};
					if ( !addImg( AK::TransferIn, [&]( View const & v, Img const & ){ return v.sources.empty(); }, true, true ) ) break;
					s0 = views[size_t( p.images.back().views[0] )];
					fmt = imgs[size_t( s0.img )].fmt;
					auto aspect = imgs[size_t( s0.img )].aspect;
					auto type = imgs[size_t( s0.img )].type;
					if ( !addImg( AK::TransferOut, [&]( View const & v, Img const & img ){ return v.sources.empty() && img.fmt == fmt && img.aspect == aspect && v.range.layerCount == s0.range.layerCount && img.type == type; }, true, true ) )
					{
						p.images.pop_back();
						pk.used = saved;
						break;
					}
					for ( size_t k = p.images.size() - 2u; k < p.images.size(); ++k )
						for ( auto v : p.images[k].views )
						{
							auto e = mipExt( imgs[size_t( views[size_t( v )].img )].ext, views[size_t( v )].range.baseMipLevel );
							size = { std::min( size.width, e.width ), std::min( size.height, e.height ), std::min( size.depth, e.depth ) };
						}
				}
				if ( p.images.empty() ) { p.kind = PK::Generic; common( true ); break; }
				p.copySize = { 1u + t.below( size.width ), 1u + t.below( size.height ), 1u + t.below( size.depth ) };
				bool colour = true;
				for ( auto & a : p.images ) colour = colour && imgs[size_t( views[size_t( a.views[0] )].img )].aspect == VK_IMAGE_ASPECT_COLOR_BIT;
				p.finalLayout = t.chance( 50 ) ? VK_IMAGE_LAYOUT_UNDEFINED : t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL } );
			}
			break;
		case PK::ImageBlit:
			{
				auto ok = addImg( AK::TransferIn, [&]( View const & v, Img const & img ){ return v.sources.empty() && !img.hasDepth && !img.hasStencil; }, true, true );
				if ( ok )
				{
					View s0 = views[size_t( p.images.back().views[0] )];
					auto type = imgs[size_t( s0.img )].type;
					if ( !addImg( AK::TransferOut, [&]( View const & v, Img const & img ){ return v.sources.empty() && !img.hasDepth && !img.hasStencil && v.range.layerCount == s0.range.layerCount && img.type == type; }, true, true ) )
					{
						p.images.clear();
						ok = false;
					}
				}
				if ( !ok )
				{
					p.kind = PK::Generic;
					common( true );
					break;
				}
				auto region = [&]( IAtt const & a, VkOffset3D & off, VkExtent3D & ext )
				{
					VkExtent3D size{ ~0u, ~0u, ~0u };
					for ( auto v : a.views )
					{
						auto e = mipExt( imgs[size_t( views[size_t( v )].img )].ext, views[size_t( v )].range.baseMipLevel );
						size = { std::min( size.width, e.width ), std::min( size.height, e.height ), std::min( size.depth, e.depth ) };
					}
					auto one = [&]( uint32_t s, int32_t & of, uint32_t & ex ){ of = int32_t( t.below( s ) ); ex = 1u + t.below( s - uint32_t( of ) ); };
					one( size.width, off.x, ext.width );
					one( size.height, off.y, ext.height );
					one( size.depth, off.z, ext.depth );
				};
				region( p.images[0], p.offA, p.extA );
				region( p.images[1], p.offB, p.extB );
				p.filter = t.flag() ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
				p.finalLayout = t.chance( 50 ) ? VK_IMAGE_LAYOUT_UNDEFINED : t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL } );
			}
			break;
		case PK::BufferCopy:
			if ( !o.buffers || !addBuf( BK::TransferIn ) || !addBuf( BK::TransferOut ) )
			{
				p.buffers.clear();
				pk.clearUsed();
				p.kind = PK::Generic;
				common( true );
				break;
			}
			{
				VkDeviceSize n = ~VkDeviceSize{};
				for ( auto & b : p.buffers )
					for ( auto x : b.bufs ) n = std::min( n, b.range == VK_WHOLE_SIZE ? bufs[size_t( x )].size - b.offset : b.range );
				p.copyOffset = t.below( uint32_t( n ) );
				p.copyRange = 1u + t.below( uint32_t( n - p.copyOffset ) );
			}
			break;
		case PK::BufToImg:
		case PK::ImgToBuf:
			{
				bool toImg = p.kind == PK::BufToImg;
				bool ok = o.buffers && addBuf( toImg ? BK::TransferIn : BK::TransferOut );
				ok = ok && addImg( toImg ? AK::TransferOut : AK::TransferIn, [&]( View const & v, Img const & img ){ return v.sources.empty() && ( img.aspect & ( img.aspect - 1u ) ) == 0u; }, true, true );
				if ( !ok )
				{
					p.buffers.clear();
					p.images.clear();
					pk.clearUsed();
					p.kind = PK::Generic;
					common( true );
					break;
				}
				VkExtent3D size{ ~0u, ~0u, ~0u };
				uint32_t lay = 1u, bpp = 1u;
				for ( auto v : p.images[0].views )
				{
					auto & img = imgs[size_t( views[size_t( v )].img )];
					auto e = mipExt( img.ext, views[size_t( v )].range.baseMipLevel );
					size = { std::min( size.width, e.width ), std::min( size.height, e.height ), std::min( size.depth, e.depth ) };
					lay = std::max( lay, views[size_t( v )].range.layerCount );
					bpp = std::max( bpp, sim::bytesPerPixel( img.fmt ) );
				}
				auto one = [&]( uint32_t s, int32_t & of, uint32_t & ex ){ of = int32_t( t.below( s ) ); ex = 1u + t.below( s - uint32_t( of ) ); };
				one( size.width, p.offA.x, p.extA.width );
				one( size.height, p.offA.y, p.extA.height );
				one( size.depth, p.offA.z, p.extA.depth );
				// the buffer range must hold what is copied
				auto & b = p.buffers[0];
				auto need = [&](){ return VkDeviceSize( p.extA.width ) * p.extA.height * p.extA.depth * lay * bpp; };
				VkDeviceSize room = ~VkDeviceSize{};
				for ( auto x : b.bufs ) room = std::min( room, b.range == VK_WHOLE_SIZE ? bufs[size_t( x )].size - b.offset : b.range );
				while ( need() > room )
				{
					if ( p.extA.depth > 1u ) p.extA.depth = 1u;
					else if ( p.extA.height > 1u ) p.extA.height = 1u;
					else if ( p.extA.width > 1u ) p.extA.width = 1u;
					else break;
				}
				if ( need() > room )
				{
					b.offset = 0u;
					b.range = 256u;
				}
			}
			break;
		case PK::GenMips:
			{
				bool ok = addImg( AK::TransferInOut, [&]( View const & v, Img const & img )
					{
						return v.sources.empty() && v.range.baseMipLevel == 0u && v.range.levelCount == img.mips
							&& img.aspect == VkImageAspectFlags( img.hasDepth || img.hasStencil ? ( ( img.hasDepth ? VK_IMAGE_ASPECT_DEPTH_BIT : 0 ) | ( img.hasStencil ? VK_IMAGE_ASPECT_STENCIL_BIT : 0 ) ) : VK_IMAGE_ASPECT_COLOR_BIT );
					}, true, true );
				if ( !ok )
				{
					p.kind = PK::Generic;
					common( true );
					break;
				}
				p.images[0].noTransition = true;
				p.finalLayout = t.pick( { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_UNDEFINED } );
			}
			break;
		default:
			break;
		}
		if ( o.implicitActions && t.chance( 20 ) )
		{
			uint32_t n = t.range( 1u, 2u );
			for ( uint32_t i = 0u; i < n; ++i )
			{
				// an action never touches its view in a way that breaks the block rule
				auto v = int( t.below( uint32_t( views.size() ) ) );
				if ( !views[size_t( v )].sources.empty() ) continue;
				if ( std::any_of( p.impl.begin(), p.impl.end(), [&]( Pass::Impl const & x ){ return x.view == v; } ) ) continue;
				p.impl.push_back( { v, false, VK_IMAGE_LAYOUT_UNDEFINED } );
			}
		}
		(void)g;
	}

	void declare( World & w, Pass & p, crg::FramePass & fp )
	{
		auto ids = [&]( IAtt const & a )
		{
			crg::ImageViewIdArray r;
			for ( auto v : a.views )
			{
				auto & view = w.views[size_t( v )];
				if ( !view.sources.empty() && !view.id.data )
				{
					crg::ImageViewIdArray sources;
					for ( auto i : view.sources ) sources.push_back( w.views[size_t( i )].id );
					view.id = fp.mergeViews( sources, view.range.levelCount > 1u, view.range.layerCount > 1u );
				}
				r.push_back( view.id );
			}
			return r;
		};
		auto buffer = [&]( BAtt const & a )
		{
			if ( a.bufs.size() == 1u ) return crg::Buffer{ w.bufs[size_t( a.bufs[0] )].vk, w.bufs[size_t( a.bufs[0] )].name };
			crg::VkBufferArray r;
			std::string n;
			for ( auto b : a.bufs ) { r.push_back( w.bufs[size_t( b )].vk ); n += w.bufs[size_t( b )].name; }
			return crg::Buffer{ r, n };
		};
		for ( auto & a : p.images )
		{
			auto v = ids( a );
			auto & img = w.imgs[size_t( w.views[size_t( a.views[0] )].img )];
			auto flag = a.noTransition ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag{};
			switch ( a.k )
			{
			case AK::Sampled: fp.addSampledView( v, a.binding, a.sampler ); break;
			case AK::StorageIn: fp.addInputStorageView( v, a.binding ); break;
			case AK::StorageOut: fp.addOutputStorageView( v, a.binding ); break;
			case AK::StorageClear: fp.addClearableOutputStorageView( v, a.binding ); break;
			case AK::StorageInOut: fp.addInOutStorageView( v, a.binding ); break;
			case AK::TransferIn: fp.addTransferInputView( v ); break;
			case AK::TransferOut: fp.addTransferOutputView( v ); break;
			case AK::TransferInOut: fp.addTransferInOutView( v, flag ); break;
			case AK::Implicit:
				if ( img.aspect == VK_IMAGE_ASPECT_COLOR_BIT ) fp.addImplicitColourView( v, a.wanted );
				else if ( img.hasDepth && img.hasStencil ) fp.addImplicitDepthStencilView( v, a.wanted );
				else fp.addImplicitDepthView( v, a.wanted );
				break;
			case AK::ColourIn: fp.addInputColourView( v ); break;
			case AK::ColourOut: if ( a.hasClear ) fp.addOutputColourView( v, a.clear ); else fp.addOutputColourView( v ); break;
			case AK::ColourInOut: if ( a.hasBlend ) fp.addInOutColourView( v, a.blend ); else fp.addInOutColourView( v ); break;
			case AK::DepthIn: fp.addInputDepthView( v ); break;
			case AK::DepthOut: if ( a.hasClear ) fp.addOutputDepthView( v, a.clear ); else fp.addOutputDepthView( v ); break;
			case AK::DepthInOut: fp.addInOutDepthView( v ); break;
			case AK::DSIn: fp.addInputDepthStencilView( v ); break;
			case AK::DSOut: if ( a.hasClear ) fp.addOutputDepthStencilView( v, a.clear ); else fp.addOutputDepthStencilView( v ); break;
			case AK::DSInOut: fp.addInOutDepthStencilView( v ); break;
			case AK::StencilIn: fp.addInputStencilView( v ); break;
			case AK::StencilOut: if ( a.hasClear ) fp.addOutputStencilView( v, a.clear ); else fp.addOutputStencilView( v ); break;
			case AK::StencilInOut: fp.addInOutStencilView( v ); break;
			default: break;
			}
		}
		for ( auto & a : p.buffers )
		{
			auto b = buffer( a );
			auto bv = w.bufs[size_t( a.bufs[0] )].view;
			auto flag = a.noTransition ? crg::Attachment::Flag::NoTransition : crg::Attachment::Flag{};
			crg::AccessState wanted{ a.wanted.access, a.wanted.stage };
			switch ( a.k )
			{
			case BK::Uniform: if ( a.isView ) fp.addUniformBufferView( b, bv, a.binding, a.offset, a.range ); else fp.addUniformBuffer( b, a.binding, a.offset, a.range ); break;
			case BK::StorageIn: if ( a.isView ) fp.addInputStorageBufferView( b, bv, a.binding, a.offset, a.range ); else fp.addInputStorageBuffer( b, a.binding, a.offset, a.range ); break;
			case BK::StorageOut: if ( a.isView ) fp.addOutputStorageBufferView( b, bv, a.binding, a.offset, a.range ); else fp.addOutputStorageBuffer( b, a.binding, a.offset, a.range ); break;
			case BK::StorageClear: if ( a.isView ) fp.addClearableOutputStorageBufferView( b, bv, a.binding, a.offset, a.range ); else fp.addClearableOutputStorageBuffer( b, a.binding, a.offset, a.range ); break;
			case BK::StorageInOut: if ( a.isView ) fp.addInOutStorageBufferView( b, bv, a.binding, a.offset, a.range ); else fp.addInOutStorageBuffer( b, a.binding, a.offset, a.range ); break;
			case BK::TransferIn: fp.addTransferInputBuffer( b, a.offset, a.range ); break;
			case BK::TransferOut: fp.addTransferOutputBuffer( b, a.offset, a.range ); break;
			case BK::TransferInOut: fp.addTransferInOutBuffer( b, a.offset, a.range, flag ); break;
			case BK::Implicit: if ( a.isView ) fp.addImplicitBufferView( b, bv, a.offset, a.range, wanted ); else fp.addImplicitBuffer( b, a.offset, a.range, wanted ); break;
			default: break;
			}
		}
	}

	void World::pushUses( Pass & p, VkCommandBuffer cb, uint32_t index )
	{
		sim::cmdMark( cb, mark( p, "pass" ), { int64_t( index ) } );
		for ( auto & a : p.images )
		{
			if ( a.noTransition ) continue;
			auto & v = views[size_t( a.view( index ) )];
			auto l = layoutOf( a.k, a.wanted, separate );
			if ( l == VK_IMAGE_LAYOUT_UNDEFINED ) continue;
			sim::Use u;
			u.image = sim::u( p.g->rg->createImage( imgs[size_t( v.img )].id ) );
			u.range = v.range;
			u.layout = l;
			u.read = reads( a.k ) && a.k != AK::Implicit;
			u.write = writes( a.k );
			auto const both = VkImageAspectFlags( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT );
			bool depthOnly = a.k == AK::DepthIn || a.k == AK::DepthOut || a.k == AK::DepthInOut;
			bool stencilOnly = a.k == AK::StencilIn || a.k == AK::StencilOut || a.k == AK::StencilInOut;
			if ( ( depthOnly || stencilOnly ) && ( u.range.aspectMask & both ) == both )
			{
				// The other aspect follows the layout, its data is nobody's business.
				auto other = u;
				u.range.aspectMask = depthOnly ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
				other.range.aspectMask = both & ~u.range.aspectMask;
				other.read = false;
				other.write = true;
				sim::cmdUse( cb, other );
			}
			sim::cmdUse( cb, u );
		}
	}

	crg::RunnablePassPtr makeRunnable( Pass & p, crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
	{
		auto & w = *p.w;
		auto * pp = &p;
		crg::ru::Config ru;
		ru.maxPassCount = p.maxPassCount;
		ru.resettable = p.resettable;
		bool copies = p.kind >= PK::ImageCopy;
		if ( copies )
			ru.prePassAction( [pp]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t i )
				{
					pp->w->pushUses( *pp, cb, i );
					if ( pp->w->onRecord ) pp->w->onRecord( *pp, cb, i, rc );
					if ( pp->w->onMark ) pp->w->onMark( *pp, "pass", 0u );
				} );
		for ( uint32_t n = 0u; n < p.pre; ++n )
			ru.prePassAction( [pp, n]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
				{
					sim::cmdMark( cb, pp->w->mark( *pp, "pre" ), { int64_t( i ), int64_t( n ) } );
					if ( pp->w->onMark ) pp->w->onMark( *pp, "pre", n );
					if ( pp->w->onUser ) pp->w->onUser( *pp, "a pre-pass action", i );
				} );
		for ( uint32_t n = 0u; n < p.post; ++n )
			ru.postPassAction( [pp, n]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
				{
					sim::cmdMark( cb, pp->w->mark( *pp, "post" ), { int64_t( i ), int64_t( n ) } );
					if ( pp->w->onMark ) pp->w->onMark( *pp, "post", n );
					if ( pp->w->onUser ) pp->w->onUser( *pp, "a post-pass action", i );
				} );
		for ( auto & im : p.impl )
		{
			auto v = im.view;
			ru.implicitAction( w.views[size_t( v )].id, [pp, v]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
				{
					sim::cmdMark( cb, pp->w->mark( *pp, "impl" ), { int64_t( i ), int64_t( v ) } );
					if ( pp->w->onUser ) pp->w->onUser( *pp, "an implicit action", i );
				} );
		}
		auto record = [pp]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t i )
		{
			pp->w->pushUses( *pp, cb, i );
			if ( pp->w->onRecord ) pp->w->onRecord( *pp, cb, i, rc );
			if ( pp->w->onMark ) pp->w->onMark( *pp, "pass", 0u );
			if ( pp->w->onUser ) pp->w->onUser( *pp, "a recording", i );
		};
		auto getIndex = crg::RunnablePass::GetPassIndexCallback( [pp](){ return pp->index; } );
		auto isEnabled = crg::RunnablePass::IsEnabledCallback( [pp](){ return pp->enabled; } );
		auto init = [pp]( uint32_t i )
		{
			pp->inits.push_back( i );
			if ( pp->w->onUser ) pp->w->onUser( *pp, "an initialisation", i );
		};
		auto programCreator = [pp]()
		{
			crg::ProgramCreator pc;
			pc.maxCount = uint32_t( pp->programs.size() );
			pc.create = [pp]( uint32_t i ){ return pp->programs[pp->programs.size() == 1u ? 0u : i]; };
			return pc;
		};
		auto base = [&]()
		{
			crg::pp::Config b;
			if ( p.programByCreator ) b.programCreator( programCreator() );
			else if ( p.programs.size() == 1u ) b.program( p.programs[0] );
			else b.programs( p.programs );
			b.layouts( p.extraLayouts );
			b.pushConstants( p.pushConstants );
			return b;
		};
		auto buffer = [&]( vector< int > const & ids )
		{
			crg::VkBufferArray v;
			for ( auto i : ids ) v.push_back( w.bufs[size_t( i )].vk );
			return crg::Buffer{ v, w.bufs[size_t( ids[0] )].name };
		};
		auto indirect = [&](){ return crg::IndirectBuffer{ buffer( p.indirectBufs ), p.indirectStride, p.indirectOffset }; };
		VkPipelineDepthStencilStateCreateInfo dss{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
		dss.depthTestEnable = p.depthTest;
		dss.depthWriteEnable = p.depthWrite;
		dss.depthCompareOp = p.depthCompare;
		switch ( p.kind )
		{
		case PK::Generic:
			{
				bool comp = p.isCompute;
				auto stage = comp ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
				if ( p.byDefault && !comp )
				{
					auto state = crg::RunnablePass::GetPipelineStateCallback( [stage](){ return crg::getPipelineState( stage ); } );
					return std::make_unique< crg::RunnablePass >( fp, ctx, rg, p.id % 2u ? crg::RunnablePass::Callbacks{ init, state, record } : crg::RunnablePass::Callbacks{ init, state, record, getIndex }, ru );
				}
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg
					, crg::RunnablePass::Callbacks{ init
						, crg::RunnablePass::GetPipelineStateCallback( [stage](){ return crg::getPipelineState( stage ); } )
						, record
						, getIndex
						, isEnabled
						, crg::RunnablePass::IsComputePassCallback( [comp](){ return comp; } ) }
					, ru );
			}
		case PK::Compute:
			{
				crg::cp::Config cfg;
				cfg.baseConfig( base() );
				if ( !p.byDefault ) cfg.getPassIndex( getIndex );
				if ( p.enabledByPtr ) cfg.enabled( &p.enabled );
				else if ( !p.byDefault ) cfg.isEnabled( isEnabled );
				cfg.initialise( init );
				cfg.recordInto( record );
				cfg.end( [pp]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
					{
						sim::cmdMark( cb, pp->w->mark( *pp, "end" ), { int64_t( i ) } );
						if ( pp->w->onUser ) pp->w->onUser( *pp, "an end of recording", i );
					} );
				auto fn = [pp]( int i ){ return crg::cp::GetGroupCountCallback( [pp, i](){ return pp->counts[i]; } ); };
				if ( p.countsByFn[0] ) cfg.getGroupCountX( fn( 0 ) ); else if ( p.counts[0] != 1u ) cfg.groupCountX( p.counts[0] );
				if ( p.countsByFn[1] ) cfg.getGroupCountY( fn( 1 ) ); else if ( p.counts[1] != 1u ) cfg.groupCountY( p.counts[1] );
				if ( p.countsByFn[2] ) cfg.getGroupCountZ( fn( 2 ) ); else if ( p.counts[2] != 1u ) cfg.groupCountZ( p.counts[2] );
				if ( !p.indirectBufs.empty() ) cfg.indirectBuffer( indirect() );
				return std::make_unique< crg::ComputePass >( fp, ctx, rg, ru, std::move( cfg ) );
			}
		case PK::RenderPass:
			if ( p.byDefault )
				return std::make_unique< crg::RenderPass >( fp, ctx, rg
					, p.id % 2u ? crg::RenderPass::Callbacks{ init, record } : crg::RenderPass::Callbacks{ init, record, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } ) }
					, p.renderSize
					, ru );
			return std::make_unique< crg::RenderPass >( fp, ctx, rg
				, crg::RenderPass::Callbacks{ init
					, record
					, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } )
					, getIndex
					, isEnabled }
				, p.renderSize
				, ru );
		case PK::Quad:
			{
				crg::rq::Config cfg;
				cfg.baseConfig( base() );
				if ( p.enabledByPtr )
				{
					cfg.enabled( &p.enabled );
				}
				else if ( !p.byDefault )
				{
					cfg.isEnabled( isEnabled );
				}
				if ( !p.byDefault ) cfg.passIndex( &p.index );
				cfg.recordInto( record );
				cfg.end( [pp]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
					{
						sim::cmdMark( cb, pp->w->mark( *pp, "end" ), { int64_t( i ) } );
						if ( pp->w->onUser ) pp->w->onUser( *pp, "an end of recording", i );
					} );
				if ( p.renderSize.width ) cfg.renderSize( p.renderSize );
				if ( p.renderPos.x || p.renderPos.y ) cfg.renderPosition( p.renderPos );
				cfg.depthStencilState( dss );
				if ( p.instances != 1u ) cfg.instances( p.instances );
				if ( p.hasTexcoord ) cfg.texcoordConfig( p.texcoord );
				if ( !p.indirectBufs.empty() ) cfg.indirectBuffer( indirect() );
				return std::make_unique< crg::RenderQuad >( fp, ctx, rg, ru, std::move( cfg ) );
			}
		case PK::Mesh:
			{
				crg::rm::Config cfg;
				cfg.baseConfig( base() );
				if ( !p.byDefault ) cfg.getPassIndex( getIndex );
				if ( !p.byDefault ) cfg.isEnabled( isEnabled );
				cfg.recordInto( record );
				cfg.end( [pp]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
					{
						sim::cmdMark( cb, pp->w->mark( *pp, "end" ), { int64_t( i ) } );
						if ( pp->w->onUser ) pp->w->onUser( *pp, "an end of recording", i );
					} );
				if ( p.renderSize.width ) cfg.renderSize( p.renderSize );
				if ( p.renderPos.x || p.renderPos.y ) cfg.renderPosition( p.renderPos );
				cfg.depthStencilState( dss );
				cfg.getPrimitiveCount( crg::GetPrimitiveCountCallback( [pp](){ return pp->primitives; } ) );
				cfg.getVertexCount( crg::GetVertexCountCallback( [pp](){ return pp->vertices; } ) );
				cfg.getIndexType( crg::GetIndexTypeCallback( [pp](){ return pp->indexType; } ) );
				cfg.getCullMode( crg::GetCullModeCallback( [pp](){ return pp->cull; } ) );
				if ( !p.vertexBufs.empty() )
				{
					cfg.vertexBuffer( crg::VertexBuffer{ buffer( p.vertexBufs ), VkDeviceMemory{}
						, { { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, 0u } }
						, { { 0u, 8u, VK_VERTEX_INPUT_RATE_VERTEX } } } );
				}
				if ( !p.indexBufs.empty() ) cfg.indexBuffer( crg::IndexBuffer{ buffer( p.indexBufs ) } );
				if ( !p.indirectBufs.empty() ) cfg.indirectBuffer( indirect() );
				return std::make_unique< crg::RenderMesh >( fp, ctx, rg, ru, std::move( cfg ) );
			}
		case PK::ImageCopy:
			if ( p.byDefault ) return p.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED
				? std::make_unique< crg::ImageCopy >( fp, ctx, rg, p.copySize, ru )
				: std::make_unique< crg::ImageCopy >( fp, ctx, rg, p.copySize, p.finalLayout, ru );
			return std::make_unique< crg::ImageCopy >( fp, ctx, rg, p.copySize, p.finalLayout, ru, getIndex, isEnabled );
		case PK::ImageBlit:
			if ( p.byDefault ) return std::make_unique< crg::ImageBlit >( fp, ctx, rg, p.offA, p.extA, p.offB, p.extB, p.filter, ru );
			return std::make_unique< crg::ImageBlit >( fp, ctx, rg, p.offA, p.extA, p.offB, p.extB, p.filter, ru, getIndex, isEnabled );
		case PK::BufferCopy:
			if ( p.byDefault ) return std::make_unique< crg::BufferCopy >( fp, ctx, rg, p.copyOffset, p.copyRange, ru );
			return std::make_unique< crg::BufferCopy >( fp, ctx, rg, p.copyOffset, p.copyRange, ru, getIndex, isEnabled );
		case PK::BufToImg:
			if ( p.byDefault ) return std::make_unique< crg::BufferToImageCopy >( fp, ctx, rg, p.offA, p.extA, ru );
			return std::make_unique< crg::BufferToImageCopy >( fp, ctx, rg, p.offA, p.extA, ru, getIndex, isEnabled );
		case PK::ImgToBuf:
			if ( p.byDefault ) return std::make_unique< crg::ImageToBufferCopy >( fp, ctx, rg, p.offA, p.extA, ru );
			return std::make_unique< crg::ImageToBufferCopy >( fp, ctx, rg, p.offA, p.extA, ru, getIndex, isEnabled );
		case PK::GenMips:
			if ( p.byDefault ) return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg, p.finalLayout, ru );
			return std::make_unique< crg::GenerateMipmaps >( fp, ctx, rg, p.finalLayout, ru, getIndex, isEnabled );
		default:
			return nullptr;
		}
	}

	void World::build( Graph & g )
	{
		g.fg = std::make_unique< crg::FrameGraph >( *handler, g.name );
		for ( auto & img : imgs )
		{
			auto know = [&]( int v )
			{
				auto & data = *views[size_t( v )].id.data;
				auto id = v % 2 ? g.fg->createView( data ) : g.fg->getDefaultGroup().createView( data );
				if ( !( id == views[size_t( v )].id ) ) c.fail( "view: another id for the same view" );
			};
			for ( auto v : img.blockView ) know( v );
			for ( auto v : img.whole )
				if ( views[size_t( v )].sources.empty() ) know( v );
		}
		g.groups[0].g = &g.fg->getDefaultGroup();
		for ( size_t i = 1u; i < g.groups.size(); ++i )
			g.groups[i].g = &g.groups[size_t( g.groups[i].parent )].g->createPassGroup( g.groups[i].name );
		for ( auto id : g.creation )
		{
			auto & p = *g.passes[size_t( id )];
			auto * pp = &p;
			p.fp = &g.groups[size_t( p.group )].g->createPass( p.name
				, [pp]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg )
				{
					auto r = pp->w->creator ? pp->w->creator( *pp, fp, c, rg ) : makeRunnable( *pp, fp, c, rg );
					pp->rp = r.get();
					return r;
				} );
			declare( *this, p, *p.fp );
		}
		for ( auto & p : g.passes )
			for ( auto d : p->deps ) p->fp->addDependency( *g.passes[size_t( d )]->fp );
		// Every group of the graph is an entrance to the same declarations.
		for ( auto & [v, l] : g.inputs )
		{
			auto id = views[size_t( v )].id;
			auto & grp = *g.groups[size_t( v ) % g.groups.size()].g;
			if ( v % 3 == 0 ) g.fg->addInput( id, crg::makeLayoutState( l ) );
			else if ( v % 3 == 1 ) grp.addInput( id, crg::makeLayoutState( l ) );
			else grp.addInput( id.data->image, id.data->info.viewType, id.data->info.subresourceRange, crg::makeLayoutState( l ) );
		}
		for ( auto & [v, l] : g.outputs )
		{
			auto id = views[size_t( v )].id;
			auto & grp = *g.groups[size_t( v ) % g.groups.size()].g;
			if ( v % 3 == 0 ) g.fg->addOutput( id, crg::makeLayoutState( l ) );
			else if ( v % 3 == 1 ) grp.addOutput( id, crg::makeLayoutState( l ) );
			else grp.addOutput( id.data->image, id.data->info.viewType, id.data->info.subresourceRange, crg::makeLayoutState( l ) );
		}
		for ( auto d : g.depends ) g.fg->addDependency( *graphs[size_t( d )]->fg );
	}

	void World::compile( Graph & g )
	{
		g.rg = g.fg->compile( *ctx );
	}

	void World::setFrame( Graph & g, uint32_t frame )
	{
		for ( auto & p : g.passes )
		{
			p->enabled = p->enabledAt[frame % p->enabledAt.size()];
			p->index = p->indexAt[frame % p->indexAt.size()];
		}
	}

	VkImage World::vkImage( int img )
	{
		for ( auto & g : graphs )
			if ( g->rg ) return g->rg->createImage( imgs[size_t( img )].id );
		return {};
	}

	void World::provideExternals( Graph & g )
	{
		for ( auto & [v, l] : g.inputs )
		{
			auto & view = views[size_t( v )];
			auto range = view.range;
			auto & img = imgs[size_t( view.img )];
			if ( img.hasDepth && img.hasStencil && !separate ) range.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
			dev->setImage( sim::u( g.rg->createImage( img.id ) ), range, l, true );
		}
	}

	crg::SemaphoreWaitArray World::run( Graph & g )
	{
		provideExternals( g );
		auto r = g.rg->run( sim::queueHandle() );
		g.lastWait = r;
		if ( !dev->subs.empty() ) g.lastCb = sim::as< VkCommandBuffer >( dev->subs.back().cmdBuf );
		return r;
	}

	vector< sim::Cmd > const & World::commands( Graph const & g )const
	{
		auto o = dev->find( sim::u( g.lastCb ), sim::Ty::CmdBuf );
		if ( !o ) throw pbt::Failure{ "internal: no command buffer" };
		return o->cmds;
	}

	void World::destroy()
	{
		graphs.clear();
		o.handler.reset();
		handler.reset();
		ctx.reset();
	}

	void World::require( std::set< string > const & cats_ )
	{
		auto cats = cats_;
		if ( auto e = getenv( "GG_ONLY" ) ) cats = { e }; // exploration aid: look at one other category
		for ( auto & v : dev->viols )
			if ( cats.empty() || cats.count( v.cat ) )
				c.fail( v.cat + ": " + v.msg );
	}

	string World::showView( int v )const
	{
		auto & x = views[size_t( v )];
		return pbt::fmt( "img%d[m%u+%u,l%u+%u]%s", x.img, x.range.baseMipLevel, x.range.levelCount, x.range.baseArrayLayer, x.range.layerCount, x.sources.empty() ? "" : "merged" );
	}

	string World::describe( Graph const & g )const
	{
		string r = g.name + ":";
		for ( auto & gi : g.inputs ) r += " in " + showView( gi.first ) + "=" + layoutName( gi.second );
		for ( auto & gi : g.outputs ) r += " out " + showView( gi.first ) + "=" + layoutName( gi.second );
		for ( auto d : g.depends ) r += " after " + graphs[size_t( d )]->name;
		r += "\n";
		for ( auto & pp : g.passes )
		{
			auto & p = *pp;
			r += pbt::fmt( "  %s %s group%d x%u", p.name.c_str(), name( p.kind ), p.group, p.maxPassCount );
			if ( !p.deps.empty() )
			{
				r += " deps";
				for ( auto d : p.deps ) r += " p" + std::to_string( d );
			}
			r += " [";
			for ( auto & a : p.images )
			{
				r += string( name( a.k ) ) + ( a.noTransition ? "(nt)" : "" ) + "(";
				for ( auto v : a.views ) r += showView( v ) + " ";
				if ( a.k == AK::Implicit ) r += layoutName( a.wanted );
				r += ") ";
			}
			for ( auto & a : p.buffers )
			{
				r += string( name( a.k ) ) + ( a.noTransition ? "(nt)" : "" ) + "(";
				for ( auto b : a.bufs ) r += pbt::fmt( "b%d ", b );
				r += pbt::fmt( "@%llu+%lld) ", (unsigned long long)a.offset, (long long)a.range );
			}
			for ( auto & i : p.impl ) r += "subst(" + showView( i.view ) + ") ";
			r += "] frames";
			for ( size_t f = 0u; f < p.enabledAt.size(); ++f ) r += p.enabledAt[f] ? " " + std::to_string( p.indexAt[f] ) : string( " -" );
			r += "\n";
		}
		return r;
	}

	string World::describe()const
	{
		string r = separate ? "separate depth/stencil\n" : "";
		for ( size_t i = 0u; i < imgs.size(); ++i )
			r += pbt::fmt( "img%zu %ux%ux%u fmt%d mips%u layers%u blocks%zu%s\n", i, imgs[i].ext.width, imgs[i].ext.height, imgs[i].ext.depth, int( imgs[i].fmt ), imgs[i].mips, imgs[i].layers, imgs[i].blocks.size(), imgs[i].external ? " external" : "" );
		for ( auto & g : graphs ) r += describe( *g );
		return r;
	}
}
