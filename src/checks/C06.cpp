// C06: render passes and framebuffers describe exactly the declared attachments.
#include "direct.hpp"
#include <RenderGraph/Exception.hpp>
using namespace gg;

namespace
{
	struct Ops { VkAttachmentLoadOp load; VkAttachmentStoreOp store; VkAttachmentLoadOp sload; VkAttachmentStoreOp sstore; };
	constexpr auto L = VK_ATTACHMENT_LOAD_OP_LOAD, CL = VK_ATTACHMENT_LOAD_OP_CLEAR, DL = VK_ATTACHMENT_LOAD_OP_DONT_CARE;
	constexpr auto S = VK_ATTACHMENT_STORE_OP_STORE, DS = VK_ATTACHMENT_STORE_OP_DONT_CARE;
	// What each way of declaring an attachment stands for.
	Ops declared( AK k )
	{
		switch ( k )
		{
		case AK::ColourIn: case AK::DepthIn: return { L, DS, DL, DS };
		case AK::ColourOut: case AK::DepthOut: return { CL, S, DL, DS };
		case AK::ColourInOut: case AK::DepthInOut: return { L, S, DL, DS };
		case AK::DSIn: return { L, DS, L, DS };
		case AK::DSOut: return { CL, S, CL, S };
		case AK::DSInOut: return { L, S, L, S };
		case AK::StencilIn: return { DL, DS, L, DS };
		case AK::StencilOut: return { DL, DS, CL, S };
		case AK::StencilInOut: return { DL, DS, L, S };
		default: return {};
		}
	}
	bool colour( AK k ) { return k == AK::ColourIn || k == AK::ColourOut || k == AK::ColourInOut; }
	// An undefined content is cleared rather than loaded; clearing it where nothing was asked for does no harm.
	bool loadOk( VkAttachmentLoadOp got, VkAttachmentLoadOp want, bool undefined )
	{
		if ( !undefined ) return got == want;
		return want == DL ? ( got == DL || got == CL ) : got == CL;
	}
	bool same( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b )
	{
		return a.aspectMask == b.aspectMask && a.baseArrayLayer == b.baseArrayLayer && a.baseMipLevel == b.baseMipLevel && a.layerCount == b.layerCount && a.levelCount == b.levelCount;
	}
	struct Expected
	{
		VkFormat format;
		AK k;
		crg::ImageViewId id;
		VkImage image;
		VkImageSubresourceRange range;
		VkImageViewType type;
		VkExtent3D extent; // of the level
		bool hasClear; VkClearValue clear;
		VkPipelineColorBlendAttachmentState blend;
		VkImageLayout layout;
	};

	// Compares what a render pass begins with to what the pass declares.
	void begin( pbt::Case & c, World & w, sim::Cmd const & cmd, std::vector< Expected > const & exp, VkExtent2D size, std::string const & who )
	{
		auto rp = w.dev->find( cmd.h[0], sim::Ty::RenderPass );
		auto fb = w.dev->find( cmd.h[1], sim::Ty::Framebuffer );
		c.check( rp && fb, "objects: " + who + " begins an unknown render pass or framebuffer" );
		c.check( rp->atts.size() == exp.size(), pbt::fmt( "attachments: %s has %zu, declares %zu", who.c_str(), rp->atts.size(), exp.size() ) );
		c.check( cmd.clears.size() == exp.size(), pbt::fmt( "clear values: %s has %zu for %zu attachments", who.c_str(), cmd.clears.size(), exp.size() ) );
		c.check( fb->views.size() == exp.size(), pbt::fmt( "framebuffer: %s has %zu views for %zu attachments", who.c_str(), fb->views.size(), exp.size() ) );
		c.check( fb->rp == rp->h, "framebuffer: " + who + " made for another render pass" );
		std::vector< uint32_t > colours;
		int depth = -1;
		uint32_t width = size.width, height = size.height, layers = 1u;
		for ( size_t i = 0u; i < exp.size(); ++i )
		{
			auto & e = exp[i];
			auto & a = rp->atts[i];
			auto at = pbt::fmt( "%s attachment %zu (%s)", who.c_str(), i, name( e.k ) );
			c.check( a.format == e.format, pbt::fmt( "format: %s is %d instead of %d", at.c_str(), a.format, e.format ) );
			c.check( a.samples == VK_SAMPLE_COUNT_1_BIT, "samples: " + at );
			auto ops = declared( e.k );
			bool undefined = a.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED;
			if ( !reads( e.k ) ) c.check( undefined, pbt::fmt( "initial layout: %s is not an input, is taken from %s", at.c_str(), layoutName( a.initialLayout ).c_str() ) );
			c.check( loadOk( a.loadOp, ops.load, undefined ), pbt::fmt( "load: %s has load operation %d, declared %d, initial layout %s", at.c_str(), a.loadOp, ops.load, layoutName( a.initialLayout ).c_str() ) );
			c.check( loadOk( a.stencilLoadOp, ops.sload, undefined ), pbt::fmt( "stencil load: %s has %d, declared %d, initial layout %s", at.c_str(), a.stencilLoadOp, ops.sload, layoutName( a.initialLayout ).c_str() ) );
			c.check( a.storeOp == ops.store, pbt::fmt( "store: %s has %d, declared %d", at.c_str(), a.storeOp, ops.store ) );
			c.check( a.stencilStoreOp == ops.sstore, pbt::fmt( "stencil store: %s has %d, declared %d", at.c_str(), a.stencilStoreOp, ops.sstore ) );
			c.check( a.finalLayout != VK_IMAGE_LAYOUT_UNDEFINED && a.finalLayout != VK_IMAGE_LAYOUT_PREINITIALIZED, "final layout: " + at + " has none" );
			auto want = e.hasClear ? e.clear : VkClearValue{};
			auto n = colour( e.k ) ? 16u : 8u;
			c.check( memcmp( &cmd.clears[i], &want, n ) == 0, pbt::fmt( "clear value: %s has %x %x, declared %x %x", at.c_str(), cmd.clears[i].color.uint32[0], cmd.clears[i].color.uint32[1], want.color.uint32[0], want.color.uint32[1] ) );
			if ( colour( e.k ) ) colours.push_back( uint32_t( i ) );
			else depth = int( i );
			auto v = w.dev->find( fb->views[i], sim::Ty::View );
			c.check( v && v->alive, "framebuffer: " + at + " has no live view" );
			c.check( v->vci.image == e.image, pbt::fmt( "view: %s is bound to %s instead of %s", at.c_str(), w.dev->show( sim::u( v->vci.image ) ).c_str(), w.dev->show( sim::u( e.image ) ).c_str() ) );
			c.check( same( v->vci.subresourceRange, e.range ) && v->vci.viewType == e.type && v->vci.format == e.format, "view: " + at + " is bound to another range, type or format of its image" );
			width = std::max( width, e.extent.width );
			height = std::max( height, e.extent.height );
			layers = std::max( layers, e.range.layerCount );
		}
		c.check( rp->colorRefs.size() == colours.size(), pbt::fmt( "references: %s has %zu colour references for %zu colour attachments", who.c_str(), rp->colorRefs.size(), colours.size() ) );
		for ( size_t i = 0u; i < colours.size(); ++i )
		{
			c.check( rp->colorRefs[i].attachment == colours[i], pbt::fmt( "references: %s colour %zu refers to attachment %u instead of %u", who.c_str(), i, rp->colorRefs[i].attachment, colours[i] ) );
			c.check( rp->colorRefs[i].layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, pbt::fmt( "references: %s colour %zu is in %s", who.c_str(), i, layoutName( rp->colorRefs[i].layout ).c_str() ) );
		}
		c.check( rp->hasDepth == ( depth >= 0 ), "references: " + who + ( depth >= 0 ? " lacks its depth / stencil reference" : " refers to a depth / stencil attachment it does not have" ) );
		if ( depth >= 0 )
			c.check( rp->depthRef.attachment == uint32_t( depth ) && rp->depthRef.layout == exp[size_t( depth )].layout, pbt::fmt( "references: %s depth refers to attachment %u in %s instead of %d in %s", who.c_str(), rp->depthRef.attachment, layoutName( rp->depthRef.layout ).c_str(), depth, layoutName( exp[size_t( depth )].layout ).c_str() ) );
		c.check( rp->inputRefs.empty(), "references: " + who + " has input attachments" );
		c.check( fb->w == width && fb->hgt == height && fb->layers == layers, pbt::fmt( "size: framebuffer of %s is %ux%ux%u instead of %ux%ux%u", who.c_str(), fb->w, fb->hgt, fb->layers, width, height, layers ) );
		c.check( cmd.a[0] == 0 && cmd.a[1] == 0 && cmd.a[2] == int64_t( width ) && cmd.a[3] == int64_t( height ), pbt::fmt( "render area: %s has %d,%d %dx%d instead of 0,0 %ux%u", who.c_str(), int( cmd.a[0] ), int( cmd.a[1] ), int( cmd.a[2] ), int( cmd.a[3] ), width, height ) );
	}
	void blends( pbt::Case & c, World & w, sim::Cmd const & cmd, std::vector< Expected > const & exp, std::string const & who )
	{
		auto p = w.dev->find( cmd.h[0], sim::Ty::Pipeline );
		c.check( p && !p->compute, "pipeline: " + who + " binds no graphics pipeline" );
		size_t n = 0u;
		for ( auto & e : exp )
			if ( colour( e.k ) )
			{
				c.check( n < p->blends.size() && memcmp( &p->blends[n], &e.blend, sizeof( e.blend ) ) == 0, pbt::fmt( "blend: %s colour %zu does not have the declared blend state", who.c_str(), n ) );
				++n;
			}
		c.check( p->blends.size() == n, pbt::fmt( "blend: %s has %zu blend states for %zu colour attachments", who.c_str(), p->blends.size(), n ) );
	}

	std::vector< Expected > expected( World & w, Pass & p )
	{
		std::vector< Expected > r;
		for ( auto & a : p.images )
			if ( isRender( a.k ) )
			{
				auto & v = w.views[size_t( a.view( p.index ) )];
				auto & img = w.imgs[size_t( v.img )];
				auto m = v.range.baseMipLevel;
				// depth and stencil attachments come before the colour ones
				r.insert( colour( a.k ) ? r.end() : r.begin(), { img.fmt, a.k, v.id, w.vkImage( v.img ), v.range, v.type
					, { std::max( 1u, img.ext.width >> m ), std::max( 1u, img.ext.height >> m ), 1u }
					, a.hasClear && !reads( a.k ), a.clear, a.hasBlend ? a.blend : crg::DefaultBlendState
					, layoutOf( a.k, {}, w.separate ) } );
			}
		return r;
	}

	void run( pbt::Case & c, chk::Fam fam )
	{
		auto o = chk::family( c, fam );
		o.kinds = { PK::RenderPass, PK::Quad, PK::Mesh, PK::RenderPass, PK::Generic };
		o.maxBuffers = 1u;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		size_t atts = 0u, passes = 0u;
		chk::frames( c, w, g, [&]( uint32_t )
			{
				auto & cmds = w.commands( g );
				for ( auto & s : chk::spans( w, g ) )
				{
					auto & p = *s.p;
					bool render = p.kind == PK::RenderPass || p.kind == PK::Quad || p.kind == PK::Mesh;
					auto who = pbt::fmt( "p%u [index %u]", p.id, p.index );
					auto exp = expected( w, p );
					size_t begins = 0u, ends = 0u;
					bool inside = false;
					for ( size_t i = s.begin; i < s.end; ++i )
					{
						auto & cmd = cmds[i];
						if ( cmd.k == sim::CK::BeginRP )
						{
							++begins;
							inside = true;
							if ( render ) { begin( c, w, cmd, exp, p.renderSize, who ); ++passes; atts += exp.size(); }
						}
						else if ( cmd.k == sim::CK::EndRP ) { ++ends; inside = false; }
						else if ( cmd.k == sim::CK::BindPipeline && inside && ( p.kind == PK::Quad || p.kind == PK::Mesh ) ) blends( c, w, cmd, exp, who );
						else if ( cmd.k == sim::CK::Mark && cmd.s == w.mark( p, "pass" ) ) c.check( inside == render, "inside: " + who + ( render ? "'s commands are outside of its render pass" : " is inside of a render pass" ) );
					}
					c.check( begins == ( render ? 1u : 0u ) && ends == begins, pbt::fmt( "render passes: %s begins %zu and ends %zu", who.c_str(), begins, ends ) );
				}
				chk::requireMsg( c, w, "renderpass", { "" } );
			} );
		if ( passes >= 3u && atts >= 4u ) c.nt( c.sample );
	}
}
PBT_CHECK( "C06", "frames", 24000, 200000, "at least 3 render passes with at least 4 attachments" ) { run( c, chk::Fam::Renders ); }
PBT_CHECK( "C06", "dense", 18000, 150000, "at least 3 render passes with at least 4 attachments" ) { run( c, chk::Fam::Dense ); }
PBT_CHECK( "C06", "long", 9000, 80000, "at least 3 render passes with at least 4 attachments" ) { run( c, chk::Fam::Long ); }

// Targets of different sizes, levels and layer counts per pass index.
PBT_CHECK( "C06", "indices", 24000, 300000, "at least 2 pass indices with targets of different sizes recorded" )
{
	auto & t = c.t;
	Opts o;
	World w{ c, o };
	uint32_t n = t.range( 1u, 4u );
	bool depth = t.flag();
	bool second = t.flag();
	bool sharedDepth = false;
	struct Target { crg::ImageId img; crg::ImageViewId view; VkExtent3D ext; VkImageSubresourceRange range; VkFormat fmt; AK k; bool hasClear; VkClearValue clear; };
	std::vector< std::vector< Target > > targets; // [attachment][index]
	auto size = t.flag() ? VkExtent2D{ 1u, 1u } : VkExtent2D{ 0u, 0u };
	std::string log = pbt::fmt( "%u indices\n", n );
	crg::FrameGraph fg{ *w.handler, "G" };
	std::vector< VkExtent2D > ext( n );
	std::vector< uint32_t > lay( n );
	for ( uint32_t i = 0u; i < n; ++i ) { ext[i] = { 1u << t.below( 5u ), 1u << t.below( 5u ) }; lay[i] = t.chance( 30 ) ? t.range( 2u, 4u ) : 1u; }
	if ( t.flag() ) size = { t.range( 1u, 32u ), t.range( 1u, 32u ) };
	// A configured size larger than a target would not be a valid framebuffer.
	for ( uint32_t i = 0u; i < n; ++i ) { size.width = std::min( size.width, ext[i].width ); size.height = std::min( size.height, ext[i].height ); }
	auto add = [&]( AK k, bool multi )
	{
		targets.emplace_back();
		for ( uint32_t i = 0u; i < ( multi ? n : 1u ); ++i )
		{
			Target a;
			a.k = k;
			a.fmt = colour( k ) ? t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT } ) : VK_FORMAT_D32_SFLOAT;
			if ( i ) a.fmt = targets.back()[0].fmt;
			uint32_t mip = t.chance( 40 ) ? t.range( 1u, 3u ) : 0u;
			uint32_t base = t.chance( 30 ) ? t.below( 3u ) : 0u;
			a.ext = { ext[i].width, ext[i].height, 1u };
			a.range = { VkImageAspectFlags( colour( k ) ? VK_IMAGE_ASPECT_COLOR_BIT : VK_IMAGE_ASPECT_DEPTH_BIT ), mip, 1u, base, lay[i] };
			// Halving rounds down, but never below one.
			auto level0 = [&t, mip]( uint32_t e ){ return e == 1u ? t.range( 1u, ( 2u << mip ) - 1u ) : ( e << mip ) + t.below( 1u << mip ); };
			auto full = VkExtent3D{ level0( ext[i].width ), level0( ext[i].height ), 1u };
			a.img = chk::image( w, pbt::fmt( "i%zu_%u", targets.size(), i ), a.fmt, colour( k ) ? VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT : VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT, mip + 1u, base + lay[i], full );
			a.view = chk::view( w, pbt::fmt( "v%zu_%u", targets.size(), i ), a.img, a.range, lay[i] > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D );
			log += pbt::fmt( "%s index %u: %ux%u, mip %u of %ux%u, layers %u+%u\n", name( k ), i, a.ext.width, a.ext.height, mip, full.width, full.height, base, lay[i] );
			targets.back().push_back( a );
		}
	};
	add( t.pick( { AK::ColourOut, AK::ColourInOut } ), true );
	if ( second ) add( AK::ColourOut, true );
	if ( depth ) add( t.pick( { AK::DepthOut, AK::DepthInOut } ), true );
	(void)sharedDepth;
	uint32_t index = 0u;
	std::vector< uint32_t > inits;
	auto & fp = fg.createPass( "p", [&]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
		{
			crg::ru::Config cfg;
			cfg.maxPassCount = n;
			return std::make_unique< crg::RenderPass >( fp, ctx, rg
				, crg::RenderPass::Callbacks{ [&inits]( uint32_t i ){ inits.push_back( i ); }
					, []( crg::RecordContext &, VkCommandBuffer cb, uint32_t ){ sim::cmdMark( cb, "draw" ); }
					, crg::RenderPass::GetSubpassContentsCallback( [](){ return VK_SUBPASS_CONTENTS_INLINE; } )
					, crg::RenderPass::GetPassIndexCallback( [&index](){ return index; } ) }
				, size, cfg );
		} );
	std::vector< VkPipelineColorBlendAttachmentState > bl;
	for ( auto & a : targets )
	{
		crg::ImageViewIdArray ids;
		for ( auto & x : a ) ids.push_back( x.view );
		VkClearValue cl{};
		switch ( a[0].k )
		{
		case AK::ColourOut: for ( auto & f : cl.color.uint32 ) f = t.below( 100u ); fp.addOutputColourView( ids, cl ); break;
		case AK::ColourInOut: fp.addInOutColourView( ids ); break;
		case AK::DepthOut: cl.depthStencil = { 0.25f * float( t.below( 5u ) ), t.below( 256u ) }; fp.addOutputDepthView( ids, cl ); break;
		default: fp.addInOutDepthView( ids ); break;
		}
		for ( auto & x : a ) { x.clear = cl; x.hasClear = true; }
	}
	c.sample = log;
	auto rg = fg.compile( *w.ctx );
	auto frames = t.range( 2u, 8u );
	auto faulty = t.chance( 40 );
	std::set< std::pair< uint32_t, uint32_t > > sizes;
	std::set< uint32_t > seen;
	for ( uint32_t f = 0u; f < frames; ++f )
	{
		index = t.below( n );
		inits.clear();
		if ( faulty && t.chance( 30 ) )
		{
			// A call may fail: this frame is given up, and the next ones don't suffer from it.
			w.dev->faultAt = w.dev->faultable + t.below( 8u );
			w.dev->faulted.clear();
			bool failed = false;
			try { rg->run( sim::queueHandle() ); }
			catch ( crg::Exception & ) { failed = true; }
			w.dev->faultAt = -1;
			for ( auto i : inits ) if ( i == index ) seen.insert( i );
			if ( failed )
			{
				log += pbt::fmt( "frame %u, index %u: %s fails\n", f, index, w.dev->faulted.c_str() );
				c.sample = log;
				c.note( "fails: " + w.dev->faulted );
				w.dev->completeAll();
				continue;
			}
		}
		else rg->run( sim::queueHandle() );
		auto & cmds = w.dev->find( w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds;
		if ( c.verbose ) { fprintf( stderr, "%s--- frame %u index %u\n", f ? "" : log.c_str(), f, index ); for ( auto & cmd : cmds ) fprintf( stderr, "%s\n", sim::dump( cmd ).c_str() ); }
		std::vector< Expected > exp;
		for ( auto & a : targets )
		{
			auto & x = a[index];
			exp.insert( colour( x.k ) ? exp.end() : exp.begin(), { x.fmt, x.k, x.view, rg->createImage( x.img ), x.range, x.range.layerCount > 1u ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, x.ext, x.hasClear, x.clear, crg::DefaultBlendState, layoutOf( x.k, {}, w.separate ) } );
		}
		size_t begins = 0u;
		for ( auto & cmd : cmds )
			if ( cmd.k == sim::CK::BeginRP ) { ++begins; begin( c, w, cmd, exp, size, pbt::fmt( "frame %u index %u", f, index ) ); }
		c.check( begins == 1u, "render passes: not exactly one" );
		if ( seen.insert( index ).second ) c.check( inits.size() == 1u && inits[0] == index, pbt::fmt( "initialise: the pass was not told that the objects of index %u are new", index ) );
		for ( auto i : inits ) c.check( i == index, pbt::fmt( "initialise: index %u initialised while index %u is recorded", i, index ) );
		sizes.insert( { ext[index].width, ext[index].height } );
		chk::requireMsg( c, w, "renderpass", { "" } );
	}
	if ( sizes.size() >= 2u ) c.nt( log );
}
