// C07: layout bookkeeping against a map from (image, layer or slice, level) to state.
#include "frames.hpp"
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/RecordContext.hpp>
using namespace gg;

namespace
{
	using Cell = std::tuple< uint32_t, uint32_t, uint32_t >; // image, layer / slice, level
	using Model = std::map< Cell, crg::LayoutState >;

	struct I { crg::ImageId id; VkImageType type; VkFormat fmt; uint32_t w, h, d, mips, layers; };
	struct R { int img; VkImageViewType type; VkImageSubresourceRange range; crg::ImageViewId view; };

	std::vector< VkImageLayout > const layouts{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL
		, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_UNDEFINED };

	crg::LayoutState state( pbt::Tape & t )
	{
		static VkAccessFlags const acc[] = { VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_SHADER_WRITE_BIT, VK_ACCESS_TRANSFER_READ_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT };
		static VkPipelineStageFlags const stg[] = { VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
		auto l = t.pick( layouts );
		if ( t.chance( 30 ) ) return crg::makeLayoutState( l );
		return { l, { acc[t.below( 5u )], stg[t.below( 4u )] } };
	}
	std::string show( crg::LayoutState const & s ) { return pbt::fmt( "%s/%x/%x", layoutName( s.layout ).c_str(), s.state.access, s.state.pipelineStage ); }

	std::vector< I > genImages( World & w, pbt::Tape & t, uint32_t n )
	{
		std::vector< I > r;
		for ( uint32_t i = 0u; i < n; ++i )
		{
			I im;
			auto k = t.below( 8u );
			im.type = k == 0u ? VK_IMAGE_TYPE_1D : k <= 2u ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D;
			im.fmt = t.pick( { VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT } );
			if ( im.type == VK_IMAGE_TYPE_3D ) im.fmt = VK_FORMAT_R8G8B8A8_UNORM;
			im.w = 16u;
			im.h = im.type == VK_IMAGE_TYPE_1D ? 1u : 16u;
			im.d = im.type == VK_IMAGE_TYPE_3D ? t.pick( { 1u, 3u, 4u, 6u, 8u } ) : 1u;
			im.mips = t.range( 1u, 4u );
			im.layers = im.type == VK_IMAGE_TYPE_3D ? 1u : t.pick( { 1u, 2u, 3u, 6u, 12u } );
			im.id = w.handler->createImageId( crg::ImageData{ "i" + std::to_string( i ), im.layers % 6u == 0u && im.type == VK_IMAGE_TYPE_2D ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : im.type == VK_IMAGE_TYPE_3D ? VkImageCreateFlags( VK_IMAGE_CREATE_2D_ARRAY_COMPATIBLE_BIT ) : 0u, im.type, im.fmt, { im.w, im.h, im.d }, 0u, im.mips, im.layers } );
			r.push_back( im );
		}
		return r;
	}

	R genRange( World & w, std::vector< I > const & imgs, pbt::Tape & t, bool views3DSlices )
	{
		R r;
		r.img = int( t.below( uint32_t( imgs.size() ) ) );
		auto & im = imgs[size_t( r.img )];
		auto mip = t.below( im.mips );
		auto mips = 1u + t.below( im.mips - mip );
		if ( t.chance( 25 ) ) { mip = 0u; mips = im.mips; }
		uint32_t layer = t.below( im.layers ), layers = 1u + t.below( im.layers - layer );
		if ( t.chance( 25 ) ) { layer = 0u; layers = im.layers; }
		if ( im.type == VK_IMAGE_TYPE_3D )
		{
			r.type = VK_IMAGE_VIEW_TYPE_3D;
			layer = 0u;
			layers = 1u;
			if ( views3DSlices && t.chance( 30 ) )
			{
				// slices of one level, as layers
				mips = 1u;
				auto slices = std::max( 1u, im.d >> mip );
				layer = t.below( slices );
				layers = 1u + t.below( slices - layer );
				r.type = layers == 1u ? VK_IMAGE_VIEW_TYPE_2D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
			}
		}
		else if ( im.type == VK_IMAGE_TYPE_1D ) r.type = layers == 1u ? VK_IMAGE_VIEW_TYPE_1D : VK_IMAGE_VIEW_TYPE_1D_ARRAY;
		else if ( im.layers % 6u == 0u && t.chance( 20 ) )
		{
			layer = 0u;
			layers = im.layers == 12u && t.flag() ? 12u : 6u;
			r.type = layers == 12u ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE;
		}
		else r.type = layers == 1u && t.flag() ? VK_IMAGE_VIEW_TYPE_2D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
		VkImageAspectFlags aspect = im.fmt == VK_FORMAT_D32_SFLOAT ? VK_IMAGE_ASPECT_DEPTH_BIT : im.fmt == VK_FORMAT_D24_UNORM_S8_UINT ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
		r.range = { aspect, mip, mips, layer, layers };
		r.view = w.handler->createViewId( crg::ImageViewData{ "v", im.id, 0u, r.type, im.fmt, r.range } );
		return r;
	}
	std::string show( R const & r ) { return pbt::fmt( "i%d type %d mips %u+%u layers %u+%u", r.img, int( r.type ), r.range.baseMipLevel, r.range.levelCount, r.range.baseArrayLayer, r.range.layerCount ); }

	template< typename F >
	void cells( std::vector< I > const & imgs, R const & r, F f )
	{
		auto & im = imgs[size_t( r.img )];
		for ( uint32_t m = r.range.baseMipLevel; m < r.range.baseMipLevel + r.range.levelCount; ++m )
		{
			uint32_t b = r.range.baseArrayLayer, n = r.range.layerCount;
			if ( r.type == VK_IMAGE_VIEW_TYPE_3D ) { b = 0u; n = std::max( 1u, im.d >> m ); }
			for ( uint32_t l = b; l < b + n; ++l ) f( Cell{ uint32_t( r.img ), l, m } );
		}
	}

	void expect( pbt::Case & c, std::vector< I > const & imgs, R const & r, Model const & m, crg::LayoutState const & got, std::string const & where )
	{
		std::set< VkImageLayout > known;
		VkAccessFlags access{};
		VkPipelineStageFlags stage{};
		cells( imgs, r, [&]( Cell const & cl )
			{
				auto it = m.find( cl );
				if ( it == m.end() ) return;
				known.insert( it->second.layout );
				access |= it->second.state.access;
				stage |= it->second.state.pipelineStage;
			} );
		auto s = where + " of " + show( r ) + " is " + show( got );
		if ( known.empty() )
			c.check( got.layout == VK_IMAGE_LAYOUT_UNDEFINED && got.state.access == 0u, "unset: " + s + " though nothing was set" );
		else if ( known.size() == 1u )
		{
			c.check( got.layout == *known.begin(), "layout: " + s + ", expected " + layoutName( *known.begin() ) );
			c.check( got.state.access == access && got.state.pipelineStage == stage, "state: " + s + pbt::fmt( ", expected %x/%x", access, stage ) );
		}
		else
		{
			c.check( known.count( got.layout ) != 0u, "mixed: " + s + ", which none of its subresources has" );
			access = 0u;
			stage = 0u;
			cells( imgs, r, [&]( Cell const & cl ){ auto it = m.find( cl ); if ( it != m.end() && it->second.layout == got.layout ) { access |= it->second.state.access; stage |= it->second.state.pipelineStage; } } );
			c.check( got.state.access == access && got.state.pipelineStage == stage, "mixed: " + s + pbt::fmt( ", expected %x/%x", access, stage ) );
		}
	}
}

PBT_CHECK( "C07", "map", 70000, 600000, "at least 3 ranges set and 3 read" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	auto imgs = genImages( w, t, t.range( 1u, 3u ) );
	// Stores: handlers, record contexts, inputs and outputs of a graph.
	uint32_t const nh = t.range( 1u, 3u ), nc = t.range( 1u, 2u );
	std::vector< crg::LayerLayoutStatesHandler > handlers( nh );
	std::vector< crg::RecordContext > contexts;
	for ( uint32_t i = 0u; i < nc; ++i ) contexts.emplace_back( *w.handler );
	crg::FrameGraph fg{ *w.handler, "G" };
	auto & grp = t.flag() ? fg.createPassGroup( "g" ) : fg.getDefaultGroup();
	std::vector< Model > hm( nh ), cm( nc ), nm( nc );
	std::vector< std::map< VkBuffer, crg::AccessState > > bm( nc );
	// when each state of a context was set: the later one is taken over from what was recorded before
	std::vector< std::map< Cell, uint64_t > > ct( nc );
	std::vector< std::map< VkBuffer, uint64_t > > bt( nc );
	uint64_t now = 0u;
	Model in, out;
	std::vector< VkBuffer > bufs;
	for ( uint32_t i = 0u; i < 2u; ++i ) bufs.push_back( w.dev->makeBuffer( 256u, "b" ) );
	std::string log;
	size_t sets = 0u, gets = 0u;
	auto ops = t.range( 1u, c.thorough ? 60u : 30u );
	auto set = [&]( Model & m, R const & r, crg::LayoutState const & s ){ cells( imgs, r, [&]( Cell const & cl ){ m[cl] = s; } ); };
	auto fill = []( Model & m, Model const & from ){ for ( auto & e : from ) m.insert( e ); };
	for ( uint32_t o = 0u; o < ops; ++o )
	{
		auto r = genRange( w, imgs, t, true );
		auto & im = imgs[size_t( r.img )];
		auto op = t.below( 12u );
		if ( op < 5u )
		{
			auto s = state( t );
			auto store = t.below( 4u );
			bool byView = t.flag();
			log += pbt::fmt( "set store %u %s = %s; ", store, show( r ).c_str(), show( s ).c_str() );
			++sets;
			if ( store == 0u )
			{
				auto i = t.below( nh );
				if ( byView ) handlers[i].setLayoutState( r.view, s ); else handlers[i].setLayoutState( im.id, r.type, r.range, s );
				set( hm[i], r, s );
			}
			else if ( store == 1u )
			{
				auto i = t.below( nc );
				if ( byView ) contexts[i].setLayoutState( r.view, s ); else contexts[i].setLayoutState( im.id, r.type, r.range, s );
				set( cm[i], r, s );
				++now;
				cells( imgs, r, [&]( Cell const & cl ){ ct[i][cl] = now; } );
			}
			else
			{
				auto give = [&]( auto & to )
				{
					if ( store == 2u ) { if ( byView ) to.addInput( r.view, s ); else to.addInput( im.id, r.type, r.range, s ); }
					else if ( byView ) to.addOutput( r.view, s );
					else to.addOutput( im.id, r.type, r.range, s );
				};
				if ( t.flag() ) give( fg ); else give( grp );
				set( store == 2u ? in : out, r, s );
			}
		}
		else if ( op < 9u )
		{
			++gets;
			bool byView = t.flag();
			for ( uint32_t i = 0u; i < nh; ++i ) expect( c, imgs, r, hm[i], byView ? handlers[i].getLayoutState( r.view ) : handlers[i].getLayoutState( im.id, r.type, r.range ), "handler" );
			for ( uint32_t i = 0u; i < nc; ++i )
			{
				expect( c, imgs, r, cm[i], byView ? contexts[i].getLayoutState( r.view ) : contexts[i].getLayoutState( im.id, r.type, r.range ), "context" );
				expect( c, imgs, r, nm[i], byView ? contexts[i].getNextLayoutState( r.view ) : contexts[i].getNextLayoutState( im.id, r.type, r.range ), "next" );
			}
			expect( c, imgs, r, in, byView ? fg.getInputLayoutState( r.view ) : fg.getInputLayoutState( im.id, r.type, r.range ), "input" );
			expect( c, imgs, r, out, byView ? fg.getOutputLayoutState( r.view ) : fg.getOutputLayoutState( im.id, r.type, r.range ), "output" );
		}
		else if ( op == 9u )
		{
			auto a = t.below( nh ), b = t.below( nh );
			log += pbt::fmt( "merge handler %u into %u; ", b, a );
			if ( t.flag() ) { handlers[a] = crg::LayerLayoutStatesHandler{ handlers[b].images }; hm[a] = hm[b]; c.note( "copy" ); }
			else { handlers[a].addStates( handlers[b] ); fill( hm[a], hm[b] ); c.note( "merge" ); }
		}
		else if ( op == 10u )
		{
			auto a = t.below( nc ), b = t.below( nc );
			log += pbt::fmt( "merge context %u into %u; ", b, a );
			if ( a == b ) continue;
			auto how = t.below( 3u );
			auto merge = [how]( auto & m, auto & times, auto const & from, auto const & fromTimes )
			{
				for ( auto & [k, s] : from )
				{
					auto time = fromTimes.at( k );
					if ( !m.count( k ) )
					{
						if ( how == 2u ) continue;
						m[k] = s;
						times[k] = time;
					}
					else if ( how && times[k] < time ) { m[k] = s; times[k] = time; }
				}
			};
			if ( how == 0u ) { contexts[a].addResourceStates( contexts[b] ); c.note( "add what is missing" ); }
			else if ( how == 1u ) { contexts[a].addStates( contexts[b] ); c.note( "add what is missing or later" ); }
			else { contexts[a].updateStates( contexts[b] ); c.note( "update what is known" ); }
			merge( cm[a], ct[a], cm[b], ct[b] );
			merge( bm[a], bt[a], bm[b], bt[b] );
		}
		else
		{
			auto a = t.below( nc );
			if ( t.flag() )
			{
				auto prev = contexts[a].getCurrPipelineState(), curr = contexts[a].getNextPipelineState();
				crg::PipelineState next{ VkAccessFlags( 1u << t.below( 4u ) ), VkPipelineStageFlags( 1u << t.below( 6u ) ) };
				auto h = t.below( nh );
				contexts[a].setNextPipelineState( next, handlers[h].images );
				nm[a] = hm[h];
				auto same = []( crg::PipelineState const & x, crg::PipelineState const & y ){ return x.access == y.access && x.pipelineStage == y.pipelineStage; };
				c.check( same( contexts[a].getPrevPipelineState(), prev ) && same( contexts[a].getCurrPipelineState(), curr ) && same( contexts[a].getNextPipelineState(), next ), "shift: the previous, current and next pipeline states did not shift" );
			}
			else
			{
				auto b = bufs[t.below( 2u )];
				crg::BufferSubresourceRange br{ t.below( 2u ) * 64u, 64u };
				auto it = bm[a].find( b );
				auto got = contexts[a].getAccessState( b, br );
				if ( it == bm[a].end() ) c.check( got.access == 0u && got.pipelineStage == VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, "buffer: a state though none was set" );
				else c.check( got.access == it->second.access && got.pipelineStage == it->second.pipelineStage, "buffer: another state than the one set" );
				crg::AccessState s{ VkAccessFlags( 1u << t.below( 6u ) ), VkPipelineStageFlags( 1u << t.below( 12u ) ) };
				contexts[a].setAccessState( b, br, s );
				bm[a][b] = s;
				bt[a][b] = ++now;
				got = contexts[a].getAccessState( b, br );
				c.check( got.access == s.access && got.pipelineStage == s.pipelineStage, "buffer: another state than the one just set" );
			}
		}
	}
	// Every cell, at the end, in every store.
	for ( size_t i = 0u; i < imgs.size(); ++i )
		for ( uint32_t m = 0u; m < imgs[i].mips; ++m )
		{
			bool is3D = imgs[i].type == VK_IMAGE_TYPE_3D;
			uint32_t n = is3D ? std::max( 1u, imgs[i].d >> m ) : imgs[i].layers;
			for ( uint32_t l = 0u; l < n; ++l )
			{
				R r{ int( i ), imgs[i].type == VK_IMAGE_TYPE_1D ? VK_IMAGE_VIEW_TYPE_1D : VK_IMAGE_VIEW_TYPE_2D, { VK_IMAGE_ASPECT_COLOR_BIT, m, 1u, l, 1u }, crg::ImageViewId{} };
				for ( uint32_t k = 0u; k < nh; ++k ) expect( c, imgs, r, hm[k], handlers[k].getLayoutState( imgs[i].id, r.type, r.range ), "handler" );
				for ( uint32_t k = 0u; k < nc; ++k ) expect( c, imgs, r, cm[k], contexts[k].getLayoutState( imgs[i].id, r.type, r.range ), "context" );
				expect( c, imgs, r, in, fg.getInputLayoutState( imgs[i].id, r.type, r.range ), "input" );
				expect( c, imgs, r, out, fg.getOutputLayoutState( imgs[i].id, r.type, r.range ), "output" );
			}
			if ( is3D ) c.note( "3D" );
		}
	c.sample = log;
	if ( sets >= 3u && gets >= 3u ) c.nt( log );
}

// Transitions recorded through the context.
PBT_CHECK( "C07", "barriers", 60000, 400000, "at least 2 transitions recorded" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	auto imgs = genImages( w, t, t.range( 1u, 2u ) );
	std::string log;
	size_t recorded = 0u;
	{
		crg::ContextResourcesCache cache{ *w.handler, *w.ctx };
		crg::RecordContext ctx{ cache };
		Model m;
		std::map< VkBuffer, crg::AccessState > bm;
		std::vector< VkBuffer > bufs;
		for ( uint32_t i = 0u; i < 2u; ++i ) bufs.push_back( w.dev->makeBuffer( 256u, "b" ) );
		VkCommandPool pool{};
		VkCommandPoolCreateInfo pci{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO };
		( *w.ctx ).vkCreateCommandPool( w.ctx->device, &pci, nullptr, &pool );
		VkCommandBuffer cb{};
		VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, pool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1u };
		w.ctx->vkAllocateCommandBuffers( w.ctx->device, &ai, &cb );
		VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO };
		w.ctx->vkBeginCommandBuffer( cb, &bi );
		auto & cmds = w.dev->find( sim::u( cb ), sim::Ty::CmdBuf )->cmds;
		auto ops = t.range( 1u, c.thorough ? 40u : 20u );
		for ( uint32_t o = 0u; o < ops; ++o )
		{
			if ( t.chance( 15 ) )
			{
				// a buffer
				auto b = bufs[t.below( 2u )];
				static VkAccessFlags const acc[] = { VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_SHADER_WRITE_BIT, VK_ACCESS_TRANSFER_READ_BIT, VK_ACCESS_TRANSFER_WRITE_BIT };
				crg::AccessState want{ acc[t.below( 4u )], t.flag() ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_TRANSFER_BIT };
				crg::AccessState init{ acc[t.below( 4u )], VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT };
				bool withInit = t.flag(), force = t.chance( 25 );
				auto from = cmds.size();
				if ( withInit ) ctx.memoryBarrier( cb, b, { 0u, 64u }, init.access, init.pipelineStage, want, force );
				else ctx.memoryBarrier( cb, b, { 0u, 64u }, want, force );
				auto it = bm.find( b );
				bool write = ( want.access & ( VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT ) ) != 0u;
				crg::AccessState src = it != bm.end() ? it->second : withInit ? init : crg::AccessState{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
				bool needed = force || write || src.access != want.access || src.pipelineStage != want.pipelineStage;
				c.check( cmds.size() == from + ( needed ? 1u : 0u ), needed ? "buffer: no barrier recorded" : "buffer: a barrier for a read after the same read" );
				if ( needed )
				{
					auto & cmd = cmds.back();
					c.check( cmd.k == sim::CK::Barrier && cmd.bb.size() == 1u && cmd.ib.empty(), "buffer: not one buffer barrier" );
					auto & x = cmd.bb[0];
					c.check( x.buffer == b && x.srcAccessMask == src.access && VkPipelineStageFlags( cmd.a[0] ) == src.pipelineStage, "buffer: the source of the barrier is not the last state" );
					c.check( x.dstAccessMask == want.access && VkPipelineStageFlags( cmd.a[1] ) == want.pipelineStage, "buffer: the destination of the barrier is not the wanted state" );
				}
				bm[b] = want;
				auto got = ctx.getAccessState( b, { 0u, 64u } );
				if ( bm.count( b ) ) c.check( got.access == want.access && got.pipelineStage == want.pipelineStage, "buffer: the state is not the wanted one" );
				continue;
			}
			auto r = genRange( w, imgs, t, false );
			auto & im = imgs[size_t( r.img )];
			auto want = state( t );
			bool force = t.chance( 20 ), withInit = t.chance( 40 );
			auto init = t.pick( layouts );
			auto how = t.below( 3u );
			if ( how == 2u ) r.type = VkImageViewType( im.type ); // the overloads without kind of view
			bool splitDS = im.fmt == VK_FORMAT_D24_UNORM_S8_UINT && t.flag();
			auto range = r.range;
			if ( splitDS && !w.separate && how != 0u ) range.aspectMask = t.flag() ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
			log += pbt::fmt( "%s to %s%s from %s; ", show( r ).c_str(), show( want ).c_str(), force ? " (forced)" : "", withInit ? layoutName( init ).c_str() : "-" );
			auto before = m;
			auto from = cmds.size();
			if ( how == 0u ) { if ( withInit ) ctx.memoryBarrier( cb, r.view, init, want, force ); else ctx.memoryBarrier( cb, r.view, want, force ); }
			else if ( how == 1u ) { if ( withInit ) ctx.memoryBarrier( cb, im.id, r.type, range, init, want, force ); else ctx.memoryBarrier( cb, im.id, r.type, range, want, force ); }
			else { if ( withInit ) ctx.memoryBarrier( cb, im.id, range, init, want, force ); else ctx.memoryBarrier( cb, im.id, range, want, force ); }
			if ( !withInit ) init = VK_IMAGE_LAYOUT_UNDEFINED;
			// subresources of the image the recorded barriers cover
			std::map< std::pair< uint32_t, uint32_t >, std::vector< std::pair< sim::Cmd const *, VkImageMemoryBarrier const * > > > covered;
			VkImage vk = cache.createImage( im.id );
			for ( size_t i = from; i < cmds.size(); ++i )
			{
				auto & cmd = cmds[i];
				c.check( cmd.k == sim::CK::Barrier && cmd.bb.empty() && !cmd.ib.empty(), "barrier: something else than an image barrier was recorded" );
				for ( auto & b : cmd.ib )
				{
					++recorded;
					c.check( b.image == vk, "barrier: on another image" );
					c.check( ( b.subresourceRange.aspectMask & r.range.aspectMask ) == r.range.aspectMask, "barrier: does not cover the aspects that share their layout" );
					for ( uint32_t l = 0u; l < b.subresourceRange.layerCount; ++l )
						for ( uint32_t k = 0u; k < b.subresourceRange.levelCount; ++k )
							covered[{ b.subresourceRange.baseArrayLayer + l, b.subresourceRange.baseMipLevel + k }].push_back( { &cmd, &b } );
				}
			}
			bool is3D = r.type == VK_IMAGE_VIEW_TYPE_3D;
			std::set< std::pair< uint32_t, uint32_t > > inRange;
			cells( imgs, r, [&]( Cell const & cl )
				{
					auto [ix, l, k] = cl;
					std::pair< uint32_t, uint32_t > sub{ is3D ? 0u : l, k };
					inRange.insert( sub );
					auto it = before.find( cl );
					bool known = it != before.end() && it->second.layout != VK_IMAGE_LAYOUT_UNDEFINED;
					crg::LayoutState cur = known ? it->second : crg::makeLayoutState( init );
					auto n = covered.count( sub ) ? covered[sub].size() : 0u;
					auto what = pbt::fmt( "layer %u level %u, in %s, wanted %s", l, k, show( cur ).c_str(), show( want ).c_str() );
					c.check( n <= 1u, "barrier: several barriers at once on " + what );
					bool needed = force || ( want.layout != VK_IMAGE_LAYOUT_UNDEFINED && ( cur.layout != want.layout || ( cur.state.pipelineStage & ~want.state.pipelineStage ) != 0u ) );
					c.check( !needed || n == 1u, "barrier: none on " + what );
					if ( want.layout == VK_IMAGE_LAYOUT_UNDEFINED && !force ) c.check( n == 0u, "barrier: to no layout on " + what );
					if ( n )
					{
						auto [cmd, b] = covered[sub][0];
						c.check( b->oldLayout == cur.layout, "barrier: from " + layoutName( b->oldLayout ) + " on " + what );
						c.check( b->newLayout == want.layout && b->dstAccessMask == want.state.access && VkPipelineStageFlags( cmd->a[1] ) == want.state.pipelineStage, "barrier: not to the wanted state on " + what );
						if ( known )
						{
							c.check( ( cur.state.access & ~b->srcAccessMask ) == 0u, "barrier: source access leaves out the last one on " + what );
							c.check( ( cur.state.pipelineStage & ~VkPipelineStageFlags( cmd->a[0] ) ) == 0u, "barrier: source stage leaves out the last one on " + what );
						}
						m[cl] = want;
					}
					else if ( !known && init != VK_IMAGE_LAYOUT_UNDEFINED ) { m[cl] = cur; c.note( "given layout needs no transition" ); }
				} );
			for ( auto & e : covered ) c.check( inRange.count( e.first ) != 0u, "barrier: on a subresource out of the range" );
			// the map followed
			expect( c, imgs, r, m, ctx.getLayoutState( im.id, r.type, r.range ), "state" );
			R other = genRange( w, imgs, t, false );
			expect( c, imgs, other, m, ctx.getLayoutState( other.view ), "state" );
		}
		w.ctx->vkEndCommandBuffer( cb );
		w.ctx->vkFreeCommandBuffers( w.ctx->device, pool, 1u, &cb );
		w.ctx->vkDestroyCommandPool( w.ctx->device, pool, nullptr );
	}
	c.sample = log;
	if ( recorded >= 2u ) c.nt( log );
}

// Final states of graphs that run: what a run leaves alone keeps its state.
PBT_CHECK( "C07", "final", 8000, 60000, "at least 2 frames with uses" )
{
	Opts o;
	o.frames = 4u;
	o.merged = false;
	World w{ c, o };
	w.genImages();
	w.genBuffers();
	auto & g = w.genGraph( "G" );
	Model m;
	size_t used = 0u;
	chk::frames( c, w, g, [&]( uint32_t )
		{
			for ( size_t i = 0u; i < w.views.size(); ++i )
			{
				auto & v = w.views[i];
				if ( !v.sources.empty() ) continue;
				auto a = g.fg->getFinalLayoutState( v.id, 0u );
				auto b = g.fg->getFinalLayoutState( w.imgs[size_t( v.img )].id, v.type, v.range );
				c.check( a.layout == b.layout && a.state.access == b.state.access && a.state.pipelineStage == b.state.pipelineStage, "entry: the final state of a view differs by the way it is asked" );
				if ( a.layout != VK_IMAGE_LAYOUT_UNDEFINED ) ++used;
			}
		} );
	if ( used >= 2u ) c.nt( c.sample );
}
