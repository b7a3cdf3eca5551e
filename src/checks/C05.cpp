// C05: buffer hand-over between passes is always covered by barriers.
#include "frames.hpp"
using namespace gg;

namespace
{
	void run( pbt::Case & c, Opts o )
	{
		o.maxImages = 2u;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		size_t handovers = 0u;
		chk::frames( c, w, g, [&]( uint32_t )
			{
				chk::BufModel m{ c };
				chk::cut( m, w );
				chk::feed( m, c, w, g );
				handovers += m.handovers;
				chk::requireMsg( c, w, "bounds", { "buffer barrier" } );
				chk::requireMsg( c, w, "stage", { "barrier" } );
			} );
		if ( handovers >= 2u ) c.nt( c.sample );
	}
}

PBT_CHECK( "C05", "frames", 12000, 300000, "at least 2 hand-overs between uses of a buffer" )
{
	Opts o;
	run( c, o );
}
PBT_CHECK( "C05", "dense", 12000, 300000, "at least 2 hand-overs between uses of a buffer" )
{
	Opts o;
	o.maxBuffers = 2u;
	o.minPasses = 4u;
	o.maxPasses = c.thorough ? 14u : 9u;
	o.images = c.t.chance( 30 );
	o.kinds = { PK::Generic, PK::Compute, PK::Generic, PK::BufferCopy, PK::Generic };
	run( c, o );
}
PBT_CHECK( "C05", "copies", 6000, 150000, "at least 2 hand-overs between uses of a buffer" )
{
	Opts o;
	o.maxBuffers = 3u;
	o.minPasses = 3u;
	o.maxPasses = 8u;
	o.kinds = { PK::BufferCopy, PK::BufToImg, PK::ImgToBuf, PK::Compute };
	run( c, o );
}

// Barriers asked for directly, with any access and stage a buffer may be used with.
PBT_CHECK( "C05", "direct", 40000, 400000, "at least 3 barriers recorded" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	std::string log;
	size_t recorded = 0u;
	{
		crg::ContextResourcesCache cache{ *w.handler, *w.ctx };
		crg::RecordContext ctx{ cache };
		struct B { VkBuffer vk; crg::BufferSubresourceRange range; bool known; crg::AccessState state; };
		std::vector< B > bufs;
		for ( uint32_t i = 0u, n = t.range( 1u, 3u ); i < n; ++i ) bufs.push_back( { w.dev->makeBuffer( 256u, "b" ), { t.below( 3u ) * 64u, 64u }, false, {} } );
		VkCommandPool pool{};
		VkCommandPoolCreateInfo pci{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO };
		w.ctx->vkCreateCommandPool( w.ctx->device, &pci, nullptr, &pool );
		VkCommandBuffer cb{};
		VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, pool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1u };
		w.ctx->vkAllocateCommandBuffers( w.ctx->device, &ai, &cb );
		VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO };
		w.ctx->vkBeginCommandBuffer( cb, &bi );
		auto & cmds = w.dev->find( sim::u( cb ), sim::Ty::CmdBuf )->cmds;
		static VkAccessFlags const writes[]{ VK_ACCESS_SHADER_WRITE_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, VK_ACCESS_HOST_WRITE_BIT, VK_ACCESS_MEMORY_WRITE_BIT };
		static VkAccessFlags const reads[]{ VK_ACCESS_SHADER_READ_BIT, VK_ACCESS_TRANSFER_READ_BIT, VK_ACCESS_HOST_READ_BIT, VK_ACCESS_MEMORY_READ_BIT, VK_ACCESS_UNIFORM_READ_BIT, VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_ACCESS_INDEX_READ_BIT, VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT };
		// the stages an access may come with
		auto state = [&]()
		{
			crg::AccessState s{ 0u, 0u };
			auto what = t.below( 3u );
			if ( what != 1u ) s.access |= reads[t.below( 8u )];
			if ( what != 0u ) s.access |= writes[t.below( 4u )];
			static VkPipelineStageFlags const stages[]{ VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_PIPELINE_STAGE_HOST_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT };
			if ( t.chance( 70 ) )
			{
				if ( s.access & ( VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_UNIFORM_READ_BIT ) ) s.pipelineStage |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
				if ( s.access & ( VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_TRANSFER_READ_BIT ) ) s.pipelineStage |= VK_PIPELINE_STAGE_TRANSFER_BIT;
				if ( s.access & ( VK_ACCESS_HOST_WRITE_BIT | VK_ACCESS_HOST_READ_BIT ) ) s.pipelineStage |= VK_PIPELINE_STAGE_HOST_BIT;
			}
			if ( !s.pipelineStage ) s.pipelineStage = stages[t.below( 5u )];
			return s;
		};
		auto text = []( crg::AccessState const & s ){ return pbt::fmt( "%x/%x", s.access, s.pipelineStage ); };
		for ( uint32_t o = 0u, ops = t.range( 1u, c.thorough ? 40u : 20u ); o < ops; ++o )
		{
			auto i = t.below( uint32_t( bufs.size() ) );
			auto & b = bufs[i];
			auto how = t.below( 10u );
			auto want = b.known && t.chance( 50 ) ? b.state : state();
			if ( how == 0u )
			{
				log += pbt::fmt( "b%u set to %s; ", i, text( want ).c_str() );
				ctx.setAccessState( b.vk, b.range, want );
			}
			else
			{
				bool withInit = t.flag(), force = t.chance( 15 );
				crg::AccessState init = withInit ? state() : crg::AccessState{ 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
				auto from = cmds.size();
				log += pbt::fmt( "b%u to %s%s%s; ", i, text( want ).c_str(), withInit ? ( " from " + text( init ) ).c_str() : "", force ? ", forced" : "" );
				if ( withInit ) ctx.memoryBarrier( cb, b.vk, b.range, init.access, init.pipelineStage, want, force );
				else ctx.memoryBarrier( cb, b.vk, b.range, want, force );
				auto src = b.known ? b.state : init;
				bool write = false;
				for ( auto a : writes ) write = write || ( want.access & a );
				bool needed = force || write || src.access != want.access || src.pipelineStage != want.pipelineStage;
				size_t on = 0u;
				for ( size_t k = from; k < cmds.size(); ++k )
				{
					auto & cmd = cmds[k];
					c.check( cmd.k == sim::CK::Barrier && cmd.ib.empty(), "direct: something else than a buffer barrier is recorded: " + log );
					for ( auto & x : cmd.bb )
					{
						++recorded;
						++on;
						c.check( x.buffer == b.vk, "direct: barrier on another buffer: " + log );
						c.check( x.srcAccessMask == src.access && VkPipelineStageFlags( cmd.a[0] ) == src.pipelineStage, pbt::fmt( "direct: the barrier's source is %x/%llx, not the last use: %s", x.srcAccessMask, ( unsigned long long )cmd.a[0], log.c_str() ) );
						c.check( x.dstAccessMask == want.access && VkPipelineStageFlags( cmd.a[1] ) == want.pipelineStage, pbt::fmt( "direct: the barrier's destination is %x/%llx, not the new use: %s", x.dstAccessMask, ( unsigned long long )cmd.a[1], log.c_str() ) );
						c.check( x.offset <= b.range.offset && ( x.size == VK_WHOLE_SIZE || x.offset + x.size >= b.range.offset + b.range.size ), "direct: the barrier does not cover the range: " + log );
						c.check( x.srcQueueFamilyIndex == x.dstQueueFamilyIndex, "direct: the barrier changes the owner: " + log );
					}
				}
				c.check( on == 1u || !needed, ( on ? "direct: several barriers: " : "direct: no barrier: " ) + log );
				c.note( !needed ? "a read after the same read" : force ? "forced" : write ? "write" : "another use" );
				if ( !needed && !b.known ) c.note( "a read of what is said to be read alike" );
			}
			b.known = true;
			b.state = want;
			for ( uint32_t k = 0u; k < bufs.size(); ++k )
			{
				auto got = ctx.getAccessState( bufs[k].vk, bufs[k].range );
				if ( bufs[k].known ) c.check( got.access == bufs[k].state.access && got.pipelineStage == bufs[k].state.pipelineStage, pbt::fmt( "direct: b%u is said to be %s: %s", k, text( got ).c_str(), log.c_str() ) );
			}
		}
		w.ctx->vkEndCommandBuffer( cb );
		w.ctx->vkFreeCommandBuffers( w.ctx->device, pool, 1u, &cb );
		w.ctx->vkDestroyCommandPool( w.ctx->device, pool, nullptr );
	}
	c.sample = log;
	if ( recorded >= 3u ) c.nt( log );
}
