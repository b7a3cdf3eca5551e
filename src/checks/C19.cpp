// C19: what a pass declares as cleared beforehand is cleared, entirely and once; nothing else is.
#include "frames.hpp"
using namespace gg;

namespace
{
	using sim::CK;
	using Sub = std::array< uint64_t, 3u >; // image, layer, mip

	std::set< Sub > subs( uint64_t img, VkImageSubresourceRange const & r )
	{
		std::set< Sub > s;
		auto o = sim::g->find( img, sim::Ty::Image );
		auto layers = r.layerCount == VK_REMAINING_ARRAY_LAYERS ? o->ici.arrayLayers - r.baseArrayLayer : r.layerCount;
		auto mips = r.levelCount == VK_REMAINING_MIP_LEVELS ? o->ici.mipLevels - r.baseMipLevel : r.levelCount;
		for ( uint32_t l = 0u; l < layers; ++l )
			for ( uint32_t m = 0u; m < mips; ++m ) s.insert( { img, r.baseArrayLayer + l, r.baseMipLevel + m } );
		return s;
	}

	// What barriers have done, over all the frames.
	struct State
	{
		struct Im { VkImageLayout layout; VkAccessFlags access; VkPipelineStageFlags stage; VkAccessFlags src; };
		std::map< Sub, Im > images;
		std::map< std::pair< uint64_t, VkDeviceSize >, Im > buffers; // by 4 bytes
		VkDeviceSize sizeOf( uint64_t b )const { return sim::g->find( b, sim::Ty::Buffer )->size; }
		void barrier( sim::Cmd const & x )
		{
			for ( auto & b : x.ib )
				for ( auto & s : subs( sim::u( b.image ), b.subresourceRange ) )
					images[s] = { b.newLayout, b.dstAccessMask, VkPipelineStageFlags( x.a[1] ), b.srcAccessMask };
			for ( auto & b : x.bb )
			{
				auto h = sim::u( b.buffer );
				auto end = b.size == VK_WHOLE_SIZE ? sizeOf( h ) : b.offset + b.size;
				for ( auto o = b.offset & ~VkDeviceSize( 3u ); o < end; o += 4u ) buffers[{ h, o }] = { VK_IMAGE_LAYOUT_UNDEFINED, b.dstAccessMask, VkPipelineStageFlags( x.a[1] ), b.srcAccessMask };
			}
		}
		void renderPass( sim::Cmd const & x )
		{
			auto rp = sim::g->find( x.h[0], sim::Ty::RenderPass );
			auto fb = sim::g->find( x.h[1], sim::Ty::Framebuffer );
			for ( size_t i = 0u; i < fb->views.size(); ++i )
			{
				auto v = sim::g->find( fb->views[i], sim::Ty::View );
				for ( auto & s : subs( sim::u( v->vci.image ), v->vci.subresourceRange ) )
					images[s] = { rp->atts[i].finalLayout, ~VkAccessFlags{}, ~VkPipelineStageFlags{}, 0u };
			}
		}
	};

	void clears( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		auto pct = t.pick( { 20u, 60u, 100u } );
		for ( auto & p : g.passes )
		{
			for ( auto & a : p->images ) if ( ( a.k == AK::StorageOut || a.k == AK::StorageInOut ) && t.chance( pct ) ) a.k = AK::StorageClear;
			for ( auto & a : p->buffers ) if ( ( a.k == BK::StorageOut || a.k == BK::StorageInOut ) && t.chance( pct ) ) a.k = BK::StorageClear;
		}
		State st;
		std::set< Sub > used, usedBuf;
		size_t again = 0u, others = 0u, depth = 0u, ranged = 0u, merged = 0u, clearsSeen = 0u;
		chk::frames( c, w, g, [&]( uint32_t f )
		{
			auto & cmds = w.commands( g );
			auto desc = w.describe();
			std::set< size_t > inSpan;
			for ( auto & [v, layout] : g.inputs ) // handed over so by the user
				for ( auto & q : subs( sim::u( w.vkImage( w.views[size_t( v )].img ) ), w.views[size_t( v )].range ) )
					st.images[q] = { layout, ~VkAccessFlags{}, ~VkPipelineStageFlags{}, 0u };
			for ( auto & s : chk::spans( w, g ) )
			{
				auto & p = *s.p;
				auto where = pbt::fmt( " by p%u in frame %u\n", p.id, f ) + desc;
				struct Due { std::set< Sub > subs; uint64_t img; bool color; bool bufferDue; uint64_t buf; VkDeviceSize b, e; size_t done; VkImageAspectFlags aspect; };
				std::vector< Due > due;
				for ( auto & a : p.images )
				{
					if ( a.k != AK::StorageClear || a.noTransition ) { ++others; continue; }
					auto & v = w.views[size_t( a.view( p.index ) )];
					auto img = sim::u( w.vkImage( v.img ) );
					bool color = w.imgs[size_t( v.img )].aspect == VK_IMAGE_ASPECT_COLOR_BIT;
					due.push_back( { subs( img, v.range ), img, color, false, 0u, 0u, 0u, 0u, v.range.aspectMask } );
					depth += !color;
					merged += !v.sources.empty();
				}
				for ( auto & a : p.buffers )
				{
					if ( a.k != BK::StorageClear || a.noTransition ) { ++others; continue; }
					auto r = chk::bufRange( w, a, p.index );
					due.push_back( { {}, 0u, false, true, sim::u( w.bufs[size_t( a.buf( p.index ) )].vk ), r.b, r.e, 0u, 0u } );
					ranged += a.range != VK_WHOLE_SIZE;
				}
				bool own = false;
				for ( size_t i = s.begin; i < s.end; ++i )
				{
					auto & x = cmds[i];
					inSpan.insert( i );
					if ( x.k == CK::Barrier ) st.barrier( x );
					else if ( x.k == CK::BeginRP ) { own = true; st.renderPass( x ); }
					else if ( x.k == CK::Mark && ( x.s == w.mark( p, "pass" ) || x.s == w.mark( p, "pre" ) ) )
					{
						if ( !own )
						{
							// what was cleared may be used, once the clear is done
							for ( auto & d : due )
							{
								c.check( d.done == 1u, pbt::fmt( "missing: %s not cleared before the commands", d.bufferDue ? "buffer" : "image" ) + where );
								for ( auto & q : d.subs )
								{
									auto & is = st.images[q];
									c.check( is.layout == VK_IMAGE_LAYOUT_GENERAL, "after: cleared image not in the layout of its attachment" + where );
									c.check( ( is.src & VK_ACCESS_TRANSFER_WRITE_BIT ) != 0u, pbt::fmt( "after: barrier from 0x%x to 0x%x after the clear of an image", is.src, is.access ) + where );
								}
								if ( d.bufferDue )
									for ( auto q = d.b; q < d.e; q += 4u )
									{
										auto & is = st.buffers[{ d.buf, q }];
										c.check( ( is.src & VK_ACCESS_TRANSFER_WRITE_BIT ) != 0u && ( is.access & VK_ACCESS_SHADER_WRITE_BIT ) != 0u, pbt::fmt( "after: barrier from 0x%x to 0x%x after the fill of a buffer", is.src, is.access ) + where );
									}
							}
						}
						own = true;
					}
					else if ( x.k == CK::ClearColor || x.k == CK::ClearDS )
					{
						++clearsSeen;
						c.check( !own, "order: image cleared after commands" + where );
						std::set< Sub > got;
						for ( auto & r : x.ranges ) for ( auto & q : subs( x.h[0], r ) ) c.check( got.insert( q ).second, "twice: subresource cleared twice" + where );
						auto it = std::find_if( due.begin(), due.end(), [&]( Due const & d ){ return !d.bufferDue && d.img == x.h[0] && d.subs == got && !d.done; } );
						c.check( it != due.end(), "undeclared: " + sim::dump( x ) + where );
						++it->done;
						c.check( it->color == ( x.k == CK::ClearColor ), "format: wrong kind of clear: " + sim::dump( x ) + where );
						for ( auto & r : x.ranges ) c.check( r.aspectMask == it->aspect, pbt::fmt( "aspects: 0x%x cleared instead of 0x%x", r.aspectMask, it->aspect ) + where );
						auto & v = x.clears[0];
						if ( it->color ) for ( auto k : v.color.uint32 ) c.check( k == 0u, "value: image not cleared to zero" + where );
						else c.check( v.depthStencil.depth == 0.0f && v.depthStencil.stencil == 0u, "value: image not cleared to zero" + where );
						for ( auto & q : got )
						{
							auto k = st.images.find( q );
							c.check( k != st.images.end() && k->second.layout == VkImageLayout( x.a[0] ) && x.a[0] == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, "layout: image not in the layout it is cleared in" + where );
							c.check( ( k->second.access & VK_ACCESS_TRANSFER_WRITE_BIT ) && ( k->second.stage & VK_PIPELINE_STAGE_TRANSFER_BIT ), pbt::fmt( "access: image cleared with access 0x%x at stage 0x%x in force", k->second.access, k->second.stage ) + where );
							if ( used.count( q ) ) ++again;
						}
					}
					else if ( x.k == CK::Fill )
					{
						++clearsSeen;
						c.check( !own, "order: buffer filled after commands" + where );
						auto b = VkDeviceSize( x.a[0] );
						auto e = x.a[1] == int64_t( VK_WHOLE_SIZE ) ? st.sizeOf( x.h[0] ) : b + VkDeviceSize( x.a[1] );
						auto it = std::find_if( due.begin(), due.end(), [&]( Due const & d ){ return d.bufferDue && d.buf == x.h[0] && d.b == b && d.e == e && !d.done; } );
						c.check( it != due.end(), "undeclared: " + sim::dump( x ) + where );
						++it->done;
						c.check( x.a[2] == 0, "value: buffer not filled with zero" + where );
						for ( auto q = b; q < e; q += 4u )
						{
							auto k = st.buffers.find( { x.h[0], q } );
							c.check( k != st.buffers.end() && ( k->second.access & VK_ACCESS_TRANSFER_WRITE_BIT ) && ( k->second.stage & VK_PIPELINE_STAGE_TRANSFER_BIT ), "access: buffer filled without transfer write access in force" + where );
						}
					}
				}
				for ( auto & d : due )
				{
					c.check( d.done == 1u, pbt::fmt( "missing: %s not cleared", d.bufferDue ? "buffer" : "image" ) + where );
				}
				for ( auto & a : p.images )
				{
					auto & v = w.views[size_t( a.view( p.index ) )];
					for ( auto & q : subs( sim::u( w.vkImage( v.img ) ), v.range ) ) used.insert( q );
				}
			}
			for ( size_t i = 0u; i < cmds.size(); ++i )
				if ( !inSpan.count( i ) )
				{
					c.check( cmds[i].k != CK::ClearColor && cmds[i].k != CK::ClearDS && cmds[i].k != CK::Fill, "undeclared: " + sim::dump( cmds[i] ) + pbt::fmt( " by no pass in frame %u\n", f ) + desc );
					if ( cmds[i].k == CK::Barrier ) st.barrier( cmds[i] );
				}
		} );
		if ( depth ) c.note( "depth or stencil cleared" );
		if ( ranged ) c.note( "part of a buffer cleared" );
		if ( merged ) c.note( "merged view cleared" );
		if ( again ) c.note( "cleared after an earlier use" );
		if ( again && others && clearsSeen ) c.nt( w.describe() );
	}
}

PBT_CHECK( "C19", "frames", 24000, 200000, "an image is cleared after an earlier use, next to attachments which must not be cleared" ) { clears( c, chk::Fam::Any ); }
PBT_CHECK( "C19", "dense", 16000, 150000, "an image is cleared after an earlier use, next to attachments which must not be cleared" ) { clears( c, chk::Fam::Dense ); }
PBT_CHECK( "C19", "long", 16000, 120000, "an image is cleared after an earlier use, next to attachments which must not be cleared" ) { clears( c, chk::Fam::Long ); }
