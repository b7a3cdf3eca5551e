// Graphs written by hand (probes and checks of one part of the library).
#pragma once
#include "frames.hpp"
#include <memory>

namespace chk
{
	struct Direct
	{
		pbt::Tape t{ std::vector< uint32_t >{} };
		pbt::Case c{ t, false };
		World w;
		explicit Direct( int separate = 0 ) : w{ c, [separate](){ Opts o; o.separate = separate; return o; }() } {}
	};
	inline crg::ImageId image( World & w, std::string name, VkFormat f, VkImageUsageFlags usage, uint32_t mips = 1u, uint32_t layers = 1u, VkExtent3D e = { 16u, 16u, 1u } )
	{
		return w.handler->createImageId( crg::ImageData{ name, 0u, VK_IMAGE_TYPE_2D, f, e, usage, mips, layers } );
	}
	inline crg::ImageViewId view( World & w, std::string name, crg::ImageId id, VkImageSubresourceRange r, VkImageViewType type = VK_IMAGE_VIEW_TYPE_2D )
	{
		return w.handler->createViewId( crg::ImageViewData{ name, id, 0u, type, id.data->info.format, r } );
	}
	using Record = std::function< void( crg::RecordContext &, VkCommandBuffer, uint32_t ) >;
	inline crg::FramePass & pass( crg::FrameGraph & fg, std::string name, VkPipelineStageFlags stage, Record rec = {}, crg::ru::Config ru = {} )
	{
		return fg.createPass( name, [stage, rec, ru]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg
					, crg::RunnablePass::Callbacks{ []( uint32_t ){}
						, crg::RunnablePass::GetPipelineStateCallback( [stage](){ return crg::getPipelineState( stage ); } )
						, [rec]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t i ){ if ( rec ) rec( rc, cb, i ); } }
					, ru );
			} );
	}
	inline std::string viols( World & w, std::set< std::string > const & cats )
	{
		for ( auto & v : w.dev->viols ) if ( cats.count( v.cat ) ) return v.cat + ": " + v.msg;
		return {};
	}
}
