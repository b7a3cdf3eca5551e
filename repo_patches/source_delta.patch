From 3071028ed85d8d342317db5f342f95eefad7bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 01/67] fix: dispatch with the Y and Z group counts callbacks
 of their own axis

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From 562cd140865a6295405cca102572207090f75ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 02/67] fix: transition each subresource of a range from its
 own layout

---
 source/RenderGraph/RecordContext.cpp | 66 ++++++++++++++++++++++++++++
 source/RenderGraph/RunnableGraph.cpp | 44 ++++++++++++-------
 source/RenderGraph/RunnablePass.cpp  |  5 ---
 3 files changed, 94 insertions(+), 21 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..7703944 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -42,6 +42,53 @@ namespace crg
 
 			return result;
 		}
+
+		template< typename FuncT >
+		static void forEachSubresource( VkImageViewType viewType
+			, VkImageSubresourceRange const & range
+			, FuncT function )
+		{
+			// A 3D image has no layer, its slices all share the layout of their mip level.
+			bool const is3D = viewType == VK_IMAGE_VIEW_TYPE_3D;
+			auto subRange = range;
+			subRange.levelCount = 1u;
+
+			for ( uint32_t level = 0u; level < range.levelCount; ++level )
+			{
+				subRange.baseMipLevel = range.baseMipLevel + level;
+
+				for ( uint32_t layer = 0u; layer < ( is3D ? 1u : range.layerCount ); ++layer )
+				{
+					if ( !is3D )
+					{
+						subRange.baseArrayLayer = range.baseArrayLayer + layer;
+						subRange.layerCount = 1u;
+					}
+
+					function( subRange );
+				}
+			}
+		}
+
+		static bool hasSingleLayout( RecordContext const & context
+			, ImageId const & image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & range )
+		{
+			bool first = true;
+			bool result = true;
+			VkImageLayout layout{};
+			forEachSubresource( viewType
+				, range
+				, [&]( VkImageSubresourceRange const & subRange )
+				{
+					auto current = context.getLayoutState( image, viewType, subRange ).layout;
+					result = result && ( first || current == layout );
+					layout = current;
+					first = false;
+				} );
+			return result;
+		}
 	}
 
 	//************************************************************************************************
@@ -227,6 +274,25 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
+
+		if ( !recctx::hasSingleLayout( *this, image, viewType, range ) )
+		{
+			// The subresources come from different layouts, hence need different barriers.
+			recctx::forEachSubresource( viewType
+				, range
+				, [&]( VkImageSubresourceRange const & subRange )
+				{
+					memoryBarrier( commandBuffer
+						, image
+						, viewType
+						, subRange
+						, initialLayout
+						, wantedState
+						, force );
+				} );
+			return;
+		}
+
 		auto from = getLayoutState( image
 			, viewType
 			, range );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..a846ed4 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -419,31 +419,43 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange range )const
 	{
-		auto result = context.getLayoutState( image, viewType, range );
+		// Each subresource of the range may have its own history.
+		bool const is3D = viewType == VK_IMAGE_VIEW_TYPE_3D;
+		auto subRange = range;
+		subRange.levelCount = 1u;
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+		for ( uint32_t level = 0u; level < range.levelCount; ++level )
 		{
-			// Lookup in graph's external inputs.
-			result = m_graph.getInputLayoutState( image, viewType, range );
+			subRange.baseMipLevel = range.baseMipLevel + level;
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+			for ( uint32_t layer = 0u; layer < ( is3D ? 1u : range.layerCount ); ++layer )
 			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
+				if ( !is3D )
+				{
+					subRange.baseArrayLayer = range.baseArrayLayer + layer;
+					subRange.layerCount = 1u;
+				}
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
+				if ( context.getLayoutState( image, viewType, subRange ).layout == VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					// Lookup in graph's external inputs.
+					auto state = m_graph.getInputLayoutState( image, viewType, subRange );
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
+					if ( state.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						// Lookup in graph's previous final state.
+						state = m_graph.getFinalLayoutState( image, viewType, subRange );
+					}
+
+					if ( state.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						context.setLayoutState( image, viewType, subRange, state );
+					}
+				}
 			}
 		}
 
-		return result;
+		return context.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState RunnableGraph::getCurrentLayoutState( RecordContext & context
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..ba6459c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -407,7 +407,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -431,14 +430,10 @@ namespace crg
 								, &view.data->info.subresourceRange );
 						}
 
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
 			}
-- 
2.43.0


From 707dd17d4e6cc8ab0bff619ee6c9cf25f9ba89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 03/67] fix: track the layouts of 3D images level by level

---
 source/RenderGraph/FrameGraph.cpp             |  2 +-
 .../RenderGraph/LayerLayoutStatesHandler.cpp  | 70 ++++++++++++++++---
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..4f169a8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -631,7 +631,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..9e9e7db 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -10,6 +10,34 @@ See LICENSE file in root folder.
 
 namespace crg
 {
+	namespace layhdl
+	{
+		// The number of slices of a 3D image depends on the mip level, hence each level has its own virtual range.
+		static std::vector< VkImageSubresourceRange > getVirtualRanges( ImageId image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange )
+		{
+			std::vector< VkImageSubresourceRange > result;
+
+			if ( viewType != VK_IMAGE_VIEW_TYPE_3D )
+			{
+				result.push_back( getVirtualRange( image, viewType, subresourceRange ) );
+				return result;
+			}
+
+			auto levelRange = subresourceRange;
+			levelRange.levelCount = 1u;
+
+			for ( uint32_t level = 0u; level < subresourceRange.levelCount; ++level )
+			{
+				levelRange.baseMipLevel = subresourceRange.baseMipLevel + level;
+				result.push_back( getVirtualRange( image, viewType, levelRange ) );
+			}
+
+			return result;
+		}
+	}
+
 	LayerLayoutStatesHandler::LayerLayoutStatesHandler( LayerLayoutStatesMap const & rhs )
 		: images{ rhs }
 	{
@@ -28,13 +56,14 @@ namespace crg
 		, VkImageSubresourceRange const & subresourceRange
 		, LayoutState const & layoutState )
 	{
-		auto range = getVirtualRange( image
-			, viewType
-			, subresourceRange );
 		auto [it, _] = images.try_emplace( image.id );
-		addSubresourceRangeLayout( it->second
-			, range
-			, layoutState );
+
+		for ( auto const & range : layhdl::getVirtualRanges( image, viewType, subresourceRange ) )
+		{
+			addSubresourceRangeLayout( it->second
+				, range
+				, layoutState );
+		}
 	}
 
 	void LayerLayoutStatesHandler::setLayoutState( crg::ImageViewId view
@@ -54,11 +83,30 @@ namespace crg
 	{
 		if ( auto imageIt = images.find( image.id ); imageIt != images.end() )
 		{
-			auto range = getVirtualRange( image
-				, viewType
-				, subresourceRange );
-			return getSubresourceRangeLayout( imageIt->second
-				, range );
+			auto const ranges = layhdl::getVirtualRanges( image, viewType, subresourceRange );
+
+			if ( ranges.size() == 1u )
+			{
+				return getSubresourceRangeLayout( imageIt->second
+					, ranges.front() );
+			}
+
+			LayerLayoutStates states;
+
+			for ( auto const & range : ranges )
+			{
+				for ( auto const & [layer, levels] : imageIt->second )
+				{
+					if ( auto levelIt = levels.find( range.baseMipLevel );
+						levelIt != levels.end() && layer < range.layerCount )
+					{
+						states[layer].insert_or_assign( levelIt->first, levelIt->second );
+					}
+				}
+			}
+
+			return getSubresourceRangeLayout( states
+				, getVirtualRange( image, viewType, { subresourceRange.aspectMask, 0u, image.data->info.mipLevels, 0u, 1u } ) );
 		}
 
 		return { VK_IMAGE_LAYOUT_UNDEFINED, { 0u, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT } };
-- 
2.43.0


From 664287c4173e868da5babe6dd121585620dbba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 04/67] fix: rebuild a render pass when its attachments'
 layouts changed

---
 .../RunnablePasses/RenderPassHolder.hpp       |  5 +-
 .../RunnablePasses/RenderPassHolder.cpp       | 65 +++++++++++++------
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..8beffc8 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -68,8 +68,11 @@ namespace crg
 		}
 
 	private:
-		void doCreateRenderPass( RecordContext & context
+		std::vector< Entry > doListEntries( RecordContext & context
 			, crg::RunnablePass const & runnable
+			, uint32_t passIndex )const;
+		void doCreateRenderPass( RecordContext & context
+			, std::vector< Entry > const & entries
 			, PipelineState const & previousState
 			, PipelineState const & nextState
 			, uint32_t passIndex );
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..26957ad 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -94,19 +94,19 @@ namespace crg
 				|| ( lhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage );
 		}
 
-		static bool checkAttaches( RecordContext const & context
-			, std::vector< RenderPassHolder::Entry > const & attaches
-			, uint32_t passIndex )
+		static bool checkAttaches( std::vector< RenderPassHolder::Entry > const & lhs
+			, std::vector< RenderPassHolder::Entry > const & rhs )
 		{
-			auto it = std::find_if( attaches.begin()
-				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+			return std::equal( lhs.begin()
+				, lhs.end()
+				, rhs.begin()
+				, rhs.end()
+				, []( RenderPassHolder::Entry const & lhsEntry, RenderPassHolder::Entry const & rhsEntry )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
+					return lhsEntry.view == rhsEntry.view
+						&& !( lhsEntry.input != rhsEntry.input )
+						&& !( lhsEntry.output != rhsEntry.output );
 				} );
-			return it == attaches.end();
 		}
 	}
 
@@ -168,9 +168,10 @@ namespace crg
 		auto & data = m_passes[passIndex];
 		auto previousState = context.getPrevPipelineState();
 		auto nextState = context.getNextPipelineState();
+		auto entries = doListEntries( context, runnable, passIndex );
 
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( data.attaches, entries )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
@@ -179,7 +180,7 @@ namespace crg
 
 		data.cleanup( m_context );
 		doCreateRenderPass( context
-			, runnable
+			, entries
 			, previousState
 			, nextState
 			, passIndex );
@@ -233,8 +234,34 @@ namespace crg
 		m_currentPass = nullptr;
 	}
 
+	std::vector< RenderPassHolder::Entry > RenderPassHolder::doListEntries( RecordContext & context
+		, crg::RunnablePass const & runnable
+		, uint32_t passIndex )const
+	{
+		std::vector< Entry > result;
+
+		for ( auto & attach : m_pass.images )
+		{
+			if ( attach.isDepthAttach()
+				|| attach.isStencilAttach()
+				|| attach.isColourAttach() )
+			{
+				auto view = attach.view( passIndex );
+				auto resolved = resolveView( view, passIndex );
+				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
+				result.push_back( { view
+					, ( !attach.isInput()
+						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
+						: currentLayout )
+					, m_graph.getNextLayoutState( context, runnable, resolved ) } );
+			}
+		}
+
+		return result;
+	}
+
 	void RenderPassHolder::doCreateRenderPass( RecordContext & context
-			, crg::RunnablePass const & runnable
+			, std::vector< Entry > const & entries
 			, PipelineState const & previousState
 			, PipelineState const & nextState
 			, uint32_t passIndex )
@@ -244,6 +271,7 @@ namespace crg
 		VkAttachmentReference depthReference{};
 		auto & data = m_passes[passIndex];
 		m_blendAttachs.clear();
+		auto entryIt = entries.begin();
 
 		for ( auto & attach : m_pass.images )
 		{
@@ -251,14 +279,9 @@ namespace crg
 				|| attach.isStencilAttach()
 				|| attach.isColourAttach() )
 			{
-				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
-				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
-				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
-				auto from = ( !attach.isInput()
-					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
-					: currentLayout );
-				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
+				auto const & [view, from, nextLayout] = *entryIt;
+				++entryIt;
+				checkUndefinedInput( "RenderPass", attach, resolveView( view, passIndex ), from.layout );
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
-- 
2.43.0


From e34574c6415eae7e1d286266967635debc3cc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 05/67] fix: clear the stencil an attachment would load from an
 undefined layout

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 26957ad..1037d3b 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -36,7 +36,9 @@ namespace crg
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
 				, attach.getStoreOp()
-				, attach.getStencilLoadOp()
+				, ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED && attach.getStencilLoadOp() == VK_ATTACHMENT_LOAD_OP_LOAD
+					? VK_ATTACHMENT_LOAD_OP_CLEAR
+					: attach.getStencilLoadOp() )
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-- 
2.43.0


From 6ab6bf3d955743eaa8dd316d66236968d44f2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 06/67] fix: blit regions end at their offset plus their size

---
 source/RenderGraph/RecordContext.cpp            |  4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 7703944..210206d 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -518,10 +518,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..067be4a 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,13 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +68,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From d97ae8d88b0dbce0ffc6c6b6adcb394f142e7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 07/67] fix: tell apart views that only differ by their swizzle

---
 include/RenderGraph/ImageViewData.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..abca5ee 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -48,11 +48,20 @@ namespace crg
 			&& lhs.levelCount == rhs.levelCount;
 	}
 
+	inline bool operator==( VkComponentMapping const & lhs, VkComponentMapping const & rhs )
+	{
+		return lhs.r == rhs.r
+			&& lhs.g == rhs.g
+			&& lhs.b == rhs.b
+			&& lhs.a == rhs.a;
+	}
+
 	inline bool operator==( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
 	{
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components == rhs.components
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From c42fbbef06fe24042778ceb0d14abc2688390596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 08/67] fix: tell merged views apart from plain views of the
 same range

---
 include/RenderGraph/ImageViewData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index abca5ee..f90f27d 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -68,6 +68,7 @@ namespace crg
 	inline bool operator==( ImageViewData const & lhs, ImageViewData const & rhs )
 	{
 		return lhs.image == rhs.image
-			&& lhs.info == rhs.info;
+			&& lhs.info == rhs.info
+			&& lhs.source == rhs.source;
 	}
 }
-- 
2.43.0


From 16f1b1ed5b74a4ff374895bef53052fdcb54cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 09/67] fix: leave nothing behind when creating a resource
 fails

---
 source/RenderGraph/ResourceHandler.cpp | 125 +++++++++++++++++++------
 1 file changed, 96 insertions(+), 29 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..2482f77 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -35,6 +35,72 @@ namespace crg
 			};
 		};
 
+		/**
+		*\brief
+		*	Undoes a partial creation, unless told otherwise.
+		*/
+		template< typename FuncT >
+		class Rollback
+		{
+		public:
+			explicit Rollback( FuncT function )
+				: m_function{ std::move( function ) }
+			{
+			}
+
+			~Rollback()noexcept
+			{
+				if ( m_armed )
+				{
+					m_function();
+				}
+			}
+
+			void dismiss()noexcept
+			{
+				m_armed = false;
+			}
+
+		private:
+			FuncT m_function;
+			bool m_armed{ true };
+		};
+
+		static void destroyImage( GraphContext const & context
+			, VkImage image
+			, VkDeviceMemory memory )
+		{
+			if ( context.vkFreeMemory && memory )
+			{
+				context.vkFreeMemory( context.device, memory, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image )
+			{
+				context.vkDestroyImage( context.device, image, context.allocator );
+			}
+		}
+
+		static void destroyVertexBuffer( GraphContext & context
+			, VertexBuffer & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
+
 		static VkImageCreateInfo convert( ImageData const & data )
 		{
 			return data.info;
@@ -186,6 +252,11 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, &context, imageIt = it]()
+					{
+						reshdl::destroyImage( context, imageIt->second.first, imageIt->second.second );
+						m_images.erase( imageIt );
+					} };
 				// Create image
 				auto createInfo = reshdl::convert( *imageId.data );
 				auto res = context.vkCreateImage( context.device
@@ -225,6 +296,8 @@ namespace crg
 					checkVkResult( res, "Image memory binding" );
 					created = true;
 				}
+
+				rollback.dismiss();
 			}
 
 			result = { it->second.first, created };
@@ -246,6 +319,10 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, viewIt = it]()
+					{
+						m_imageViews.erase( viewIt );
+					} };
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
@@ -255,6 +332,7 @@ namespace crg
 				checkVkResult( res, "ImageView creation" );
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
+				rollback.dismiss();
 			}
 
 			result = { it->second, created };
@@ -294,8 +372,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,6 +393,10 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
+			reshdl::Rollback rollback{ [&context, vertexBuffer]()
+				{
+					reshdl::destroyVertexBuffer( context, *vertexBuffer );
+				} };
 			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 				, nullptr
 				, 0u
@@ -409,6 +491,7 @@ namespace crg
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
+			rollback.dismiss();
 		}
 
 		return vertexBuffer;
@@ -422,16 +505,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroyImage( context, it->second.first, it->second.second );
 			m_images.erase( it );
 		}
 	}
@@ -486,24 +560,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroyVertexBuffer( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
@@ -597,9 +654,14 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::Rollback rollback{ [this, samplerIt = it]()
+				{
+					m_samplers.erase( samplerIt );
+				} };
 			it->second = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			rollback.dismiss();
 		}
 
 		return it->second;
@@ -613,10 +675,15 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::Rollback rollback{ [this, bufferIt = it]()
+				{
+					m_vertexBuffers.erase( bufferIt );
+				} };
 			it->second = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			rollback.dismiss();
 		}
 
 		return *it->second;
-- 
2.43.0


From 82e039e9c42ea1be0c0b109be257a9cd1da5def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 10/67] fix: own the image created along with its first view

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 2482f77..8c7e7fb 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -611,6 +611,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The handler creates the image of the view if needed, this cache has to own it then.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From 676a4dc5704379f42a18b4c1e6e6bcc8d499d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 11/67] fix: forget destroyed images and views

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 8c7e7fb..4cdb5b4 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -631,6 +631,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -644,6 +645,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From c3769450c93f79c4352ac866bb73f6eb25e323dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 12/67] fix: give each slot of a signal its own index

---
 include/RenderGraph/Signal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..a3014c3 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,7 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			uint32_t index = ++m_lastIndex;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
@@ -277,6 +277,7 @@ namespace crg
 		}
 
 	private:
+		uint32_t m_lastIndex{};
 		std::map< uint32_t, Function > m_slots;
 		std::set< my_connection_ptr > m_connections;
 		std::recursive_mutex m_mutex;
-- 
2.43.0


From bda2a5df453fff769e2ec458f2c31ad1c8296606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 13/67] fix: call each slot once when slots change during an
 emission

---
 include/RenderGraph/Signal.hpp | 59 ++++++++++++----------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index a3014c3..64f34a9 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -7,6 +7,7 @@ See LICENSE file in root folder
 #include <functional>
 #include <set>
 #include <map>
+#include <memory>
 #pragma warning( push )
 #pragma warning( disable: 4365 )
 #pragma warning( disable: 5262 )
@@ -171,7 +172,7 @@ namespace crg
 		my_connection connect( Function function )
 		{
 			uint32_t index = ++m_lastIndex;
-			m_slots.emplace( index, function );
+			m_slots.emplace( index, std::make_shared< Function >( std::move( function ) ) );
 			return my_connection{ index, *this };
 		}
 		/**
@@ -180,15 +181,7 @@ namespace crg
 		*/
 		void operator()()const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second();
-				adjustSlots( size, index, it );
-			}
+			doEmit();
 		}
 		/**
 		*\brief
@@ -199,15 +192,7 @@ namespace crg
 		template< typename ... Params >
 		void operator()( Params && ... params )const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
-			}
+			doEmit( params... );
 		}
 
 	private:
@@ -251,34 +236,30 @@ namespace crg
 		}
 		/**
 		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
+		*	Calls all connected functions.
+		*\remarks
+		*	The slots can be changed by the slots themselves, the ones connected meanwhile are not called.
+		*\param[in] params
+		*	The functions parameters, given to each slot, hence not moved.
 		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
+		template< typename ... Params >
+		void doEmit( Params & ... params )const
 		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
+			auto const lastIndex = m_lastIndex;
+			auto it = m_slots.begin();
+
+			while ( it != m_slots.end() && it->first <= lastIndex )
 			{
-				++index;
-				++it;
+				auto const index = it->first;
+				auto const function = it->second; // The slot may disconnect itself.
+				( *function )( params... );
+				it = m_slots.upper_bound( index );
 			}
 		}
 
 	private:
 		uint32_t m_lastIndex{};
-		std::map< uint32_t, Function > m_slots;
+		std::map< uint32_t, std::shared_ptr< Function > > m_slots;
 		std::set< my_connection_ptr > m_connections;
 		std::recursive_mutex m_mutex;
 	};
-- 
2.43.0


From 131f278fd2ee40440670292a0bdd737b8d6e3d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 14/67] fix: convert timestamps with the period of the timer's
 own device

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..ea1f813 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		auto const period = double( m_context.properties.limits.timestampPeriod );
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( double( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From 4560e8d7e3bf8790731aa83da26b665bf706e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 15/67] fix: compare layer ranges with their own layer counts

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..7d11897 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From 9e44f74eb0b92c7bc3f42d01bdddc147a1977b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 16/67] fix: merge layout states layer by layer and level by
 level

---
 source/RenderGraph/LayerLayoutStatesHandler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 9e9e7db..7b4ec76 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -45,9 +45,14 @@ namespace crg
 
 	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data )
 	{
-		for ( auto & state : data.images )
+		for ( auto const & [image, layers] : data.images )
 		{
-			images.insert( state );
+			auto & imageLayers = images[image];
+
+			for ( auto const & [layer, levels] : layers )
+			{
+				imageLayers[layer].insert( levels.begin(), levels.end() );
+			}
 		}
 	}
 
-- 
2.43.0


From 51a5fd4470afb3c2ca32f5f20612c85fa3d59639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 17/67] fix: remember the states of resources a frame leaves
 alone

---
 include/RenderGraph/RecordContext.hpp | 1 +
 source/RenderGraph/FrameGraph.cpp     | 3 +++
 source/RenderGraph/RecordContext.cpp  | 7 ++++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..7b46f4b 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -34,6 +34,7 @@ namespace crg
 		*\name	States
 		*/
 		//@{
+		CRG_API void addResourceStates( RecordContext const & data );
 		CRG_API void addStates( RecordContext const & data );
 		/**
 		*\name	Pipeline
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 4f169a8..786964b 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -338,7 +338,10 @@ namespace crg
 
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
+		auto previous = std::move( m_finalState );
 		m_finalState = context;
+		// What this recording left alone still is in the state where it was found.
+		m_finalState.addResourceStates( previous );
 	}
 
 	VkExtent3D getExtent( ImageId const & image )
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 210206d..220fb95 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -108,7 +108,7 @@ namespace crg
 	{
 	}
 
-	void RecordContext::addStates( RecordContext const & data )
+	void RecordContext::addResourceStates( RecordContext const & data )
 	{
 		m_images.addStates( data.m_images );
 
@@ -116,6 +116,11 @@ namespace crg
 		{
 			m_buffers.insert( state );
 		}
+	}
+
+	void RecordContext::addStates( RecordContext const & data )
+	{
+		addResourceStates( data );
 
 		if ( m_prevPipelineState.access < data.m_currPipelineState.access )
 		{
-- 
2.43.0


From de3c68786dfe485d9cdfd8c887cb86707ff12f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 18/67] fix: an implicit attachment without layout does not
 hide the layout of another one

---
 source/RenderGraph/RunnablePass.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index ba6459c..ada280b 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -263,6 +263,12 @@ namespace crg
 
 		for ( auto & attach : m_pass.images )
 		{
+			if ( attach.getImageLayout( m_context.separateDepthStencilLayouts ) == VK_IMAGE_LAYOUT_UNDEFINED )
+			{
+				// No wanted layout, don't hide the one another attachment wants for this view.
+				continue;
+			}
+
 			for ( uint32_t i = 0u; i < attach.getViewCount(); ++i )
 			{
 				auto view = attach.view( i );
-- 
2.43.0


From f6ec9ad674f9969bf345d07279020c524371d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 19/67] fix: publish every transition from and to the outside
 of the graph

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 7d11897..ad993bd 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -553,14 +553,14 @@ namespace crg::builder
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.viewTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
@@ -574,14 +574,14 @@ namespace crg::builder
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, attach, Attachment::createDefault( attach.bufferAttach.buffer ) };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.bufferTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
-- 
2.43.0


From ffd63284f56d5425cb729c2fbb5d743ba2ce3c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 20/67] fix: what a pass reads from outside of the graph flows
 into the graph

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index ad993bd..9261817 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -548,8 +548,7 @@ namespace crg::builder
 		{
 			auto & transitions = insertPass( attach.pass, inputTransitions ).transitions;
 
-			if ( attach.isColourInputAttach()
-				|| attach.isSampledView() )
+			if ( attach.isInput() )
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
-- 
2.43.0


From 5bf9ba2735768e031a2a272c49582924d40d2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 21/67] fix: track all the sources of a merged view through its
 render pass

---
 .../RunnablePasses/RenderPassHolder.cpp       | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 1037d3b..c99be1a 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -17,6 +17,24 @@ namespace crg
 
 	namespace rpHolder
 	{
+		static void setLayoutState( RecordContext & context
+			, ImageViewId view
+			, LayoutState const & layoutState )
+		{
+			if ( view.data->source.empty() )
+			{
+				context.setLayoutState( view, layoutState );
+			}
+			else
+			{
+				// The framebuffer holds the merged view, hence all its sources.
+				for ( auto & source : view.data->source )
+				{
+					context.setLayoutState( source, layoutState );
+				}
+			}
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -45,18 +63,7 @@ namespace crg
 			viewAttaches.push_back( { view, initialLayout, finalLayout } );
 			clearValues.push_back( attach.getClearValue() );
 
-			if ( view.data->source.empty() )
-			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
-			}
-
+			setLayoutState( context, view, finalLayout );
 			return result;
 		}
 
@@ -212,8 +219,7 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.input );
+			rpHolder::setLayoutState( context, attach.view, attach.input );
 		}
 
 		auto beginInfo = getBeginInfo( m_index );
@@ -229,8 +235,7 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.output );
+			rpHolder::setLayoutState( context, attach.view, attach.output );
 		}
 
 		m_currentPass = nullptr;
-- 
2.43.0


From 2d293600d611d24153f6cc132b677fac8e2c39df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 22/67] fix: size the framebuffer of a pass index from that
 index' views

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index c99be1a..f0b9378 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -392,7 +392,7 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
 				width = std::max( width
 					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-- 
2.43.0


From 493495a3f150cf86ce72cea9cd8123a06df43a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 23/67] fix: wait for a buffer's writes before reading it as an
 uniform buffer

---
 source/RenderGraph/RunnablePass.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index ada280b..1181d66 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -447,12 +447,22 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() || attach.isUniformBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
 					auto currentState = context.getAccessState( buffer, range );
 
+					if ( attach.isUniformBuffer()
+						&& currentState.pipelineStage == VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT )
+					{
+						// Nothing in the graph used it yet, hence nothing to wait for, but next uses must wait for this one.
+						context.setAccessState( buffer
+							, range
+							, { attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
+						continue;
+					}
+
 					if ( attach.isClearableBuffer() )
 					{
 						context.memoryBarrier( commandBuffer
-- 
2.43.0


From e2ea3da455768408541f67c0ac3e2cf03f2c92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 24/67] fix: buffer barriers cover all the buffer, like the
 state they are made from

---
 source/RenderGraph/RecordContext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 220fb95..d179310 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -415,8 +415,9 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				// The access state is the one of the whole buffer.
+				, 0u
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
-- 
2.43.0


From 4fbfd0f37c8ba1bab65f0db5080ffa18f1a8dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 25/67] fix: wait for the previous use of a buffer before
 writing it again, even in the same way

---
 source/RenderGraph/RecordContext.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index d179310..b70f12a 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -43,6 +43,16 @@ namespace crg
 			return result;
 		}
 
+		static bool isWriteAccess( VkAccessFlags access )
+		{
+			return ( access & ( VK_ACCESS_SHADER_WRITE_BIT
+				| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_TRANSFER_WRITE_BIT
+				| VK_ACCESS_HOST_WRITE_BIT
+				| VK_ACCESS_MEMORY_WRITE_BIT ) ) != 0u;
+		}
+
 		template< typename FuncT >
 		static void forEachSubresource( VkImageViewType viewType
 			, VkImageSubresourceRange const & range
@@ -405,7 +415,8 @@ namespace crg
 
 		if ( force
 			|| ( from.access != wantedState.access
-				|| from.pipelineStage != wantedState.pipelineStage ) )
+				|| from.pipelineStage != wantedState.pipelineStage
+				|| recctx::isWriteAccess( wantedState.access ) ) )
 		{
 			auto const & resources = getResources();
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
-- 
2.43.0


From a32d2ac246f469b414f48a65f0a361c134b386da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 26/67] fix: transfer buffers take part in the transitions
 between passes

---
 source/RenderGraph/FramePass.cpp                    | 4 ++--
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..5faeef3 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -120,7 +120,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -134,7 +134,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 9261817..2df400e 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -157,14 +157,14 @@ namespace crg::builder
 			static bool isInput( Attachment const & attach )
 			{
 				return attach.isInput()
-					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
+					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer() || attach.isTransferBuffer()
 						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
 			}
 
 			static bool isOutput( Attachment const & attach )
 			{
 				return attach.isOutput()
-					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );
+					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() || attach.isTransferBuffer() );
 			}
 		};
 
-- 
2.43.0


From a26cf8a0ebf3b1711b83e7dbc78fa6d771ae131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 27/67] fix: no transition between attachments that do not
 overlap

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 2df400e..ceb6227 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -650,9 +650,10 @@ namespace crg::builder
 			, FramePassDependencies & outputTransitions
 			, AttachmentTransitions & allTransitions )
 		{
-			if ( inputAttach.pass->dependsOn( *outputAttach.pass
-				, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
-				, cache ) )
+			if ( areOverlapping< DataT >( inputAttach, outputAttach )
+				&& inputAttach.pass->dependsOn( *outputAttach.pass
+					, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
+					, cache ) )
 			{
 				addDependency< DataT >( outputAttach
 					, inputAttach
-- 
2.43.0


From cfe12777e48b9cf867b85a398141a76b1411625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 28/67] fix: tell apart buffers whose handles share their low
 bits when looking for pass dependencies

---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  2 +-
 source/RenderGraph/FramePass.cpp              | 30 ++++---------------
 2 files changed, 7 insertions(+), 25 deletions(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index faa5cf9..1c4a253 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -68,7 +68,7 @@ namespace crg
 
 	using ImageId = Id< ImageData >;
 	using ImageViewId = Id< ImageViewData >;
-	using DependencyCache = std::unordered_map< size_t, bool >;
+	using DependencyCache = std::map< std::pair< uint64_t, uint64_t >, bool >;
 	using PassDependencyCache = std::unordered_map< FramePass const *, DependencyCache >;
 
 	using FramePassPtr = std::unique_ptr< FramePass >;
diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index 5faeef3..cbd7d08 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -155,34 +155,16 @@ namespace crg
 			return result.substr( index );
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static std::pair< uint64_t, uint64_t > makeKey( FramePass const & pass
 			, ImageViewId const & view )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| size_t( view.id );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| size_t( view.id );
-			}
+			return { pass.id, view.id };
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static std::pair< uint64_t, uint64_t > makeKey( FramePass const & pass
 			, Buffer const & buffer )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| ( ptrdiff_t( buffer.buffer() ) & 0xFFFFFFFF );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| ( ptrdiff_t( buffer.buffer() ) & 0x0000FFFF );
-			}
+			return { pass.id, uint64_t( buffer.buffer() ) };
 		}
 	}
 
@@ -204,7 +186,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, view ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );
 
 		if ( res )
 		{
@@ -236,7 +218,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, buffer ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, buffer ), false );
 
 		if ( res )
 		{
-- 
2.43.0


From 9bf2cf052e1933b22de05f92a5c2cb2ebd2c381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 29/67] fix: attachments split from a merged view hold the view
 they stand for

---
 source/RenderGraph/Attachment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..d41e737 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -436,6 +436,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views = { view };
 	}
 
 	Attachment::Attachment( ImageViewId view )
-- 
2.43.0


From 95a1e8e51e365b43fd5cb81627166ba93077b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 30/67] fix: the state of a range holds the stages of all its
 subresources, like their accesses

---
 source/RenderGraph/FrameGraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 786964b..649349e 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -606,6 +606,7 @@ namespace crg
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wnull-dereference"
 							rit->second.state.access |= state.state.access;
+							rit->second.state.pipelineStage |= state.state.pipelineStage;
 #pragma GCC diagnostic pop
 						}
 					}
-- 
2.43.0


From 3a1a73bf434f7aad7c1a4e595f5495d3f5be0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 31/67] fix: no extent of a mip level is ever zero

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 649349e..39952de 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -357,9 +357,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0


From 3a77d203f76ce72cd2b825dcf15e89e0c17ff148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 32/67] fix: what a recording leaves alone is in the declared
 input state, if any

---
 include/RenderGraph/RecordContext.hpp | 1 +
 source/RenderGraph/FrameGraph.cpp     | 1 +
 source/RenderGraph/RecordContext.cpp  | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 7b46f4b..753da9a 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -35,6 +35,7 @@ namespace crg
 		*/
 		//@{
 		CRG_API void addResourceStates( RecordContext const & data );
+		CRG_API void addImageStates( LayerLayoutStatesHandler const & data );
 		CRG_API void addStates( RecordContext const & data );
 		/**
 		*\name	Pipeline
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 39952de..ed5525e 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -341,6 +341,7 @@ namespace crg
 		auto previous = std::move( m_finalState );
 		m_finalState = context;
 		// What this recording left alone still is in the state where it was found.
+		m_finalState.addImageStates( m_inputs );
 		m_finalState.addResourceStates( previous );
 	}
 
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index b70f12a..930d52d 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -128,6 +128,11 @@ namespace crg
 		}
 	}
 
+	void RecordContext::addImageStates( LayerLayoutStatesHandler const & data )
+	{
+		m_images.addStates( data );
+	}
+
 	void RecordContext::addStates( RecordContext const & data )
 	{
 		addResourceStates( data );
-- 
2.43.0


From a926c0c7cd87a14615c1b1ff30293bff729f76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 33/67] fix: what still is queued for deletion goes with the
 context

---
 source/RenderGraph/GraphContext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 3c403ce..31f5dab 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -147,6 +147,7 @@ namespace crg
 
 	GraphContext::~GraphContext()noexcept
 	{
+		delQueue.clear( *this );
 #if VK_EXT_debug_utils || VK_EXT_debug_marker
 		for ( auto const & [_, alloc] : m_allocated )
 		{
-- 
2.43.0


From e52169148ab8e0f085f056ffe86abf0431719530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 34/67] fix: a compute pipeline is created once for the indices
 which share it

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..dd73e57 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -53,7 +53,12 @@ namespace crg
 	{
 		resetCommandBuffer( index );
 		m_pipeline.resetPipeline( std::move( config ), index );
-		doCreatePipeline( index );
+
+		if ( getPipelineLayout() )
+		{
+			doCreatePipeline( index );
+		}
+
 		reRecordCurrent();
 	}
 
@@ -105,6 +110,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From a7fe1ecc27ec98634b26e8d2070f5015f720bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 35/67] fix: the semaphore of a graph whose compilation fails
 is destroyed

---
 include/RenderGraph/RunnableGraph.hpp |  2 +-
 source/RenderGraph/RunnableGraph.cpp  | 54 +++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..8e14be6 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -150,7 +150,7 @@ namespace crg
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
 		VkCommandBuffer m_commandBuffer{};
-		VkSemaphore m_semaphore{};
+		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
 		FramePassTimer m_timer;
 	};
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index a846ed4..c568bf9 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -47,6 +47,27 @@ namespace crg
 			return result;
 		}
 
+		static VkSemaphore createSemaphore( GraphContext & context
+			, std::string const & name )
+		{
+			VkSemaphore result{};
+
+			if ( context.vkCreateSemaphore )
+			{
+				VkSemaphoreCreateInfo createInfo{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO
+					, nullptr
+					, 0u };
+				auto res = context.vkCreateSemaphore( context.device
+					, &createInfo
+					, context.allocator
+					, &result );
+				checkVkResult( res, name + " - Semaphore creation" );
+				crgRegisterObject( context, name, result );
+			}
+
+			return result;
+		}
+
 		static LayerLayoutStates mergeRanges( LayerLayoutStatesMap nextLayouts
 			, LayerLayoutStatesMap::value_type const & currentLayout )
 		{
@@ -188,6 +209,14 @@ namespace crg
 				ctx.vkDestroyCommandPool( ctx.device, object, ctx.allocator );
 				object = {};
 			} }
+		, m_semaphore{ m_context
+			, rungrf::createSemaphore( m_context, m_graph.getName() + "/Graph" )
+			, []( GraphContext & ctx, VkSemaphore & object )noexcept
+			{
+				crgUnregisterObject( ctx, object );
+				ctx.vkDestroySemaphore( ctx.device, object, ctx.allocator );
+				object = {};
+			} }
 		, m_fence{ m_context
 			, graph.getName() + "/Graph"
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
@@ -195,19 +224,6 @@ namespace crg
 	{
 		auto name = m_graph.getName() + "/Graph";
 
-		if ( m_context.vkCreateSemaphore )
-		{
-			VkSemaphoreCreateInfo createInfo{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO
-				, nullptr
-				, 0u };
-			auto res = context.vkCreateSemaphore( m_context.device
-				, &createInfo
-				, m_context.allocator
-				, &m_semaphore );
-			checkVkResult( res, name + " - Semaphore creation" );
-			crgRegisterObject( m_context, name, m_semaphore );
-		}
-
 		if ( m_context.vkAllocateCommandBuffers )
 		{
 			VkCommandBufferAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO
@@ -266,14 +282,6 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
-		if ( m_context.vkDestroySemaphore && m_semaphore )
-		{
-			crgUnregisterObject( m_context, m_semaphore );
-			m_context.vkDestroySemaphore( m_context.device
-				, m_semaphore
-				, m_context.allocator );
-		}
-
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
@@ -381,14 +389,14 @@ namespace crg
 			, 1u
 			, &m_commandBuffer
 			, 1u
-			, &m_semaphore };
+			, &m_semaphore.object };
 		m_fence.reset();
 		m_context.delQueue.clear( m_context );
 		m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
 			, m_fence );
-		return { SemaphoreWait{ m_semaphore
+		return { SemaphoreWait{ m_semaphore.object
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
 
-- 
2.43.0


From 7612571fa85a0ceb3df800bdfa8726c97f0ebb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 36/67] fix: a render pass whose users failed to initialise is
 initialised again

---
 .../RunnablePasses/RenderPassHolder.hpp        |  1 +
 .../RenderGraph/RunnablePasses/RenderMesh.cpp  | 18 +++++++++++++-----
 .../RenderGraph/RunnablePasses/RenderPass.cpp  | 10 +++++++++-
 .../RunnablePasses/RenderPassHolder.cpp        |  5 +++++
 .../RenderGraph/RunnablePasses/RenderQuad.cpp  | 16 ++++++++++++----
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 8beffc8..580337f 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -32,6 +32,7 @@ namespace crg
 		CRG_API bool initialise( RecordContext & context
 			, crg::RunnablePass const & runnable
 			, uint32_t passIndex );
+		CRG_API void cleanup( uint32_t passIndex )noexcept;
 		CRG_API VkRenderPassBeginInfo getBeginInfo( uint32_t index )const;
 		CRG_API void begin( RecordContext & context
 			, VkCommandBuffer commandBuffer
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..ebe2856 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -51,11 +51,19 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderMesh.cleanup();
-			m_renderMesh.initialise( m_renderPass.getRenderSize()
-				, m_renderPass.getRenderPass( index )
-				, m_renderPass.createBlendState()
-				, index );
+			try
+			{
+				m_renderMesh.cleanup();
+				m_renderMesh.initialise( m_renderPass.getRenderSize()
+					, m_renderPass.getRenderPass( index )
+					, m_renderPass.createBlendState()
+					, index );
+			}
+			catch ( ... )
+			{
+				m_renderPass.cleanup( index );
+				throw;
+			}
 		}
 
 		m_renderPass.begin( context, commandBuffer, VK_SUBPASS_CONTENTS_INLINE, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderPass.cpp b/source/RenderGraph/RunnablePasses/RenderPass.cpp
index 951675b..6f73533 100644
--- a/source/RenderGraph/RunnablePasses/RenderPass.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPass.cpp
@@ -121,7 +121,15 @@ namespace crg
 	{
 		if ( m_holder.initialise( context, *this, index ) )
 		{
-			m_rpCallbacks.initialise( index );
+			try
+			{
+				m_rpCallbacks.initialise( index );
+			}
+			catch ( ... )
+			{
+				m_holder.cleanup( index );
+				throw;
+			}
 		}
 
 		m_holder.begin( context
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index f0b9378..46367e6 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -197,6 +197,11 @@ namespace crg
 		return true;
 	}
 
+	void RenderPassHolder::cleanup( uint32_t passIndex )noexcept
+	{
+		m_passes[passIndex].cleanup( m_context );
+	}
+
 	VkRenderPassBeginInfo RenderPassHolder::getBeginInfo( uint32_t index )const
 	{
 		auto frameBuffer = getFramebuffer( index );
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..9bbb853 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -51,10 +51,18 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderQuad.initialise( m_renderPass.getRenderSize()
-				, m_renderPass.getRenderPass( index )
-				, m_renderPass.createBlendState()
-				, index );
+			try
+			{
+				m_renderQuad.initialise( m_renderPass.getRenderSize()
+					, m_renderPass.getRenderPass( index )
+					, m_renderPass.createBlendState()
+					, index );
+			}
+			catch ( ... )
+			{
+				m_renderPass.cleanup( index );
+				throw;
+			}
 		}
 
 		m_renderPass.begin( context, commandBuffer, VK_SUBPASS_CONTENTS_INLINE, index );
-- 
2.43.0


From cdddbb76d8ca9bb3fb1841892e96e38f3584ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 37/67] fix: what a pipeline needs is created afresh after a
 failure

---
 .../RunnablePasses/PipelineHolder.cpp          | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..0f7946b 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -48,10 +48,18 @@ namespace crg
 	{
 		if ( !m_pipelineLayout )
 		{
-			doFillDescriptorBindings();
-			doCreateDescriptorSetLayout();
-			doCreatePipelineLayout();
-			doCreateDescriptorPool();
+			try
+			{
+				doFillDescriptorBindings();
+				doCreateDescriptorSetLayout();
+				doCreatePipelineLayout();
+				doCreateDescriptorPool();
+			}
+			catch ( ... )
+			{
+				cleanup();
+				throw;
+			}
 		}
 	}
 
@@ -239,6 +247,8 @@ namespace crg
 			return;
 		}
 
+		descriptorSet.writes.clear();
+
 		for ( auto & attach : m_pass.images )
 		{
 			if ( attach.isSampledView() )
-- 
2.43.0


From a6b6990f664de4e3e6b79763908d0c21efcd6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 38/67] fix: a compute pipeline which could not be created by a
 reset is created by the next recording

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index dd73e57..adbfaa6 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -90,6 +90,7 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
+		doCreatePipeline( index );
 		m_pipeline.recordInto( context, commandBuffer, index );
 		m_cpConfig.recordInto( context, commandBuffer, index );
 
-- 
2.43.0


From 8bdcf2bde189f19ee2fb48829cb52b5f48b2b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 39/67] fix: copies between buffers and images start at the
 offset of the buffer attachment

---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 2 +-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..1601b7d 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..064c43e 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From b48bd0e4c0087796784a305c7008b2340ee47f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 40/67] fix: a semaphore given several times is waited in all
 the stages it was given with

---
 source/RenderGraph/RunnablePass.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1181d66..7879662 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,14 +47,22 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( !wait.semaphore )
+			{
+				continue;
+			}
+
+			if ( auto it = std::find( semaphores.begin(), semaphores.end(), wait.semaphore );
+				it == semaphores.end() )
 			{
 				semaphores.push_back( wait.semaphore );
 				dstStageMasks.push_back( wait.dstStageMask );
 			}
+			else
+			{
+				// A semaphore can be waited only once, in every stage that needs it.
+				dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+			}
 		}
 	}
 
-- 
2.43.0


From cc352bc74eeff493889a885d86a7f6720e526cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 41/67] fix: what a pass queues for deletion is deleted once
 its own graph's submission is finished

---
 include/RenderGraph/RunnableGraph.hpp                | 6 ++++++
 source/RenderGraph/RunnableGraph.cpp                 | 3 +++
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp | 3 ++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 8e14be6..45bbdb5 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -127,6 +127,11 @@ namespace crg
 			return m_fence;
 		}
 
+		DeletionQueue & getDeletionQueue()noexcept
+		{
+			return m_delQueue;
+		}
+
 		FramePassTimer const & getTimer()const
 		{
 			return m_timer;
@@ -152,6 +157,7 @@ namespace crg
 		VkCommandBuffer m_commandBuffer{};
 		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
+		DeletionQueue m_delQueue;
 		FramePassTimer m_timer;
 	};
 }
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index c568bf9..7b22502 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -282,6 +282,8 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
+		m_delQueue.clear( m_context );
+
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
@@ -391,6 +393,7 @@ namespace crg
 			, 1u
 			, &m_semaphore.object };
 		m_fence.reset();
+		m_delQueue.clear( m_context );
 		m_context.delQueue.clear( m_context );
 		m_context.vkQueueSubmit( queue
 			, 1u
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index 0f7946b..509aa9a 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -221,7 +221,8 @@ namespace crg
 		if ( m_pipelines[index] )
 		{
 			auto pipeline = m_pipelines[index];
-			m_context.delQueue.push( [pipeline]( GraphContext & context )
+			// Executed once this graph's last submission is finished, whatever the other graphs do.
+			m_graph.getDeletionQueue().push( [pipeline]( GraphContext & context )
 				{
 					crgUnregisterObject( context, pipeline );
 					context.vkDestroyPipeline( context.device
-- 
2.43.0


From 87aeb4304a9f5ac690ae38e8e42069452d608e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 42/67] fix: render passes and framebuffers replaced while the
 last submission is in flight are destroyed once it is finished

---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  1 +
 .../RunnablePasses/RenderPassHolder.hpp       |  1 +
 .../RunnablePasses/RenderPassHolder.cpp       | 22 ++++++++++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index 1c4a253..52a6e8b 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -38,6 +38,7 @@ namespace crg
 	struct AttachmentTransitions;
 	struct Buffer;
 	struct FramePassTransitions;
+	struct DeletionQueue;
 	struct GraphContext;
 	struct ImageData;
 	struct ImageViewData;
diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 580337f..bdabd7b 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -93,6 +93,7 @@ namespace crg
 			PipelineState nextState;
 
 			void cleanup( crg::GraphContext & context )noexcept;
+			void release( DeletionQueue & queue );
 		};
 
 		FramePass const & m_pass;
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 46367e6..bdb633c 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -145,6 +145,26 @@ namespace crg
 		}
 	}
 
+	void RenderPassHolder::PassData::release( DeletionQueue & queue )
+	{
+		attaches.clear();
+		clearValues.clear();
+
+		if ( renderPass )
+		{
+			// The graph's last submission may still be using them.
+			queue.push( [oldFrameBuffer = frameBuffer, oldRenderPass = renderPass]( GraphContext & context )
+				{
+					PassData old;
+					old.frameBuffer = oldFrameBuffer;
+					old.renderPass = oldRenderPass;
+					old.cleanup( context );
+				} );
+			frameBuffer = {};
+			renderPass = {};
+		}
+	}
+
 	//*********************************************************************************************
 
 	RenderPassHolder::RenderPassHolder( FramePass const & pass
@@ -187,7 +207,7 @@ namespace crg
 			return false;
 		}
 
-		data.cleanup( m_context );
+		data.release( m_graph.getDeletionQueue() );
 		doCreateRenderPass( context
 			, entries
 			, previousState
-- 
2.43.0


From 76fef001586f305871b7ed63d0303e7c8d579b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 43/67] fix: a mesh whose render pass changes keeps the
 descriptor sets which may still be in use

---
 source/RenderGraph/RunnablePasses/RenderMesh.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index ebe2856..e27851e 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -53,7 +53,6 @@ namespace crg
 		{
 			try
 			{
-				m_renderMesh.cleanup();
 				m_renderMesh.initialise( m_renderPass.getRenderSize()
 					, m_renderPass.getRenderPass( index )
 					, m_renderPass.createBlendState()
-- 
2.43.0


From d1c20bdb3ddf33dcfb4bdc6926339d25a8d801ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 44/67] fix: recording a pass again on its own doesn't take the
 query slots of the frame still to be read

---
 include/RenderGraph/RunnablePass.hpp |  3 ++-
 source/RenderGraph/RunnablePass.cpp  | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/RenderGraph/RunnablePass.hpp b/include/RenderGraph/RunnablePass.hpp
index 0e737d0..c64b7f4 100644
--- a/include/RenderGraph/RunnablePass.hpp
+++ b/include/RenderGraph/RunnablePass.hpp
@@ -298,7 +298,8 @@ namespace crg
 			, RecordContext & context );
 		void recordInto( VkCommandBuffer commandBuffer
 			, uint32_t index
-			, RecordContext & context );
+			, RecordContext & context
+			, bool timed = true );
 
 		VkCommandBuffer doCreateCommandBuffer( std::string const & suffix );
 
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 7879662..77b4a10 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -370,13 +370,15 @@ namespace crg
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
 			, nullptr };
 		m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
-		recordInto( enabled.commandBuffer, index, context );
+		// This command buffer isn't the one rendering the frame, don't lose the timings of the frame for it.
+		recordInto( enabled.commandBuffer, index, context, false );
 		m_context.vkEndCommandBuffer( enabled.commandBuffer );
 	}
 
 	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
 		, uint32_t index
-		, RecordContext & context )
+		, RecordContext & context
+		, bool timed )
 	{
 		if ( m_ruConfig.resettable )
 		{
@@ -399,7 +401,11 @@ namespace crg
 				, { "[" + std::to_string( m_pass.id ) + "] " + m_pass.getGroupName()
 				, m_context.getNextRainbowColour() } );
 #pragma GCC diagnostic pop
-			m_timer.beginPass( commandBuffer );
+
+			if ( timed )
+			{
+				m_timer.beginPass( commandBuffer );
+			}
 
 			for ( auto & attach : m_pass.images )
 			{
@@ -509,7 +515,11 @@ namespace crg
 				action( context, commandBuffer, index );
 			}
 
-			m_timer.endPass( commandBuffer );
+			if ( timed )
+			{
+				m_timer.endPass( commandBuffer );
+			}
+
 			m_context.vkCmdEndDebugBlock( commandBuffer );
 		}
 
-- 
2.43.0


From b1e6c513b653de02dbe53b609b4f3b64d4be5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 45/67] fix: every substitute registered for a view runs before
 its next use

---
 source/RenderGraph/RecordContext.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 930d52d..050bdf6 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -213,22 +213,21 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
+		// Several passes may have been registered for this view since its last use.
+		auto it = std::stable_partition( m_implicitTransitions.begin()
 			, m_implicitTransitions.end()
 			, [&view]( ImplicitTransition const & lookup )
 			{
-				return lookup.view == view;
+				return !( lookup.view == view );
 			} );
+		std::vector< ImplicitTransition > transitions{ it, m_implicitTransitions.end() };
+		m_implicitTransitions.erase( it, m_implicitTransitions.end() );
 
-		if ( it != m_implicitTransitions.end() )
+		for ( auto const & transition : transitions )
 		{
-			auto pass = it->pass;
-			auto action = it->action;
-			m_implicitTransitions.erase( it );
-
-			if ( !pass->isEnabled() )
+			if ( !transition.pass->isEnabled() )
 			{
-				action( *this, commandBuffer, index );
+				transition.action( *this, commandBuffer, index );
 			}
 		}
 	}
-- 
2.43.0


From a6409e3fc813d846e644056e2d52f0a83728a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 46/67] fix: groups of the same name are exported to DOT once
 each

---
 source/RenderGraph/DotExport.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1d314b5..877feb0 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -375,8 +375,11 @@ namespace crg::dot
 
 					for ( auto & group : m_children )
 					{
-						group->write( streams );
-						stream << streams.find( group->getName() )->second.str();
+						// Several groups may have the same name, so each child is written on its own.
+						DisplayResult children;
+						group->write( children );
+						stream << children.find( group->getName() )->second.str();
+						streams.merge( children );
 					}
 
 					auto & stream2 = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
-- 
2.43.0


From 2ac23de6ca01c2048749566f08986b489fde0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 47/67] fix: the transitions of a graph are written to a stream
 as one DOT graph

---
 source/RenderGraph/DotExport.cpp | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 877feb0..6477fd9 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -802,6 +802,24 @@ namespace crg::dot
 			Config const & m_config;
 			std::set< GraphNode const * > & m_visited;
 		};
+
+		static void display( std::ostream & stream
+			, DisplayResult const & result
+			, Config const & config )
+		{
+			if ( config.splitGroups )
+			{
+				for ( auto const & [_, strm] : result )
+				{
+					stream << strm.str();
+				}
+			}
+			else
+			{
+				auto it = result.find( std::string{} );
+				stream << it->second.str();
+			}
+		}
 	}
 
 	DisplayResult displayPasses( RunnableGraph const & value
@@ -827,21 +845,7 @@ namespace crg::dot
 	{
 		auto result = displayPasses( value, config );
 
-		if ( config.splitGroups )
-		{
-			for ( auto const & [name, strm] : result )
-			{
-				if ( !name.empty() )
-				{
-					stream << strm.str();
-				}
-			}
-		}
-		else
-		{
-			auto it = result.find( std::string{} );
-			stream << it->second.str();
-		}
+		dotexp::display( stream, result, config );
 	}
 
 	void displayTransitions( std::ostream & stream
@@ -849,10 +853,6 @@ namespace crg::dot
 		, Config const & config )
 	{
 		auto result = displayTransitions( value, config );
-
-		for ( auto const & [_, strm] : result )
-		{
-			stream << strm.str();
-		}
+		dotexp::display( stream, result, config );
 	}
 }
-- 
2.43.0


From 2ed0fa25c04ab6cd50fa425a6310526053978e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 48/67] fix: the external destination of transitions is
 exported to DOT as such

---
 source/RenderGraph/DotExport.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 6477fd9..43c5910 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -554,11 +554,12 @@ namespace crg::dot
 
 			template< typename AttachT >
 			static void displayAttachPass( AttachT const & attach
+				, std::string const & external
 				, FramePassGroupStreams & groups
 				, Config const & config )
 			{
 				uint32_t nodeId = 0;
-				std::string node = "ExternalSource";
+				std::string node = external;
 				FramePassGroup const * group = nullptr;
 				std::string_view colour = extColour;
 
@@ -661,14 +662,14 @@ namespace crg::dot
 
 				for ( auto & transition : transitions.viewTransitions )
 				{
-					displayAttachPass( transition.outputAttach, groups, config );
-					displayAttachPass( transition.inputAttach, groups, config );
+					displayAttachPass( transition.outputAttach, "ExternalSource", groups, config );
+					displayAttachPass( transition.inputAttach, "ExternalDestination", groups, config );
 				}
 
 				for ( auto & transition : transitions.bufferTransitions )
 				{
-					displayAttachPass( transition.outputAttach, groups, config );
-					displayAttachPass( transition.inputAttach, groups, config );
+					displayAttachPass( transition.outputAttach, "ExternalSource", groups, config );
+					displayAttachPass( transition.inputAttach, "ExternalDestination", groups, config );
 				}
 
 				std::stringstream trstream;
-- 
2.43.0


From fad48828f557560dc546f175fd39e07d5203ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 49/67] fix: names are escaped in the DOT export

---
 source/RenderGraph/DotExport.cpp | 65 ++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 43c5910..6d35337 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -250,6 +250,33 @@ namespace crg::dot
 		static std::string_view constexpr extColour{ "#ff7f00" };
 		static std::string_view constexpr passColour{ "#00007f" };
 
+		// Text of a name, as it can be put between quotes in a DOT file.
+		static std::string escape( std::string const & name )
+		{
+			std::string result;
+			result.reserve( name.size() );
+
+			for ( auto c : name )
+			{
+				switch ( c )
+				{
+				case '"':
+				case '\\':
+					result += '\\';
+					result += c;
+					break;
+				case '\n':
+					result += "\\n";
+					break;
+				default:
+					result += c;
+					break;
+				}
+			}
+
+			return result;
+		}
+
 		struct FramePassGroupStreams
 		{
 			using FramePassGroupStreamsPtr = std::unique_ptr< FramePassGroupStreams >;
@@ -323,7 +350,7 @@ namespace crg::dot
 					if ( m_group )
 					{
 						auto & stream = streams.try_emplace( m_group->getName() ).first->second;
-						stream << "digraph \"" << m_group->getName() << "\" {\n";
+						stream << "digraph \"" << escape( m_group->getName() ) << "\" {\n";
 						stream << m_stream.str();
 						stream << "}\n";
 					}
@@ -353,7 +380,7 @@ namespace crg::dot
 								{ "#888888" },
 							};
 							stream << "subgraph cluster_" << m_group->id << " {\n";
-							stream << "  label=\"" << m_group->getName() << "\";\n";
+							stream << "  label=\"" << escape( m_group->getName() ) << "\";\n";
 
 							if ( m_config.withColours )
 							{
@@ -566,7 +593,7 @@ namespace crg::dot
 				if ( attach.pass )
 				{
 					nodeId = attach.pass->id;
-					node = attach.pass->getGroupName();
+					node = escape( attach.pass->getGroupName() );
 					group = &attach.pass->group;
 					colour = passColour;
 				}
@@ -611,8 +638,8 @@ namespace crg::dot
 				, FramePassGroupStreams & groups
 				, Config const & config )
 			{
-				auto srcName = transition.outputAttach.name;
-				auto dstName = transition.inputAttach.name;
+				auto srcName = escape( transition.outputAttach.name );
+				auto dstName = escape( transition.inputAttach.name );
 				std::string srcNode = "ExternalSource";
 				std::string dstNode = "ExternalDestination";
 				auto srcStream = &groups;
@@ -621,13 +648,13 @@ namespace crg::dot
 
 				if ( transition.outputAttach.pass )
 				{
-					srcNode = transition.outputAttach.pass->getGroupName();
+					srcNode = escape( transition.outputAttach.pass->getGroupName() );
 					srcStream = groups.find( &transition.outputAttach.pass->group );
 				}
 
 				if ( transition.inputAttach.pass )
 				{
-					dstNode = transition.inputAttach.pass->getGroupName();
+					dstNode = escape( transition.inputAttach.pass->getGroupName() );
 					dstStream = groups.find( &transition.inputAttach.pass->group );
 				}
 
@@ -650,8 +677,8 @@ namespace crg::dot
 				}
 
 				displayNode( *curstream, name, "box", colour, curStreams->getNodes(), config );
-				displayEdge( *curstream, srcNode, name, getAttachName( transition.data ), colour, config );
-				displayEdge( *curstream, name, dstNode, getAttachName( transition.data ), colour, config );
+				displayEdge( *curstream, srcNode, name, escape( getAttachName( transition.data ) ), colour, config );
+				displayEdge( *curstream, name, dstNode, escape( getAttachName( transition.data ) ), colour, config );
 			}
 
 			static void submit( DisplayResult & streams
@@ -717,12 +744,12 @@ namespace crg::dot
 						return ilhs.outputAttach.name < irhs.outputAttach.name;
 					} );
 
-				auto lhsStream = &displayPassNode( lhs->getId(), lhs->getName(), &lhs->getGroup(), passColour, m_groups, m_config );
-				auto rhsStream = &displayPassNode( rhs->getId(), rhs->getName(), &rhs->getGroup(), passColour, m_groups, m_config );
+				auto lhsName = escape( lhs->getName() );
+				auto rhsName = escape( rhs->getName() );
+				auto lhsStream = &displayPassNode( lhs->getId(), lhsName, &lhs->getGroup(), passColour, m_groups, m_config );
+				auto rhsStream = &displayPassNode( rhs->getId(), rhsName, &rhs->getGroup(), passColour, m_groups, m_config );
 				auto curStreams = &m_groups;
 				auto curstream = &m_groups.getStream();
-				auto & lhsName = lhs->getName();
-				auto & rhsName = rhs->getName();
 
 				if ( lhsStream != &m_groups
 					&& rhsStream != &m_groups )
@@ -741,20 +768,20 @@ namespace crg::dot
 
 				for ( auto const & transition : transitions.viewTransitions )
 				{
-					auto attachName = transition.inputAttach.name;
+					auto attachName = escape( transition.inputAttach.name );
 					std::string name{ "Transition to\\n" + attachName };
 					displayNode( *curstream, name, "box", imgColour, curStreams->getNodes(), m_config );
-					displayEdge( *curstream, lhsName, name, transition.data.data->name, imgColour, m_config );
-					displayEdge( *curstream, name, rhsName, transition.data.data->name, imgColour, m_config );
+					displayEdge( *curstream, lhsName, name, escape( transition.data.data->name ), imgColour, m_config );
+					displayEdge( *curstream, name, rhsName, escape( transition.data.data->name ), imgColour, m_config );
 				}
 
 				for ( auto const & transition : transitions.bufferTransitions )
 				{
-					auto attachName = transition.inputAttach.name;
+					auto attachName = escape( transition.inputAttach.name );
 					std::string name{ "Transition to\\n" + attachName };
 					displayNode( *curstream, name, "box", bufColour, curStreams->getNodes(), m_config );
-					displayEdge( *curstream, lhsName, name, transition.data.name, bufColour, m_config );
-					displayEdge( *curstream, name, rhsName, transition.data.name, bufColour, m_config );
+					displayEdge( *curstream, lhsName, name, escape( transition.data.name ), bufColour, m_config );
+					displayEdge( *curstream, name, rhsName, escape( transition.data.name ), bufColour, m_config );
 				}
 			}
 
-- 
2.43.0


From 4bb35c1729bfadefe97e2507b28d83f96fa16341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 50/67] fix: passes of groups of the same name are told apart
 in the DOT export

---
 source/RenderGraph/DotExport.cpp | 37 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 6d35337..a96777f 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -526,8 +526,26 @@ namespace crg::dot
 				return *groups.emplace( group ).first;
 			}
 
+			// Passes of different groups may have the same group name.
+			static std::string getNodeName( GraphNode const & node )
+			{
+				auto pass = getFramePass( node );
+				return escape( pass ? pass->getFullName() : node.getName() );
+			}
+
+			static void displayLabel( std::ostream & stream
+				, std::string const & name
+				, std::string const & label )
+			{
+				if ( label != name )
+				{
+					stream << " label=\"" << label << "\"";
+				}
+			}
+
 			static FramePassGroupStreams & displayPassNode( uint32_t id
 				, std::string const & name
+				, std::string const & label
 				, FramePassGroup const * group
 				, std::string_view const & colour
 				, FramePassGroupStreams & groups
@@ -540,6 +558,7 @@ namespace crg::dot
 				{
 					stream << Indent{ 2 };
 					stream << "\"" << name << "\" [ shape=ellipse";
+					displayLabel( stream, name, label );
 
 					if ( config.withIds )
 					{
@@ -587,18 +606,20 @@ namespace crg::dot
 			{
 				uint32_t nodeId = 0;
 				std::string node = external;
+				std::string label = external;
 				FramePassGroup const * group = nullptr;
 				std::string_view colour = extColour;
 
 				if ( attach.pass )
 				{
 					nodeId = attach.pass->id;
-					node = escape( attach.pass->getGroupName() );
+					node = escape( attach.pass->getFullName() );
+					label = escape( attach.pass->getGroupName() );
 					group = &attach.pass->group;
 					colour = passColour;
 				}
 
-				displayPassNode( nodeId, node, group, colour, groups, config );
+				displayPassNode( nodeId, node, label, group, colour, groups, config );
 			}
 
 			static std::string const & getAttachName( crg::Buffer const & data )
@@ -648,13 +669,13 @@ namespace crg::dot
 
 				if ( transition.outputAttach.pass )
 				{
-					srcNode = escape( transition.outputAttach.pass->getGroupName() );
+					srcNode = escape( transition.outputAttach.pass->getFullName() );
 					srcStream = groups.find( &transition.outputAttach.pass->group );
 				}
 
 				if ( transition.inputAttach.pass )
 				{
-					dstNode = escape( transition.inputAttach.pass->getGroupName() );
+					dstNode = escape( transition.inputAttach.pass->getFullName() );
 					dstStream = groups.find( &transition.inputAttach.pass->group );
 				}
 
@@ -744,10 +765,10 @@ namespace crg::dot
 						return ilhs.outputAttach.name < irhs.outputAttach.name;
 					} );
 
-				auto lhsName = escape( lhs->getName() );
-				auto rhsName = escape( rhs->getName() );
-				auto lhsStream = &displayPassNode( lhs->getId(), lhsName, &lhs->getGroup(), passColour, m_groups, m_config );
-				auto rhsStream = &displayPassNode( rhs->getId(), rhsName, &rhs->getGroup(), passColour, m_groups, m_config );
+				auto lhsName = getNodeName( *lhs );
+				auto rhsName = getNodeName( *rhs );
+				auto lhsStream = &displayPassNode( lhs->getId(), lhsName, escape( lhs->getName() ), &lhs->getGroup(), passColour, m_groups, m_config );
+				auto rhsStream = &displayPassNode( rhs->getId(), rhsName, escape( rhs->getName() ), &rhs->getGroup(), passColour, m_groups, m_config );
 				auto curStreams = &m_groups;
 				auto curstream = &m_groups.getStream();
 
-- 
2.43.0


From 455b01b06d9b394b838d113ef76372ead13bc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 51/67] fix: each transition has its own node in the DOT export

---
 source/RenderGraph/DotExport.cpp | 33 ++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index a96777f..08c8441 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -497,6 +497,7 @@ namespace crg::dot
 
 			static void displayNode( std::ostream & stream
 				, std::string const & name
+				, std::string const & label
 				, std::string const & shape
 				, std::string_view const & colour
 				, std::set< std::string, std::less<> > & nodes
@@ -506,6 +507,7 @@ namespace crg::dot
 				{
 					stream << Indent{ 2 };
 					stream << "\"" << name << "\" [ shape=" << shape;
+					displayLabel( stream, name, label );
 
 					if ( config.withColours )
 					{
@@ -533,6 +535,16 @@ namespace crg::dot
 				return escape( pass ? pass->getFullName() : node.getName() );
 			}
 
+			// So may their attachments.
+			static std::string getTransitionName( GraphNode const & node
+				, std::string const & label )
+			{
+				auto name = getNodeName( node );
+				return ( name == escape( node.getName() ) )
+					? label
+					: label + "\\n" + name;
+			}
+
 			static void displayLabel( std::ostream & stream
 				, std::string const & name
 				, std::string const & label )
@@ -656,6 +668,7 @@ namespace crg::dot
 			static void displayTransitionEdge( std::ostream & stream
 				, std::string_view const & colour
 				, TransitionT const & transition
+				, size_t index
 				, FramePassGroupStreams & groups
 				, Config const & config )
 			{
@@ -679,7 +692,8 @@ namespace crg::dot
 					dstStream = groups.find( &transition.inputAttach.pass->group );
 				}
 
-				std::string name{ srcName + "\\ntransition to\\n" + dstName };
+				std::string name{ "Transition " + std::to_string( index ) };
+				std::string label{ srcName + "\\ntransition to\\n" + dstName };
 				auto curstream = &stream;
 
 				if ( srcStream != &groups
@@ -697,7 +711,7 @@ namespace crg::dot
 					}
 				}
 
-				displayNode( *curstream, name, "box", colour, curStreams->getNodes(), config );
+				displayNode( *curstream, name, label, "box", colour, curStreams->getNodes(), config );
 				displayEdge( *curstream, srcNode, name, escape( getAttachName( transition.data ) ), colour, config );
 				displayEdge( *curstream, name, dstNode, escape( getAttachName( transition.data ) ), colour, config );
 			}
@@ -721,15 +735,16 @@ namespace crg::dot
 				}
 
 				std::stringstream trstream;
+				size_t index{};
 
 				for ( auto & transition : transitions.viewTransitions )
 				{
-					displayTransitionEdge( trstream, imgColour, transition, groups, config );
+					displayTransitionEdge( trstream, imgColour, transition, ++index, groups, config );
 				}
 
 				for ( auto & transition : transitions.bufferTransitions )
 				{
-					displayTransitionEdge( trstream, bufColour, transition, groups, config );
+					displayTransitionEdge( trstream, bufColour, transition, ++index, groups, config );
 				}
 
 				groups.write( streams, trstream );
@@ -790,8 +805,9 @@ namespace crg::dot
 				for ( auto const & transition : transitions.viewTransitions )
 				{
 					auto attachName = escape( transition.inputAttach.name );
-					std::string name{ "Transition to\\n" + attachName };
-					displayNode( *curstream, name, "box", imgColour, curStreams->getNodes(), m_config );
+					std::string label{ "Transition to\\n" + attachName };
+					std::string name{ getTransitionName( *rhs, label ) };
+					displayNode( *curstream, name, label, "box", imgColour, curStreams->getNodes(), m_config );
 					displayEdge( *curstream, lhsName, name, escape( transition.data.data->name ), imgColour, m_config );
 					displayEdge( *curstream, name, rhsName, escape( transition.data.data->name ), imgColour, m_config );
 				}
@@ -799,8 +815,9 @@ namespace crg::dot
 				for ( auto const & transition : transitions.bufferTransitions )
 				{
 					auto attachName = escape( transition.inputAttach.name );
-					std::string name{ "Transition to\\n" + attachName };
-					displayNode( *curstream, name, "box", bufColour, curStreams->getNodes(), m_config );
+					std::string label{ "Transition to\\n" + attachName };
+					std::string name{ getTransitionName( *rhs, label ) };
+					displayNode( *curstream, name, label, "box", bufColour, curStreams->getNodes(), m_config );
 					displayEdge( *curstream, lhsName, name, escape( transition.data.name ), bufColour, m_config );
 					displayEdge( *curstream, name, rhsName, escape( transition.data.name ), bufColour, m_config );
 				}
-- 
2.43.0


From 88002796c6f211b2a18393f65be1565956b591d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 52/67] fix: inverted texture coordinates of quads mirror the
 viewport instead of leaving it

---
 source/RenderGraph/ResourceHandler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 4cdb5b4..788aa98 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -454,10 +454,11 @@ namespace crg
 					auto rangeV = 1.0;
 					auto minV = -rangeV;
 					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
+					// Inverting mirrors the [0, 1] range the viewport shows.
+					auto realMinU = float( config.invertU ? rangeU - minU : minU );
+					auto realMaxU = float( config.invertU ? rangeU - maxU : maxU );
+					auto realMinV = float( config.invertV ? rangeV - minV : minV );
+					auto realMaxV = float( config.invertV ? rangeV - maxV : maxV );
 					std::array<reshdl::Quad::Vertex, 3u > vertexData
 					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
 						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-- 
2.43.0


From f10aacf8d2cc5d6372a3d83b61d69edb349a492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:00 +0000
Subject: [PATCH 53/67] fix: quads and meshes cover the render area of the
 recorded index when no render size is set

---
 .../RunnablePasses/PipelineHolder.hpp         |  9 ++++++
 .../RunnablePasses/RenderMeshHolder.hpp       |  4 +--
 .../RunnablePasses/RenderPassHolder.hpp       |  7 +++++
 .../RunnablePasses/RenderQuadHolder.hpp       |  4 +--
 .../RenderGraph/RunnablePasses/RenderMesh.cpp |  2 +-
 .../RunnablePasses/RenderMeshHolder.cpp       | 29 +++++++++++++-----
 .../RenderGraph/RunnablePasses/RenderQuad.cpp |  2 +-
 .../RunnablePasses/RenderQuadHolder.cpp       | 30 ++++++++++++++-----
 8 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
index 4955db0..cc8326d 100644
--- a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
@@ -49,6 +49,15 @@ namespace crg
 			return m_descriptorSets[index].set;
 		}
 
+		/**
+		*\brief
+		*	Tells if one pipeline is used for all the pass indices.
+		*/
+		bool isShared()const
+		{
+			return m_pipelines.size() == 1u;
+		}
+
 		VkPipelineLayout getPipelineLayout()const
 		{
 			return m_pipelineLayout;
diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d39e7aa..d708530 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -40,8 +40,7 @@ namespace crg
 		CRG_API VkExtent2D getRenderSize()const;
 
 	private:
-		void doPreparePipelineStates( VkExtent2D const & renderSize
-			, VkRenderPass renderPass
+		void doPreparePipelineStates( VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState );
 		void doCreatePipeline( uint32_t index );
 		VkPipelineViewportStateCreateInfo doCreateViewportState( VkExtent2D const & renderSize
@@ -53,6 +52,7 @@ namespace crg
 		PipelineHolder m_pipeline;
 		VkRenderPass m_renderPass{};
 		VkExtent2D m_renderSize{};
+		std::vector< VkExtent2D > m_renderSizes{};
 		VkViewport m_viewport{};
 		VkRect2D m_scissor{};
 		VkPipelineViewportStateCreateInfo m_vpState{};
diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index bdabd7b..0ad066f 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -53,6 +53,13 @@ namespace crg
 			return m_size;
 		}
 
+		VkExtent2D const & getRenderSize( uint32_t index )const
+		{
+			return ( m_size.width && m_size.height )
+				? m_size
+				: m_passes[index].renderArea.extent;
+		}
+
 		VkRect2D const & getRenderArea( uint32_t index )const
 		{
 			return m_passes[index].renderArea;
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index 7630f46..9b97492 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -53,8 +53,7 @@ namespace crg
 		}
 
 	private:
-		void doPreparePipelineStates( VkExtent2D const & renderSize
-			, VkRenderPass renderPass
+		void doPreparePipelineStates( VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState );
 		void doCreatePipeline( uint32_t passIndex );
 		VkPipelineViewportStateCreateInfo doCreateViewportState( VkExtent2D const & renderSize
@@ -69,6 +68,7 @@ namespace crg
 		VertexBuffer const * m_vertexBuffer{};
 		VkRenderPass m_renderPass{};
 		VkExtent2D m_renderSize{};
+		std::vector< VkExtent2D > m_renderSizes{};
 		VkViewport m_viewport{};
 		VkRect2D m_scissor{};
 		VkPipelineViewportStateCreateInfo m_vpState{};
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index e27851e..d461fe4 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -53,7 +53,7 @@ namespace crg
 		{
 			try
 			{
-				m_renderMesh.initialise( m_renderPass.getRenderSize()
+				m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 					, m_renderPass.getRenderPass( index )
 					, m_renderPass.createBlendState()
 					, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index ee2f234..9ad955d 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -34,6 +34,7 @@ namespace crg
 			, maxPassCount }
 		, m_renderSize{ config.m_renderSize ? *config.m_renderSize : getDefaultV< VkExtent2D >() }
 	{
+		m_renderSizes.resize( maxPassCount );
 		m_iaState = { VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO
 			, nullptr
 			, 0u
@@ -68,11 +69,12 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
+		m_renderSizes[index] = renderSize;
 		m_pipeline.initialise();
 
 		if ( !m_renderPass )
 		{
-			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
+			doPreparePipelineStates( renderPass, std::move( blendState ) );
 		}
 		else if ( m_renderPass != renderPass )
 		{
@@ -92,8 +94,9 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
+		m_renderSizes[index] = renderSize;
 		m_pipeline.resetPipeline( {}, index );
-		doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
+		doPreparePipelineStates( renderPass, std::move( blendState ) );
 		doCreatePipeline( index );
 	}
 
@@ -102,7 +105,7 @@ namespace crg
 	{
 		m_pipeline.resetPipeline( std::move( config ), index );
 
-		if ( m_renderPass )
+		if ( m_renderPass && m_renderSizes[index].width )
 		{
 			doCreatePipeline( index );
 		}
@@ -112,6 +115,15 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
+		if ( auto const & size = m_renderSizes[index];
+			m_pipeline.isShared()
+			&& size.width
+			&& ( m_renderSize.width != size.width || m_renderSize.height != size.height ) )
+		{
+			// It was built for an index of another size.
+			m_pipeline.resetPipeline( {}, index );
+		}
+
 		doCreatePipeline( index );
 		m_pipeline.recordInto( context, commandBuffer, index );
 		m_config.recordInto( context, commandBuffer, index );
@@ -167,12 +179,9 @@ namespace crg
 		return m_renderSize;
 	}
 
-	void RenderMeshHolder::doPreparePipelineStates( VkExtent2D const & renderSize
-		, VkRenderPass renderPass
+	void RenderMeshHolder::doPreparePipelineStates( VkRenderPass renderPass
 		, VkPipelineColorBlendStateCreateInfo blendState )
 	{
-		m_vpState = doCreateViewportState( renderSize, m_viewport, m_scissor );
-		m_renderSize = renderSize;
 		m_renderPass = renderPass;
 		m_blendAttachs = { blendState.pAttachments, blendState.pAttachments + blendState.attachmentCount };
 		m_blendState = std::move( blendState );
@@ -186,6 +195,12 @@ namespace crg
 			return;
 		}
 
+		if ( m_renderSizes[index].width )
+		{
+			m_renderSize = m_renderSizes[index];
+		}
+
+		m_vpState = doCreateViewportState( m_renderSize, m_viewport, m_scissor );
 		auto & program = m_pipeline.getProgram( index );
 		VkGraphicsPipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO
 			, nullptr
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 9bbb853..4e199dc 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -53,7 +53,7 @@ namespace crg
 		{
 			try
 			{
-				m_renderQuad.initialise( m_renderPass.getRenderSize()
+				m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 					, m_renderPass.getRenderPass( index )
 					, m_renderPass.createBlendState()
 					, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index cf1cbff..e5379f0 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -34,6 +34,7 @@ namespace crg
 			, maxPassCount }
 		, m_useTexCoord{ config.m_texcoordConfig }
 	{
+		m_renderSizes.resize( maxPassCount );
 		m_iaState = { VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO
 			, nullptr
 			, 0u
@@ -68,12 +69,14 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
+		m_renderSizes[index] = renderSize;
+
 		if ( !m_vertexBuffer )
 		{
 			m_pipeline.initialise();
 			m_vertexBuffer = &m_graph.createQuadTriVertexBuffer( m_useTexCoord
 				, m_config.texcoordConfig );
-			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
+			doPreparePipelineStates( renderPass, std::move( blendState ) );
 		}
 		else if ( m_renderPass != renderPass )
 		{
@@ -88,8 +91,9 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
+		m_renderSizes[index] = renderSize;
 		m_pipeline.resetPipeline( {}, index );
-		doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
+		doPreparePipelineStates( renderPass, std::move( blendState ) );
 		doCreatePipeline( index );
 	}
 
@@ -98,7 +102,7 @@ namespace crg
 	{
 		m_pipeline.resetPipeline( std::move( config ), index );
 
-		if ( m_renderPass )
+		if ( m_renderPass && m_renderSizes[index].width )
 		{
 			doCreatePipeline( index );
 		}
@@ -108,6 +112,15 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
+		if ( auto const & size = m_renderSizes[index];
+			m_pipeline.isShared()
+			&& size.width
+			&& ( m_renderSize.width != size.width || m_renderSize.height != size.height ) )
+		{
+			// It was built for an index of another size.
+			m_pipeline.resetPipeline( {}, index );
+		}
+
 		doCreatePipeline( index );
 		m_pipeline.recordInto( context, commandBuffer, index );
 		m_config.recordInto( context, commandBuffer, index );
@@ -150,12 +163,9 @@ namespace crg
 			: ( m_config.enabled ? *m_config.enabled : true ) );
 	}
 
-	void RenderQuadHolder::doPreparePipelineStates( VkExtent2D const & renderSize
-		, VkRenderPass renderPass
+	void RenderQuadHolder::doPreparePipelineStates( VkRenderPass renderPass
 		, VkPipelineColorBlendStateCreateInfo blendState )
 	{
-		m_vpState = doCreateViewportState( renderSize, m_viewport, m_scissor );
-		m_renderSize = renderSize;
 		m_renderPass = renderPass;
 		m_blendAttachs = { blendState.pAttachments, blendState.pAttachments + blendState.attachmentCount };
 		m_blendState = std::move( blendState );
@@ -169,6 +179,12 @@ namespace crg
 			return;
 		}
 
+		if ( m_renderSizes[index].width )
+		{
+			m_renderSize = m_renderSizes[index];
+		}
+
+		m_vpState = doCreateViewportState( m_renderSize, m_viewport, m_scissor );
 		auto & program = m_pipeline.getProgram( index );
 		VkGraphicsPipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From 6858d6eaf516d67b486ecc0e3db9e93da5b021ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 54/67] fix: a quad or mesh whose initialisation failed forgets
 the destroyed render pass

---
 include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp | 1 +
 include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp | 1 +
 source/RenderGraph/RunnablePasses/RenderMesh.cpp        | 1 +
 source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp  | 5 +++++
 source/RenderGraph/RunnablePasses/RenderQuad.cpp        | 1 +
 source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp  | 5 +++++
 6 files changed, 14 insertions(+)

diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d708530..5d4842f 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -27,6 +27,7 @@ namespace crg
 			, VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState
 			, uint32_t index );
+		CRG_API void releaseRenderPass();
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
 		CRG_API void record( RecordContext & context
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index 9b97492..c9283df 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -26,6 +26,7 @@ namespace crg
 			, VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState
 			, uint32_t index );
+		CRG_API void releaseRenderPass();
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
 		CRG_API void record( RecordContext & context
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index d461fe4..03a59ab 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -60,6 +60,7 @@ namespace crg
 			}
 			catch ( ... )
 			{
+				m_renderMesh.releaseRenderPass();
 				m_renderPass.cleanup( index );
 				throw;
 			}
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index 9ad955d..adfe124 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -100,6 +100,11 @@ namespace crg
 		doCreatePipeline( index );
 	}
 
+	void RenderMeshHolder::releaseRenderPass()
+	{
+		m_renderPass = {};
+	}
+
 	void RenderMeshHolder::resetPipeline( VkPipelineShaderStageCreateInfoArray config
 		, uint32_t index )
 	{
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 4e199dc..e03072d 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -60,6 +60,7 @@ namespace crg
 			}
 			catch ( ... )
 			{
+				m_renderQuad.releaseRenderPass();
 				m_renderPass.cleanup( index );
 				throw;
 			}
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index e5379f0..3fbacd6 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -97,6 +97,11 @@ namespace crg
 		doCreatePipeline( index );
 	}
 
+	void RenderQuadHolder::releaseRenderPass()
+	{
+		m_renderPass = {};
+	}
+
 	void RenderQuadHolder::resetPipeline( VkPipelineShaderStageCreateInfoArray config
 		, uint32_t index )
 	{
-- 
2.43.0


From 9d5c52485dc3720d12aceab24406dae875a4f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 55/67] fix: a buffer attachment isn't a colour attachment

---
 include/RenderGraph/Attachment.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/RenderGraph/Attachment.hpp b/include/RenderGraph/Attachment.hpp
index 368fd82..7841a8d 100644
--- a/include/RenderGraph/Attachment.hpp
+++ b/include/RenderGraph/Attachment.hpp
@@ -495,12 +495,7 @@ namespace crg
 
 		bool isColourAttach()const
 		{
-			return !isSampledView()
-				&& !isTransitionView()
-				&& !isStorageView()
-				&& !isTransferView()
-				&& !isDepthAttach()
-				&& !isStencilAttach();
+			return isImage() && imageAttach.isColourAttach();
 		}
 
 		bool isColourInputAttach()const
-- 
2.43.0


From cf1e1115d37451d9b783f8273b98b1d7b3242533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 56/67] fix: the separate depth and stencil layouts have their
 access and stage masks

---
 source/RenderGraph/FrameGraph.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index ed5525e..f32c54a 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -418,9 +418,17 @@ namespace crg
 			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+#endif
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL:
@@ -525,6 +533,12 @@ namespace crg
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
-- 
2.43.0


From f0ccb3342d5423651a640b6d8965c26a0d1fec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 57/67] fix: attachments wanting different layouts or accesses
 aren't equal

---
 source/RenderGraph/Attachment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index d41e737..5ad1218 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -629,7 +629,9 @@ namespace crg
 			&& lhs.buffer == rhs.buffer
 			&& lhs.view == rhs.view
 			&& lhs.range.offset == rhs.range.offset
-			&& lhs.range.size == rhs.range.size;
+			&& lhs.range.size == rhs.range.size
+			&& lhs.wantedAccess.access == rhs.wantedAccess.access
+			&& lhs.wantedAccess.pipelineStage == rhs.wantedAccess.pipelineStage;
 	}
 
 	bool operator==( ImageAttachment const & lhs
@@ -643,7 +645,8 @@ namespace crg
 			&& lhs.stencilStoreOp == rhs.stencilStoreOp
 			&& lhs.samplerDesc == rhs.samplerDesc
 			&& lhs.clearValue == rhs.clearValue
-			&& lhs.blendState == rhs.blendState;
+			&& lhs.blendState == rhs.blendState
+			&& lhs.wantedLayout == rhs.wantedLayout;
 	}
 
 	bool operator==( Attachment const & lhs
-- 
2.43.0


From cdf2157db09e16ae12315da507da81d3b25f4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 58/67] fix: a pass only reading a buffer isn't taken for one
 writing it

---
 source/RenderGraph/FramePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index cbd7d08..5e6d62d 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -121,6 +121,7 @@ namespace crg
 				, [&buffer]( Attachment const & lookup )
 				{
 					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
+						&& lookup.isOutput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -135,6 +136,7 @@ namespace crg
 				, [&buffer]( Attachment const & lookup )
 				{
 					return ( lookup.isStorageBuffer() || lookup.isTransferBuffer() )
+						&& lookup.isInput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
-- 
2.43.0


From 43b6779e279abc30ba17ac292d44bf421b03d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 59/67] fix: a graph takes over the most recent states known to
 it and its dependencies

The states were taken from the dependency listed first, however old, and
before the ones of the previous recording of the graph itself.
---
 include/RenderGraph/RecordContext.hpp |  30 +++++
 source/RenderGraph/RecordContext.cpp  | 152 ++++++++++++++++++++++++--
 source/RenderGraph/RunnableGraph.cpp  |   3 +
 3 files changed, 177 insertions(+), 8 deletions(-)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 753da9a..421d5e5 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -38,6 +38,11 @@ namespace crg
 		CRG_API void addImageStates( LayerLayoutStatesHandler const & data );
 		CRG_API void addStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Updates the states already held, with the more recent ones from \p data.
+		*/
+		CRG_API void updateStates( RecordContext const & data );
+		/**
 		*\name	Pipeline
 		*/
 		//@{
@@ -195,13 +200,38 @@ namespace crg
 		}
 
 	private:
+		using LevelSerials = std::map< uint32_t, uint64_t >;
+		using LayerSerials = std::map< uint32_t, LevelSerials >;
+		using ImageSerials = std::map< uint32_t, LayerSerials >;
+		using BufferSerials = std::map< VkBuffer, uint64_t >;
+
+		enum class Merge
+		{
+			eAddMissing,
+			eAddMissingOrLater,
+			eUpdateOlder,
+		};
+
 		ContextResourcesCache & getResources()const;
+		void mergeStates( RecordContext const & data
+			, Merge merge );
+		uint64_t getSerial( uint32_t image
+			, uint32_t layer
+			, uint32_t level )const;
+		uint64_t getSerial( VkBuffer buffer )const;
+		void confirmState( ImageId image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange );
+		void confirmState( VkBuffer buffer );
 
 	private:
 		ResourceHandler * m_handler;
 		ContextResourcesCache * m_resources;
 		LayerLayoutStatesHandler m_images;
 		AccessStateMap m_buffers;
+		// When the states were last known to hold, the states from graph inputs having no serial.
+		ImageSerials m_imageSerials;
+		BufferSerials m_bufferSerials;
 		std::vector< ImplicitTransition > m_implicitTransitions;
 		PassIndexArray m_state;
 		PipelineState m_prevPipelineState{};
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 050bdf6..a71e20a 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -9,6 +9,8 @@ See LICENSE file in root folder.
 #include "RenderGraph/RunnableGraph.hpp"
 
 #include <array>
+#include <atomic>
+#include <cassert>
 #include <string>
 #include <type_traits>
 #include <unordered_set>
@@ -80,6 +82,12 @@ namespace crg
 			}
 		}
 
+		static uint64_t getNextSerial()
+		{
+			static std::atomic< uint64_t > serial{ 0u };
+			return ++serial;
+		}
+
 		static bool hasSingleLayout( RecordContext const & context
 			, ImageId const & image
 			, VkImageViewType viewType
@@ -120,12 +128,7 @@ namespace crg
 
 	void RecordContext::addResourceStates( RecordContext const & data )
 	{
-		m_images.addStates( data.m_images );
-
-		for ( auto & state : data.m_buffers )
-		{
-			m_buffers.insert( state );
-		}
+		mergeStates( data, Merge::eAddMissing );
 	}
 
 	void RecordContext::addImageStates( LayerLayoutStatesHandler const & data )
@@ -135,7 +138,7 @@ namespace crg
 
 	void RecordContext::addStates( RecordContext const & data )
 	{
-		addResourceStates( data );
+		mergeStates( data, Merge::eAddMissingOrLater );
 
 		if ( m_prevPipelineState.access < data.m_currPipelineState.access )
 		{
@@ -143,6 +146,11 @@ namespace crg
 		}
 	}
 
+	void RecordContext::updateStates( RecordContext const & data )
+	{
+		mergeStates( data, Merge::eUpdateOlder );
+	}
+
 	void RecordContext::setNextPipelineState( PipelineState const & state
 		, LayerLayoutStatesMap const & imageLayouts )
 	{
@@ -155,7 +163,12 @@ namespace crg
 	void RecordContext::setLayoutState( crg::ImageViewId view
 		, LayoutState const & layoutState )
 	{
-		m_images.setLayoutState( view, layoutState );
+		assert( view.data->source.empty()
+			&& "Merged image views must be resolved before setting their layout state" );
+		setLayoutState( view.data->image
+			, view.data->info.viewType
+			, view.data->info.subresourceRange
+			, layoutState );
 	}
 
 	LayoutState RecordContext::getLayoutState( ImageViewId view )const
@@ -172,6 +185,9 @@ namespace crg
 			, viewType
 			, subresourceRange
 			, layoutState );
+		confirmState( image
+			, viewType
+			, subresourceRange );
 	}
 
 	LayoutState RecordContext::getLayoutState( ImageId image
@@ -237,6 +253,7 @@ namespace crg
 		, AccessState const & layoutState )
 	{
 		m_buffers.insert_or_assign( buffer, layoutState );
+		confirmState( buffer );
 	}
 
 	AccessState const & RecordContext::getAccessState( VkBuffer buffer
@@ -354,6 +371,12 @@ namespace crg
 				, range
 				, wantedState );
 		}
+		else
+		{
+			confirmState( image
+				, viewType
+				, range );
+		}
 	}
 
 	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
@@ -447,6 +470,10 @@ namespace crg
 				, subresourceRange
 				, wantedState );
 		}
+		else
+		{
+			confirmState( buffer );
+		}
 	}
 
 	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
@@ -631,6 +658,115 @@ namespace crg
 		return *m_resources;
 	}
 
+	void RecordContext::mergeStates( RecordContext const & data
+		, Merge merge )
+	{
+		auto mergeState = [merge]( auto & states
+			, auto & serials
+			, auto const & key
+			, auto const & state
+			, uint64_t serial )
+		{
+			auto it = states.find( key );
+
+			if ( it == states.end() )
+			{
+				if ( merge != Merge::eUpdateOlder )
+				{
+					states.emplace( key, state );
+					serials[key] = serial;
+				}
+			}
+			else if ( auto & current = serials[key];
+				current < serial
+				&& ( merge == Merge::eAddMissingOrLater
+					|| ( merge == Merge::eUpdateOlder && current != 0u ) ) )
+			{
+				it->second = state;
+				current = serial;
+			}
+		};
+
+		for ( auto const & [image, layers] : data.m_images.images )
+		{
+			auto & imageStates = m_images.images[image];
+			auto & imageSerials = m_imageSerials[image];
+
+			for ( auto const & [layer, levels] : layers )
+			{
+				for ( auto const & [level, state] : levels )
+				{
+					mergeState( imageStates[layer]
+						, imageSerials[layer]
+						, level
+						, state
+						, data.getSerial( image, layer, level ) );
+				}
+			}
+		}
+
+		for ( auto const & [buffer, state] : data.m_buffers )
+		{
+			mergeState( m_buffers
+				, m_bufferSerials
+				, buffer
+				, state
+				, data.getSerial( buffer ) );
+		}
+	}
+
+	uint64_t RecordContext::getSerial( uint32_t image
+		, uint32_t layer
+		, uint32_t level )const
+	{
+		if ( auto imageIt = m_imageSerials.find( image ); imageIt != m_imageSerials.end() )
+		{
+			if ( auto layerIt = imageIt->second.find( layer ); layerIt != imageIt->second.end() )
+			{
+				if ( auto levelIt = layerIt->second.find( level ); levelIt != layerIt->second.end() )
+				{
+					return levelIt->second;
+				}
+			}
+		}
+
+		return 0u;
+	}
+
+	uint64_t RecordContext::getSerial( VkBuffer buffer )const
+	{
+		auto it = m_bufferSerials.find( buffer );
+		return it == m_bufferSerials.end()
+			? 0u
+			: it->second;
+	}
+
+	void RecordContext::confirmState( ImageId image
+		, VkImageViewType viewType
+		, VkImageSubresourceRange const & subresourceRange )
+	{
+		LayerLayoutStatesHandler confirmed;
+		confirmed.setLayoutState( image
+			, viewType
+			, subresourceRange
+			, LayoutState{} );
+		auto serial = recctx::getNextSerial();
+		auto & imageSerials = m_imageSerials[image.id];
+
+		for ( auto const & [layer, levels] : confirmed.images[image.id] )
+		{
+			for ( auto const & [level, _] : levels )
+			{
+				imageSerials[layer].insert_or_assign( level, serial );
+			}
+		}
+	}
+
+	void RecordContext::confirmState( VkBuffer buffer )
+	{
+		m_bufferSerials.insert_or_assign( buffer, recctx::getNextSerial() );
+	}
+
 	RecordContext::ImplicitAction RecordContext::clearAttachment( ImageViewId dstView
 		, VkClearValue const & clearValue
 		, VkImageLayout finalLayout )
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 7b22502..5cd0f32 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -307,6 +307,9 @@ namespace crg
 				, dependency->getFinalStates().getIndexState() );
 		}
 
+		// The last recording of this graph may be more recent than the ones of its dependencies.
+		recordContext.updateStates( m_graph.getFinalStates() );
+
 		auto itGraph = m_states.try_emplace( &m_graph ).first;
 		itGraph->second.resize( m_passes.size() );
 
-- 
2.43.0


From e973b402455bdaf3ee028c4f53ac2fa965ba2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:15 +0000
Subject: [PATCH 60/67] fix: data race on the colour of the debug labels
 between graphs recorded by several threads

---
 source/RenderGraph/GraphContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 31f5dab..526f643 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -201,7 +201,7 @@ namespace crg
 
 	std::array< float, 4u > GraphContext::getNextRainbowColour()const
 	{
-		static float currentColourHue{ 0.0f };
+		thread_local float currentColourHue{ 0.0f }; // Passes can be recorded by several threads.
 		currentColourHue += 0.0125f;
 
 		if ( currentColourHue > 1.0f )
-- 
2.43.0


From 4d2245b2494cf955123df01bfccb10cc45d44092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:51 +0000
Subject: [PATCH 61/67] fix: a fence wait that timed out doesn't count as
 having waited

---
 source/RenderGraph/RunnablePass.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 77b4a10..113fca4 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -201,7 +201,8 @@ namespace crg
 				, timeout );
 		}
 
-		m_fenceWaited = true;
+		// A wait that ended too early tells nothing about the submission.
+		m_fenceWaited = ( res == VK_SUCCESS );
 		return res;
 	}
 
-- 
2.43.0


From 75cfe504e60e57daf1545a1f0a3982833e63d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 62/67] fix: the render area of a narrow mip level is never
 empty

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index bdb633c..cd54127 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -419,10 +419,9 @@ namespace crg
 			{
 				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
-				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+				auto extent = getMipExtent( view );
+				width = std::max( width, extent.width );
+				height = std::max( height, extent.height );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From 158b60a9063d2ab4f8e733f0c011d63b9c7ba06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 63/67] fix: samplers whose descriptions have the same hash are
 told apart

---
 include/RenderGraph/ResourceHandler.hpp |  3 ++-
 source/RenderGraph/ResourceHandler.cpp  | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/RenderGraph/ResourceHandler.hpp b/include/RenderGraph/ResourceHandler.hpp
index f09a3e3..50e2601 100644
--- a/include/RenderGraph/ResourceHandler.hpp
+++ b/include/RenderGraph/ResourceHandler.hpp
@@ -12,6 +12,7 @@ See LICENSE file in root folder.
 #pragma warning( pop )
 #include <unordered_map>
 #include <unordered_set>
+#include <vector>
 
 namespace crg
 {
@@ -114,7 +115,7 @@ namespace crg
 		GraphContext & m_context;
 		VkImageIdMap m_images;
 		VkImageViewIdMap m_imageViews;
-		std::unordered_map< size_t, VkSampler > m_samplers;
+		std::unordered_map< size_t, std::vector< std::pair< SamplerDesc, VkSampler > > > m_samplers;
 		std::unordered_map< size_t, VertexBuffer const * > m_vertexBuffers;
 	};
 
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 788aa98..933e022 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -10,6 +10,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/Log.hpp"
 #include "RenderGraph/RunnableGraph.hpp"
 
+#include <algorithm>
 #include <cassert>
 
 #pragma warning( push )
@@ -587,9 +588,12 @@ namespace crg
 			m_handler.destroyImage( m_context, image );
 		}
 
-		for ( auto const & [_, sampler] : m_samplers )
+		for ( auto const & [_, samplers] : m_samplers )
 		{
-			m_handler.destroySampler( m_context, sampler );
+			for ( auto const & sampler : samplers )
+			{
+				m_handler.destroySampler( m_context, sampler.second );
+			}
 		}
 
 		for ( auto const & [_, buffer] : m_vertexBuffers )
@@ -655,13 +659,21 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		// Different descriptions may have the same hash.
+		auto & samplers = m_samplers[hash];
+		auto it = std::find_if( samplers.begin()
+			, samplers.end()
+			, [&samplerDesc]( std::pair< SamplerDesc, VkSampler > const & lookup )
+			{
+				return lookup.first == samplerDesc;
+			} );
 
-		if ( res )
+		if ( it == samplers.end() )
 		{
-			reshdl::Rollback rollback{ [this, samplerIt = it]()
+			it = samplers.emplace( samplers.end(), samplerDesc, VkSampler{} );
+			reshdl::Rollback rollback{ [&samplers]()
 				{
-					m_samplers.erase( samplerIt );
+					samplers.pop_back();
 				} };
 			it->second = m_handler.createSampler( m_context
 				, std::to_string( hash )
-- 
2.43.0


From 7aec7e31d1c9eee01ea3c46aa6326358da2cc603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 64/67] fix: pipelines are built for the render pass of their
 own index

---
 .../RenderGraph/RunnablePasses/RenderMeshHolder.hpp    |  3 ++-
 .../RenderGraph/RunnablePasses/RenderQuadHolder.hpp    |  3 ++-
 source/RenderGraph/RunnablePasses/RenderMesh.cpp       |  2 +-
 source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp | 10 +++++++---
 source/RenderGraph/RunnablePasses/RenderQuad.cpp       |  2 +-
 source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp | 10 +++++++---
 6 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index 5d4842f..26feedb 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -27,7 +27,7 @@ namespace crg
 			, VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState
 			, uint32_t index );
-		CRG_API void releaseRenderPass();
+		CRG_API void releaseRenderPass( uint32_t index );
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
 		CRG_API void record( RecordContext & context
@@ -52,6 +52,7 @@ namespace crg
 		rm::ConfigData m_config;
 		PipelineHolder m_pipeline;
 		VkRenderPass m_renderPass{};
+		std::vector< VkRenderPass > m_renderPasses;
 		VkExtent2D m_renderSize{};
 		std::vector< VkExtent2D > m_renderSizes{};
 		VkViewport m_viewport{};
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index c9283df..ba0fd39 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -26,7 +26,7 @@ namespace crg
 			, VkRenderPass renderPass
 			, VkPipelineColorBlendStateCreateInfo blendState
 			, uint32_t index );
-		CRG_API void releaseRenderPass();
+		CRG_API void releaseRenderPass( uint32_t index );
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
 		CRG_API void record( RecordContext & context
@@ -68,6 +68,7 @@ namespace crg
 		bool m_useTexCoord{ true };
 		VertexBuffer const * m_vertexBuffer{};
 		VkRenderPass m_renderPass{};
+		std::vector< VkRenderPass > m_renderPasses;
 		VkExtent2D m_renderSize{};
 		std::vector< VkExtent2D > m_renderSizes{};
 		VkViewport m_viewport{};
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index 03a59ab..f0669c2 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -60,7 +60,7 @@ namespace crg
 			}
 			catch ( ... )
 			{
-				m_renderMesh.releaseRenderPass();
+				m_renderMesh.releaseRenderPass( index );
 				m_renderPass.cleanup( index );
 				throw;
 			}
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index adfe124..ada5747 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -35,6 +35,7 @@ namespace crg
 		, m_renderSize{ config.m_renderSize ? *config.m_renderSize : getDefaultV< VkExtent2D >() }
 	{
 		m_renderSizes.resize( maxPassCount );
+		m_renderPasses.resize( maxPassCount );
 		m_iaState = { VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO
 			, nullptr
 			, 0u
@@ -70,6 +71,7 @@ namespace crg
 		, uint32_t index )
 	{
 		m_renderSizes[index] = renderSize;
+		m_renderPasses[index] = renderPass;
 		m_pipeline.initialise();
 
 		if ( !m_renderPass )
@@ -95,13 +97,15 @@ namespace crg
 		, uint32_t index )
 	{
 		m_renderSizes[index] = renderSize;
+		m_renderPasses[index] = renderPass;
 		m_pipeline.resetPipeline( {}, index );
 		doPreparePipelineStates( renderPass, std::move( blendState ) );
 		doCreatePipeline( index );
 	}
 
-	void RenderMeshHolder::releaseRenderPass()
+	void RenderMeshHolder::releaseRenderPass( uint32_t index )
 	{
+		m_renderPasses[index] = {};
 		m_renderPass = {};
 	}
 
@@ -110,7 +114,7 @@ namespace crg
 	{
 		m_pipeline.resetPipeline( std::move( config ), index );
 
-		if ( m_renderPass && m_renderSizes[index].width )
+		if ( m_renderPasses[index] && m_renderSizes[index].width )
 		{
 			doCreatePipeline( index );
 		}
@@ -222,7 +226,7 @@ namespace crg
 			, &m_blendState
 			, nullptr
 			, m_pipeline.getPipelineLayout()
-			, m_renderPass
+			, m_renderPasses[index]
 			, 0u
 			, VkPipeline{}
 			, 0u };
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index e03072d..6b449fb 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -60,7 +60,7 @@ namespace crg
 			}
 			catch ( ... )
 			{
-				m_renderQuad.releaseRenderPass();
+				m_renderQuad.releaseRenderPass( index );
 				m_renderPass.cleanup( index );
 				throw;
 			}
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index 3fbacd6..a848a46 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -35,6 +35,7 @@ namespace crg
 		, m_useTexCoord{ config.m_texcoordConfig }
 	{
 		m_renderSizes.resize( maxPassCount );
+		m_renderPasses.resize( maxPassCount );
 		m_iaState = { VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO
 			, nullptr
 			, 0u
@@ -70,6 +71,7 @@ namespace crg
 		, uint32_t index )
 	{
 		m_renderSizes[index] = renderSize;
+		m_renderPasses[index] = renderPass;
 
 		if ( !m_vertexBuffer )
 		{
@@ -92,13 +94,15 @@ namespace crg
 		, uint32_t index )
 	{
 		m_renderSizes[index] = renderSize;
+		m_renderPasses[index] = renderPass;
 		m_pipeline.resetPipeline( {}, index );
 		doPreparePipelineStates( renderPass, std::move( blendState ) );
 		doCreatePipeline( index );
 	}
 
-	void RenderQuadHolder::releaseRenderPass()
+	void RenderQuadHolder::releaseRenderPass( uint32_t index )
 	{
+		m_renderPasses[index] = {};
 		m_renderPass = {};
 	}
 
@@ -107,7 +111,7 @@ namespace crg
 	{
 		m_pipeline.resetPipeline( std::move( config ), index );
 
-		if ( m_renderPass && m_renderSizes[index].width )
+		if ( m_renderPasses[index] && m_renderSizes[index].width )
 		{
 			doCreatePipeline( index );
 		}
@@ -206,7 +210,7 @@ namespace crg
 			, &m_blendState
 			, nullptr
 			, m_pipeline.getPipelineLayout()
-			, m_renderPass
+			, m_renderPasses[index]
 			, 0u
 			, VkPipeline{}
 			, 0u };
-- 
2.43.0


From d3877e9dc96f08b60a9d23bd4d27a91e0f8ff755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 65/67] fix: each pass index keeps the layer count of its own
 framebuffer

---
 include/RenderGraph/RunnablePasses/RenderPassHolder.hpp | 2 +-
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 0ad066f..a002077 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -93,6 +93,7 @@ namespace crg
 			VkRenderPass renderPass{};
 			mutable VkFramebuffer frameBuffer{};
 			VkRect2D renderArea{};
+			uint32_t layers{};
 			std::vector< Attachment const * > attachments;
 			std::vector< VkClearValue > clearValues;
 			std::vector< Entry > attaches;
@@ -110,7 +111,6 @@ namespace crg
 		std::vector< PassData > m_passes;
 		PassData const * m_currentPass{};
 		VkPipelineColorBlendAttachmentStateArray m_blendAttachs;
-		uint32_t m_layers{};
 		uint32_t m_index{};
 		uint32_t m_count{ 1u };
 	};
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index cd54127..ffc4994 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -409,7 +409,7 @@ namespace crg
 		uint32_t width{ m_size.width };
 		uint32_t height{ m_size.height };
 		m_passes[index].attachments.clear();
-		m_layers = 1u;
+		m_passes[index].layers = 1u;
 
 		for ( auto & attach : m_pass.images )
 		{
@@ -422,7 +422,7 @@ namespace crg
 				auto extent = getMipExtent( view );
 				width = std::max( width, extent.width );
 				height = std::max( height, extent.height );
-				m_layers = std::max( m_layers
+				m_passes[index].layers = std::max( m_passes[index].layers
 					, view.data->info.subresourceRange.layerCount );
 			}
 		}
@@ -453,7 +453,7 @@ namespace crg
 				, attachments.data()
 				, data.renderArea.extent.width
 				, data.renderArea.extent.height
-				, m_layers };
+				, data.layers };
 			auto res = m_context.vkCreateFramebuffer( m_context.device
 				, &createInfo
 				, m_context.allocator
-- 
2.43.0


From 3e920c7db5e7fca2b3d2ec2703ee2fa687216489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:27 +0000
Subject: [PATCH 66/67] fix: a graph whose construction fails frees its command
 buffer

The destructor isn't run then, so the context went on reporting the command
buffer as leaked, though it went away with its pool.
---
 include/RenderGraph/RunnableGraph.hpp |  3 +++
 source/RenderGraph/RunnableGraph.cpp  | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 45bbdb5..0dbd452 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -142,6 +142,9 @@ namespace crg
 			return m_timer;
 		}
 
+	private:
+		void freeCommandBuffer()noexcept;
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5cd0f32..fa5f559 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -223,6 +223,12 @@ namespace crg
 		, m_timer{ context, graph.getName() + "/Graph", TimerScope::eGraph, getTimerQueryPool(), getTimerQueryOffset() }
 	{
 		auto name = m_graph.getName() + "/Graph";
+		// The destructor is not run when something fails below.
+		auto freeOnFailure = []( RunnableGraph * graph )
+		{
+			graph->freeCommandBuffer();
+		};
+		std::unique_ptr< RunnableGraph, decltype( freeOnFailure ) > guard{ this, freeOnFailure };
 
 		if ( m_context.vkAllocateCommandBuffers )
 		{
@@ -278,12 +284,18 @@ namespace crg
 				pass->initialise( pass->getIndex() );
 			}
 		}
+
+		guard.release();
 	}
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
 		m_delQueue.clear( m_context );
+		freeCommandBuffer();
+	}
 
+	void RunnableGraph::freeCommandBuffer()noexcept
+	{
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
-- 
2.43.0


From 9d4b78753cf7013b5a3ddef56481176f5722edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:38 +0000
Subject: [PATCH 67/67] fix: a state given as the initial one is known even if
 no barrier is needed

---
 source/RenderGraph/RecordContext.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index a71e20a..7ae6754 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -338,6 +338,15 @@ namespace crg
 			from = { initialLayout
 				, getAccessMask( initialLayout )
 				, getStageMask( initialLayout ) };
+
+			if ( initialLayout != VK_IMAGE_LAYOUT_UNDEFINED )
+			{
+				// It holds even if no barrier is needed.
+				setLayoutState( image
+					, viewType
+					, range
+					, from );
+			}
 		}
 
 		if ( force
@@ -438,6 +447,14 @@ namespace crg
 		if ( from.pipelineStage == VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT )
 		{
 			from = { initialMask, initialStage };
+
+			if ( initialStage != VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT )
+			{
+				// It holds even if no barrier is needed.
+				setAccessState( buffer
+					, subresourceRange
+					, from );
+			}
 		}
 
 		if ( force
-- 
2.43.0

