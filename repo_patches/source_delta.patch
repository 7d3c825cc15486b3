From 3c8336b1cc3f1f8fab90b1d4fb46b1a73242b558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 01/55] fix: merge pipeline stages of subresources sharing a
 layout

The state reported for a range merged the accesses of its subresources
but kept the pipeline stage of the first one only.
---
 source/RenderGraph/FrameGraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..19c38d8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -603,6 +603,7 @@ namespace crg
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wnull-dereference"
 							rit->second.state.access |= state.state.access;
+							rit->second.state.pipelineStage |= state.state.pipelineStage;
 #pragma GCC diagnostic pop
 						}
 					}
-- 
2.43.0


From f83d6a24ca926fd1165a70c43a286b3e0f5ef037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 02/55] fix: a level of a volume always has at least one slice

getVirtualRange returned an empty range for levels of a 3D image beyond
log2(depth), so their state was never tracked.
---
 source/RenderGraph/FrameGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 19c38d8..ca4e44c 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -632,7 +632,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
-- 
2.43.0


From 63b017721ffb61de93583e7036653088d4ff0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 03/55] fix: track every slice of a volume range naming several
 levels

A 3D range naming more than one but not all of the levels was tracked on
its first slice only, disagreeing with other expressions of the range.
---
 source/RenderGraph/FrameGraph.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index ca4e44c..b7b349e 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -627,9 +627,7 @@ namespace crg
 	{
 		VkImageSubresourceRange result = range;
 
-		if ( viewType == VK_IMAGE_VIEW_TYPE_3D
-			&& ( range.levelCount == 1u
-				|| range.levelCount == image.data->info.mipLevels ) )
+		if ( viewType == VK_IMAGE_VIEW_TYPE_3D )
 		{
 			result.baseArrayLayer = 0u;
 			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
-- 
2.43.0


From dbba5f499ce2c95404b3ae9ea1b71c3902e13e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 04/55] fix: merge the states of several graphs per subresource

addStates kept only the first graph's states for an image, even for the
layers and levels that only the second graph used.
---
 source/RenderGraph/LayerLayoutStatesHandler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..c490192 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -17,9 +17,15 @@ namespace crg
 
 	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data )
 	{
-		for ( auto & state : data.images )
+		// Already registered states have priority, per subresource.
+		for ( auto & [image, layers] : data.images )
 		{
-			images.insert( state );
+			auto & dstLayers = images[image];
+
+			for ( auto & [layer, levels] : layers )
+			{
+				dstLayers[layer].insert( levels.begin(), levels.end() );
+			}
 		}
 	}
 
-- 
2.43.0


From 3fbaaa9add3427f0bab792bcd81c35d2e471e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 05/55] fix: barriers over subresources in different layouts
 name each one's layout

---
 source/RenderGraph/RecordContext.cpp | 54 ++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..1f5374a 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -42,6 +42,33 @@ namespace crg
 
 			return result;
 		}
+
+		static bool hasSameLayout( RecordContext const & context
+			, ImageId const & image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange )
+		{
+			auto range = getVirtualRange( image, viewType, subresourceRange );
+			auto getLayout = [&context, &image, &range]( uint32_t layer, uint32_t level )
+			{
+				return context.getLayoutState( image
+					, VK_IMAGE_VIEW_TYPE_2D_ARRAY
+					, { range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u } ).layout;
+			};
+
+			for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+			{
+				for ( uint32_t level = 0u; level < range.levelCount; ++level )
+				{
+					if ( getLayout( layer, level ) != getLayout( 0u, 0u ) )
+					{
+						return false;
+					}
+				}
+			}
+
+			return true;
+		}
 	}
 
 	//************************************************************************************************
@@ -227,6 +254,33 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
+		auto splitLayers = viewType != VK_IMAGE_VIEW_TYPE_3D && range.layerCount > 1u;
+
+		if ( ( splitLayers || range.levelCount > 1u )
+			&& !recctx::hasSameLayout( *this, image, viewType, range ) )
+		{
+			// A barrier has only one old layout.
+			for ( uint32_t layer = 0u; layer < ( splitLayers ? range.layerCount : 1u ); ++layer )
+			{
+				for ( uint32_t level = 0u; level < range.levelCount; ++level )
+				{
+					memoryBarrier( commandBuffer
+						, image
+						, viewType
+						, { range.aspectMask
+							, range.baseMipLevel + level
+							, 1u
+							, range.baseArrayLayer + layer
+							, ( splitLayers ? 1u : range.layerCount ) }
+						, initialLayout
+						, wantedState
+						, force );
+				}
+			}
+
+			return;
+		}
+
 		auto from = getLayoutState( image
 			, viewType
 			, range );
-- 
2.43.0


From 9825ae09feb4c97326e658edc345ec451894df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 06/55] fix: an image barrier is needed when only the access
 differs, and never targets the undefined layout

---
 source/RenderGraph/RecordContext.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 1f5374a..20a453f 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -292,10 +292,11 @@ namespace crg
 				, getStageMask( initialLayout ) };
 		}
 
-		if ( force
-			|| ( ( from.layout != wantedState.layout
-				|| from.state.pipelineStage != wantedState.state.pipelineStage )
-				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
+		if ( wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED
+			&& ( force
+				|| from.layout != wantedState.layout
+				|| from.state.access != wantedState.state.access
+				|| from.state.pipelineStage != wantedState.state.pipelineStage ) )
 		{
 			auto & resources = getResources();
 			VkImageMemoryBarrier barrier{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER
-- 
2.43.0


From 24d7c8921c9f2deff1d92f9f8c1621b7ed2f0932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 07/55] fix: an image sampled by a compute pass is read at the
 compute stage

---
 source/RenderGraph/Attachment.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..5f5f977 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -390,15 +390,11 @@ namespace crg
 	{
 		VkPipelineStageFlags result{ 0u };
 
-		if ( isSampledView() )
-		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
-		}
-		else if ( isTransitionView() )
+		if ( isTransitionView() )
 		{
 			result |= getStageMask( wantedLayout );
 		}
-		else if ( isStorageView() )
+		else if ( isSampledView() || isStorageView() )
 		{
 			if ( isCompute )
 			{
-- 
2.43.0


From a4321fbf5b69e7178e719868fd96919f50beebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 08/55] fix: a pass's image barriers ask for the access and
 stages its attachments declare

---
 source/RenderGraph/RunnablePass.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..c3b7c57 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -397,7 +397,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, { attach.getAccessMask()
+							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
-- 
2.43.0


From 95f5ffcbd4d0c4254dce10312c2d4d108501ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 09/55] fix: separate depth and stencil layouts and the
 preinitialized one have access and stage masks

---
 source/RenderGraph/FrameGraph.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index b7b349e..ab6296d 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -433,6 +433,19 @@ namespace crg
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
+		case VK_IMAGE_LAYOUT_PREINITIALIZED:
+			result |= VK_ACCESS_HOST_WRITE_BIT;
+			break;
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
+			break;
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
+			break;
+#endif
 #ifdef VK_NV_shading_rate_image
 		case VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV:
 			result |= VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
@@ -508,6 +521,7 @@ namespace crg
 		switch ( layout )
 		{
 		case VK_IMAGE_LAYOUT_UNDEFINED:
+		case VK_IMAGE_LAYOUT_PREINITIALIZED:
 			result |= VK_PIPELINE_STAGE_HOST_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_GENERAL:
@@ -521,6 +535,12 @@ namespace crg
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
-- 
2.43.0


From 10f53131228e5221a8f63bf236519b2baba37040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 10/55] fix: a mip level is at least one texel in each
 dimension

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index ab6296d..77c4486 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -354,9 +354,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0


From 54a013927d9b300a9fc9ab2754805e1d25a0661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 11/55] fix: attachments wanting different accesses or layouts
 are not equal

---
 source/RenderGraph/Attachment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 5f5f977..549fa5a 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -624,7 +624,9 @@ namespace crg
 			&& lhs.buffer == rhs.buffer
 			&& lhs.view == rhs.view
 			&& lhs.range.offset == rhs.range.offset
-			&& lhs.range.size == rhs.range.size;
+			&& lhs.range.size == rhs.range.size
+			&& lhs.wantedAccess.access == rhs.wantedAccess.access
+			&& lhs.wantedAccess.pipelineStage == rhs.wantedAccess.pipelineStage;
 	}
 
 	bool operator==( ImageAttachment const & lhs
@@ -638,7 +640,8 @@ namespace crg
 			&& lhs.stencilStoreOp == rhs.stencilStoreOp
 			&& lhs.samplerDesc == rhs.samplerDesc
 			&& lhs.clearValue == rhs.clearValue
-			&& lhs.blendState == rhs.blendState;
+			&& lhs.blendState == rhs.blendState
+			&& lhs.wantedLayout == rhs.wantedLayout;
 	}
 
 	bool operator==( Attachment const & lhs
-- 
2.43.0


From 3362f98be71b64229703b8fca4d8559dbdff7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 12/55] fix: signals give each connection its own slot, and
 survive slots changing while they are called

---
 include/RenderGraph/Signal.hpp | 62 +++++++++++++---------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..1c3324a 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,7 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			uint32_t index = ++m_lastIndex;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
@@ -180,15 +180,10 @@ namespace crg
 		*/
 		void operator()()const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second();
-				adjustSlots( size, index, it );
-			}
+			doEmit( []( Function const & function )
+				{
+					function();
+				} );
 		}
 		/**
 		*\brief
@@ -199,15 +194,10 @@ namespace crg
 		template< typename ... Params >
 		void operator()( Params && ... params )const
 		{
-			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
-
-			while ( it != m_slots.end() )
-			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
-			}
+			doEmit( [&params...]( Function const & function )
+				{
+					function( std::forward< Params >( params )... );
+				} );
 		}
 
 	private:
@@ -251,33 +241,29 @@ namespace crg
 		}
 		/**
 		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
+		*	Calls each function which was connected before the emission and still is when its turn comes.
+		*\param[in] call
+		*	Calls the given function.
 		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
+		template< typename CallT >
+		void doEmit( CallT call )const
 		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
+			auto const last = m_lastIndex;
+			auto it = m_slots.begin();
+
+			while ( it != m_slots.end() && it->first <= last )
 			{
-				++index;
-				++it;
+				// The function may connect or disconnect slots, itself included.
+				auto const index = it->first;
+				auto const function = it->second;
+				call( function );
+				it = m_slots.upper_bound( index );
 			}
 		}
 
 	private:
 		std::map< uint32_t, Function > m_slots;
+		uint32_t m_lastIndex{};
 		std::set< my_connection_ptr > m_connections;
 		std::recursive_mutex m_mutex;
 	};
-- 
2.43.0


From e64e071c4be901ef31fe8b0f5d1f274170fed238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 13/55] fix: GPU times are ticks times the device's timestamp
 period

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..ea1f813 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		auto const period = double( m_context.properties.limits.timestampPeriod );
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( double( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From 5813b1a5095d1fd94620083dbe86e5dc260f5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 14/55] fix: a semaphore waited for several times is waited for
 at all the requested stages

---
 source/RenderGraph/RunnablePass.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index c3b7c57..1dacc5a 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,14 +47,24 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( !wait.semaphore )
+			{
+				continue;
+			}
+
+			auto it = std::find( semaphores.begin()
+				, semaphores.end()
+				, wait.semaphore );
+
+			if ( it == semaphores.end() )
 			{
 				semaphores.push_back( wait.semaphore );
 				dstStageMasks.push_back( wait.dstStageMask );
 			}
+			else
+			{
+				dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+			}
 		}
 	}
 
-- 
2.43.0


From 6feb95667efe87f44004eb22340fa6cf1c0fb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 15/55] fix: a fence whose wait timed out is waited for again
 before its reset

---
 source/RenderGraph/RunnablePass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1dacc5a..1957755 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -203,7 +203,7 @@ namespace crg
 				, timeout );
 		}
 
-		m_fenceWaited = true;
+		m_fenceWaited = ( res == VK_SUCCESS );
 		return res;
 	}
 
-- 
2.43.0


From 0b6f18c777b8487bfd6f2b8da3aa7b28b78452f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 16/55] fix: views differing by their component mapping are
 distinct

---
 include/RenderGraph/ImageViewData.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..824aa44 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -53,6 +53,10 @@ namespace crg
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components.r == rhs.components.r
+			&& lhs.components.g == rhs.components.g
+			&& lhs.components.b == rhs.components.b
+			&& lhs.components.a == rhs.components.a
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From f9f6433cb0af030b97cdac32e716a4f41c490d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 17/55] fix: an image created along with its first view is
 owned by the view's cache

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..2518859 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -554,6 +554,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The handler creates the view's image if it doesn't exist yet, own it in that case.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From c4a50e7334351e3be41d4071861ce607d8af4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 18/55] fix: a cache forgets the images and views it destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 2518859..930f65f 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -574,6 +574,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -587,6 +588,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 52f7627b1fcdd582e309bbb7fa9b12fc91a44373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 19/55] fix: a blit ends at its offset plus its extent

---
 source/RenderGraph/RecordContext.cpp            |  4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 20a453f..ef083bf 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -507,10 +507,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..b9663c6 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -14,6 +14,13 @@ namespace crg
 {
 	namespace imgBlit
 	{
+		static VkOffset3D getEnd( VkOffset3D const & offset, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
+
 		static VkImageSubresourceLayers convert( VkImageSubresourceRange const & range )
 		{
 			return VkImageSubresourceLayers{ range.aspectMask
@@ -61,9 +68,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From 70e3efec53c6cb3ad520a7e4ee5eda9b3865eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 20/55] fix: implicit copies and blits move every layer of
 their views

---
 source/RenderGraph/RecordContext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index ef083bf..ddb21cd 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -452,9 +452,9 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
 			, { extent.width, extent.height, 1u } };
 			recContext.memoryBarrier( commandBuffer
@@ -505,10 +505,10 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
 					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
 					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
-- 
2.43.0


From 7dc7ff180121d3c58747349d0146d28b4981e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 21/55] fix: buffer/image copies start at the attached range of
 the buffer

---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 2 +-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..1601b7d 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..064c43e 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From 48d8d8fdde479c0d287c90eddc9c40ea1d3a0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 22/55] fix: mipmap generation leaves a single level image in
 its next layout

---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 51660dd..c31d2cf 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -162,6 +162,16 @@ namespace crg
 							, getStageMask( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) } );
 				}
 			}
+
+			if ( mipLevels == 1u )
+			{
+				// No other level to generate, transition the only one to wanted output layout
+				context.memoryBarrier( commandBuffer
+					, imageId
+					, { aspectMask, 0u, 1u, layer, 1u }
+					, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
+					, nextLayoutState );
+			}
 		}
 	}
 }
-- 
2.43.0


From 58648597f62d4a04df4de92cd0362775b0c4568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 23/55] fix: mipmap generation honours the requested output
 layout

---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index c31d2cf..4ce61a6 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -55,9 +55,11 @@ namespace crg
 		auto baseArrayLayer = viewId.data->info.subresourceRange.baseArrayLayer;
 		auto layerCount = viewId.data->info.subresourceRange.layerCount;
 		auto mipLevels = imageId.data->info.mipLevels;
-		auto nextLayoutState = m_graph.getNextLayoutState( context
-			, *this
-			, viewId );
+		auto nextLayoutState = m_outputLayout.layout != VK_IMAGE_LAYOUT_UNDEFINED
+			? m_outputLayout
+			: m_graph.getNextLayoutState( context
+				, *this
+				, viewId );
 
 		auto const width = int32_t( extent.width );
 		auto const height = int32_t( extent.height );
-- 
2.43.0


From 711ada4d511164928e5fe8932a7e64415edda74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 24/55] fix: compute passes ask each dimension's own callback
 for its group count

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From ff164553861ead644b22575274012d56b6447a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 25/55] fix: views merged from different ones are distinct, and
 only whole cubes are merged into cubes

---
 include/RenderGraph/ImageViewData.hpp |  3 ++-
 source/RenderGraph/FramePass.cpp      | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 824aa44..39ce7f9 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -63,6 +63,7 @@ namespace crg
 	inline bool operator==( ImageViewData const & lhs, ImageViewData const & rhs )
 	{
 		return lhs.image == rhs.image
-			&& lhs.info == rhs.info;
+			&& lhs.info == rhs.info
+			&& lhs.source == rhs.source;
 	}
 }
diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..4ddbe26 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -597,6 +597,19 @@ namespace crg
 			data.source.push_back( view );
 		}
 
+		if ( data.source.size() == 1u )
+		{
+			// Nothing is merged, the view stands for itself.
+			data.source.clear();
+		}
+
+		if ( data.info.subresourceRange.layerCount % 6u
+			&& ( data.info.viewType == VK_IMAGE_VIEW_TYPE_CUBE || data.info.viewType == VK_IMAGE_VIEW_TYPE_CUBE_ARRAY ) )
+		{
+			// The merged layers don't make whole cubes.
+			data.info.viewType = VK_IMAGE_VIEW_TYPE_2D;
+		}
+
 		if ( data.info.subresourceRange.layerCount > 1u )
 		{
 			switch ( data.info.viewType )
-- 
2.43.0


From d95d5e2ac1f8456705436c5e65d5b70e7f2c92fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 26/55] fix: overlapping layers and split merged views are
 found when looking for transitions

---
 source/RenderGraph/Attachment.cpp                   | 1 +
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 549fa5a..7541ecd 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -432,6 +432,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views = { view };
 	}
 
 	Attachment::Attachment( ImageViewId view )
diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..7d11897 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From 5b24479c19fe733474a0db0091bc44d84ee74209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 27/55] fix: no transition between attachments whose ranges are
 disjoint

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 7d11897..9df067c 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -651,9 +651,10 @@ namespace crg::builder
 			, FramePassDependencies & outputTransitions
 			, AttachmentTransitions & allTransitions )
 		{
-			if ( inputAttach.pass->dependsOn( *outputAttach.pass
-				, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
-				, cache ) )
+			if ( areOverlapping< DataT >( outputAttach, inputAttach )
+				&& inputAttach.pass->dependsOn( *outputAttach.pass
+					, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
+					, cache ) )
 			{
 				addDependency< DataT >( outputAttach
 					, inputAttach
-- 
2.43.0


From b9c9c640755c0083da911f9f5ff614b5be54e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:46 +0000
Subject: [PATCH 28/55] fix: transfer and view buffers take part in the passes'
 dependencies

---
 source/RenderGraph/FramePass.cpp                    | 4 ++--
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index 4ddbe26..3ba75ca 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -120,7 +120,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isOutput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -134,7 +134,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isInput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 9df067c..1fafa0b 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -156,15 +156,12 @@ namespace crg::builder
 
 			static bool isInput( Attachment const & attach )
 			{
-				return attach.isInput()
-					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
-						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
+				return attach.isInput();
 			}
 
 			static bool isOutput( Attachment const & attach )
 			{
-				return attach.isOutput()
-					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );
+				return attach.isOutput();
 			}
 		};
 
-- 
2.43.0


From 1d62035013f41eccc8e89cf5d8a147e9eac43113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 29/55] fix: each subresource is in its own tracked layout when
 a pass starts

---
 include/RenderGraph/RecordContext.hpp |  7 +++++
 source/RenderGraph/RecordContext.cpp  | 13 ++++++++
 source/RenderGraph/RunnableGraph.cpp  | 43 ++++++++++++++++-----------
 source/RenderGraph/RunnablePass.cpp   | 19 ++++++++----
 4 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..c36628d 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -123,6 +123,13 @@ namespace crg
 			, VkImageSubresourceRange const & subresourceRange
 			, LayoutState const & wantedState
 			, bool force = false );
+		/**
+		*\brief
+		*	Brings the subresources of the given view to the wanted state, unless they already share one layout.
+		*/
+		CRG_API void unifyLayouts( VkCommandBuffer commandBuffer
+			, ImageViewId const & view
+			, LayoutState const & wantedState );
 		//@}
 		/**
 		*\name	Buffers
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index ddb21cd..98a05bc 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -371,6 +371,19 @@ namespace crg
 			, force );
 	}
 
+	void RecordContext::unifyLayouts( VkCommandBuffer commandBuffer
+		, ImageViewId const & view
+		, LayoutState const & wantedState )
+	{
+		if ( !recctx::hasSameLayout( *this
+			, view.data->image
+			, view.data->info.viewType
+			, view.data->info.subresourceRange ) )
+		{
+			memoryBarrier( commandBuffer, view, wantedState );
+		}
+	}
+
 	void RecordContext::memoryBarrier( VkCommandBuffer commandBuffer
 		, VkBuffer buffer
 		, BufferSubresourceRange const & subresourceRange
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..d6b28c6 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -419,31 +419,40 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange range )const
 	{
-		auto result = context.getLayoutState( image, viewType, range );
+		auto virtualRange = getVirtualRange( image, viewType, range );
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+		// Subresources don't necessarily share their layout.
+		for ( uint32_t layer = 0u; layer < virtualRange.layerCount; ++layer )
 		{
-			// Lookup in graph's external inputs.
-			result = m_graph.getInputLayoutState( image, viewType, range );
-
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+			for ( uint32_t level = 0u; level < virtualRange.levelCount; ++level )
 			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
+				VkImageSubresourceRange subresource{ range.aspectMask
+					, virtualRange.baseMipLevel + level
+					, 1u
+					, virtualRange.baseArrayLayer + layer
+					, 1u };
+				auto current = context.getLayoutState( image, VK_IMAGE_VIEW_TYPE_2D_ARRAY, subresource );
+
+				if ( current.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					// Lookup in graph's external inputs.
+					current = m_graph.getInputLayoutState( image, VK_IMAGE_VIEW_TYPE_2D_ARRAY, subresource );
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
+					if ( current.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						// Lookup in graph's previous final state.
+						current = m_graph.getFinalLayoutState( image, VK_IMAGE_VIEW_TYPE_2D_ARRAY, subresource );
+					}
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
+					if ( current.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						context.setLayoutState( image, VK_IMAGE_VIEW_TYPE_2D_ARRAY, subresource, current );
+					}
+				}
 			}
 		}
 
-		return result;
+		return context.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState RunnableGraph::getCurrentLayoutState( RecordContext & context
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1957755..4568600 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -419,7 +419,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -442,17 +441,25 @@ namespace crg
 								, 1u
 								, &view.data->info.subresourceRange );
 						}
-
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
+					// The subresources of known layout are tracked by the context, the other ones hold nothing.
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
+				else if ( !attach.isNoTransition()
+					&& attach.isInput()
+					&& ( attach.isColourAttach() || attach.isDepthAttach() || attach.isStencilAttach() ) )
+				{
+					// Render passes have only one initial layout per attachment.
+					m_graph.getCurrentLayoutState( context, view );
+					context.unifyLayouts( commandBuffer
+						, view
+						, { attach.getImageLayout( m_context.separateDepthStencilLayouts )
+							, { attach.getAccessMask()
+								, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } } );
+				}
 			}
 
 			for ( auto & attach : m_pass.buffers )
-- 
2.43.0


From 9c05c75cd0431bec0840fbf07513e66fc00f141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 30/55] fix: the final state of a graph keeps what a recording
 does not touch

---
 include/RenderGraph/RecordContext.hpp | 13 +++++++++++++
 source/RenderGraph/FrameGraph.cpp     |  4 ++++
 source/RenderGraph/RecordContext.cpp  |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index c36628d..edff540 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -36,6 +36,19 @@ namespace crg
 		//@{
 		CRG_API void addStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Adds the images states, the already registered ones having priority.
+		*/
+		CRG_API void addStates( LayerLayoutStatesHandler const & data );
+		/**
+		*\return
+		*	The images states.
+		*/
+		LayerLayoutStatesHandler const & getImagesStates()const noexcept
+		{
+			return m_images;
+		}
+		/**
 		*\name	Pipeline
 		*/
 		//@{
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 77c4486..93f46a1 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -338,7 +338,11 @@ namespace crg
 
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
+		auto previous = m_finalState.getImagesStates();
 		m_finalState = context;
+		// What the graph didn't touch is still in the state it was given, or left previously.
+		m_finalState.addStates( m_inputs );
+		m_finalState.addStates( previous );
 	}
 
 	VkExtent3D getExtent( ImageId const & image )
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 98a05bc..5699852 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -103,6 +103,11 @@ namespace crg
 		}
 	}
 
+	void RecordContext::addStates( LayerLayoutStatesHandler const & data )
+	{
+		m_images.addStates( data );
+	}
+
 	void RecordContext::setNextPipelineState( PipelineState const & state
 		, LayerLayoutStatesMap const & imageLayouts )
 	{
-- 
2.43.0


From 95a1e964766955d8021df86c2f8d23bcc7a204fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 31/55] fix: render passes follow the layouts their attachments
 enter and leave in

---
 .../RunnablePasses/RenderPassHolder.cpp       | 102 +++++++++++-------
 1 file changed, 66 insertions(+), 36 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..a754d9b 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -17,6 +17,30 @@ namespace crg
 
 	namespace rpHolder
 	{
+		static bool isTarget( Attachment const & attach )
+		{
+			return attach.isDepthAttach()
+				|| attach.isStencilAttach()
+				|| attach.isColourAttach();
+		}
+
+		static void setLayoutState( RecordContext & context
+			, ImageViewId view
+			, LayoutState const & state )
+		{
+			if ( view.data->source.empty() )
+			{
+				context.setLayoutState( view, state );
+			}
+			else
+			{
+				for ( auto & source : view.data->source )
+				{
+					context.setLayoutState( source, state );
+				}
+			}
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -42,19 +66,7 @@ namespace crg
 				, finalLayout.layout } );
 			viewAttaches.push_back( { view, initialLayout, finalLayout } );
 			clearValues.push_back( attach.getClearValue() );
-
-			if ( view.data->source.empty() )
-			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
-			}
-
+			setLayoutState( context, view, finalLayout );
 			return result;
 		}
 
@@ -94,18 +106,44 @@ namespace crg
 				|| ( lhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage );
 		}
 
-		static bool checkAttaches( RecordContext const & context
+		static LayoutState getEntryState( RecordContext & context
+			, RunnableGraph const & graph
+			, Attachment const & attach
+			, ImageViewId view )
+		{
+			// Also lookups in graph's inputs and previous final state.
+			auto currentLayout = graph.getCurrentLayoutState( context, view );
+			return ( !attach.isInput()
+				? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
+				: currentLayout );
+		}
+
+		static bool checkAttaches( RecordContext & context
+			, RunnableGraph const & graph
+			, RunnablePass const & runnable
+			, FramePass const & pass
 			, std::vector< RenderPassHolder::Entry > const & attaches
 			, uint32_t passIndex )
 		{
-			auto it = std::find_if( attaches.begin()
-				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+			auto it = attaches.begin();
+
+			for ( auto & attach : pass.images )
+			{
+				if ( isTarget( attach ) )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
-				} );
+					auto view = attach.view( passIndex );
+
+					if ( it == attaches.end()
+						|| getEntryState( context, graph, attach, view ) != it->input
+						|| graph.getNextLayoutState( context, runnable, resolveView( view, 0u ) ) != it->output )
+					{
+						return false;
+					}
+
+					++it;
+				}
+			}
+
 			return it == attaches.end();
 		}
 	}
@@ -170,7 +208,7 @@ namespace crg
 		auto nextState = context.getNextPipelineState();
 
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( context, m_graph, runnable, m_pass, data.attaches, passIndex )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
@@ -209,8 +247,7 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.input );
+			rpHolder::setLayoutState( context, attach.view, attach.input );
 		}
 
 		auto beginInfo = getBeginInfo( m_index );
@@ -226,8 +263,7 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.output );
+			rpHolder::setLayoutState( context, attach.view, attach.output );
 		}
 
 		m_currentPass = nullptr;
@@ -247,18 +283,12 @@ namespace crg
 
 		for ( auto & attach : m_pass.images )
 		{
-			if ( attach.isDepthAttach()
-				|| attach.isStencilAttach()
-				|| attach.isColourAttach() )
+			if ( rpHolder::isTarget( attach ) )
 			{
 				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
-				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
-				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
-				auto from = ( !attach.isInput()
-					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
-					: currentLayout );
-				checkUndefinedInput( "RenderPass", attach, resolved, from.layout );
+				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolveView( view, 0u ) );
+				auto from = rpHolder::getEntryState( context, m_graph, attach, view );
+				checkUndefinedInput( "RenderPass", attach, view, from.layout );
 
 				if ( attach.isDepthAttach() || attach.isStencilAttach() )
 				{
-- 
2.43.0


From f0ab3c25c0d695da89a4302138c9f599cb86abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 32/55] fix: outputs are left in their registered layout

---
 include/RenderGraph/FrameGraph.hpp    |  1 +
 include/RenderGraph/RunnableGraph.hpp |  3 +++
 source/RenderGraph/FrameGraph.cpp     |  1 +
 source/RenderGraph/RunnableGraph.cpp  | 36 +++++++++++++++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index f41d695..f21e0de 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -144,5 +144,6 @@ namespace crg
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
+		std::set< ImageId > m_outputImages;
 	};
 }
diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..2939bb5 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -137,6 +137,9 @@ namespace crg
 			return m_timer;
 		}
 
+	private:
+		void doTransitionOutputs( RecordContext & context )const;
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 93f46a1..c1c660f 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -304,6 +304,7 @@ namespace crg
 			, viewType
 			, range
 			, outputLayout );
+		m_outputImages.insert( image );
 	}
 
 	void FrameGraph::addOutput( ImageViewId view
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index d6b28c6..07ef1de 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -337,6 +337,7 @@ namespace crg
 				++it;
 			}
 
+			doTransitionOutputs( recordContext );
 			m_timer.endPass( m_commandBuffer );
 			m_context.vkEndCommandBuffer( m_commandBuffer );
 		}
@@ -464,6 +465,41 @@ namespace crg
 			, view.data->info.subresourceRange );
 	}
 
+	void RunnableGraph::doTransitionOutputs( RecordContext & context )const
+	{
+		for ( auto & image : m_graph.m_outputImages )
+		{
+			auto const isVolume = image.data->info.imageType == VK_IMAGE_TYPE_3D;
+			auto const viewType = isVolume ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D_ARRAY;
+
+			// The slices of a volume share their layout.
+			for ( uint32_t layer = 0u; layer < ( isVolume ? 1u : image.data->info.arrayLayers ); ++layer )
+			{
+				for ( uint32_t level = 0u; level < image.data->info.mipLevels; ++level )
+				{
+					VkImageSubresourceRange range{ getAspectMask( image.data->info.format ), level, 1u, layer, 1u };
+
+					if ( auto wanted = m_graph.getOutputLayoutState( image, viewType, range );
+						wanted.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						// What nobody gave a layout to is left alone.
+						if ( auto current = getCurrentLayoutState( context, image, viewType, range );
+							current.layout != VK_IMAGE_LAYOUT_UNDEFINED
+							&& current.layout != wanted.layout )
+						{
+							context.memoryBarrier( m_commandBuffer
+								, image
+								, viewType
+								, range
+								, current.layout
+								, wanted );
+						}
+					}
+				}
+			}
+		}
+	}
+
 	LayoutState RunnableGraph::getNextLayoutState( RecordContext const & context
 		, crg::RunnablePass const & runnable
 		, ImageViewId view )const
-- 
2.43.0


From 2e7f86112660b18ef2e9a0d6d47a01e69f31f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 33/55] fix: every pending implicit action of a view runs
 before its next use

---
 source/RenderGraph/RecordContext.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 5699852..022d57b 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -178,14 +178,18 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
-			, m_implicitTransitions.end()
-			, [&view]( ImplicitTransition const & lookup )
-			{
-				return lookup.view == view;
-			} );
+		auto find = [this, &view]()
+		{
+			return std::find_if( m_implicitTransitions.begin()
+				, m_implicitTransitions.end()
+				, [&view]( ImplicitTransition const & lookup )
+				{
+					return lookup.view == view;
+				} );
+		};
 
-		if ( it != m_implicitTransitions.end() )
+		// Actions may run or register other transitions, hence the lookup each time.
+		for ( auto it = find(); it != m_implicitTransitions.end(); it = find() )
 		{
 			auto pass = it->pass;
 			auto action = it->action;
-- 
2.43.0


From 0ae3bd50d19fdaaf473cc26a41821c4274d53e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 34/55] fix: the next layout is found for every image and
 subresource

---
 source/RenderGraph/RunnableGraph.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 07ef1de..d36160e 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -81,32 +81,26 @@ namespace crg
 			return result;
 		}
 
-		static LayerLayoutStatesMap gatherNextImageLayouts( LayerLayoutStatesMap currentLayouts
+		static LayerLayoutStatesMap gatherNextImageLayouts( LayerLayoutStatesMap const & currentLayouts
 			, std::vector< RunnablePassPtr >::iterator nextPassIt
 			, std::vector< RunnablePassPtr >::iterator endIt )
 		{
 			LayerLayoutStatesMap result;
 
-			while ( !currentLayouts.empty()
-				&& endIt != nextPassIt )
+			while ( endIt != nextPassIt )
 			{
 				if ( auto const & nextPass = **nextPassIt;
 					nextPass.isEnabled() )
 				{
 					auto & nextLayouts = nextPass.getImageLayouts();
-					LayerLayoutStates layoutStates;
-					auto currIt = std::find_if( currentLayouts.begin()
-						, currentLayouts.end()
-						, [&nextLayouts, &layoutStates]( LayerLayoutStatesMap::value_type const & lookup )
-						{
-							layoutStates = mergeRanges( nextLayouts, lookup );
-							return !layoutStates.empty();
-						} );
 
-					if ( currIt != currentLayouts.end() )
+					for ( auto & currentLayout : currentLayouts )
 					{
-						result.try_emplace( currIt->first, layoutStates );
-						currentLayouts.erase( currIt );
+						// The first pass using a subresource has priority.
+						for ( auto & [layer, levels] : mergeRanges( nextLayouts, currentLayout ) )
+						{
+							result[currentLayout.first][layer].insert( levels.begin(), levels.end() );
+						}
 					}
 				}
 				
-- 
2.43.0


From f07fa70a902856ee57c5dbbb87e782daeea1e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 35/55] fix: no stencil load from an undefined layout

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index a754d9b..fbd4792 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -60,7 +60,9 @@ namespace crg
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
 				, attach.getStoreOp()
-				, attach.getStencilLoadOp()
+				, ( ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED && attach.getStencilLoadOp() == VK_ATTACHMENT_LOAD_OP_LOAD )
+					? VK_ATTACHMENT_LOAD_OP_CLEAR
+					: attach.getStencilLoadOp() )
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-- 
2.43.0


From f2aabf0e2d9011c51a88d060b76340368577a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 36/55] fix: the render area is the one of the recorded index's
 targets, never empty

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index fbd4792..2795876 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -394,12 +394,12 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
 				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel ) );
 				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel ) );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From 9876190abb5ca13b965dc506e1962c0b2d539822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 37/55] fix: render pass dependencies cover depth and stencil
 targets

---
 .../RunnablePasses/RenderPassHolder.cpp         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 2795876..3e2432a 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -332,19 +332,28 @@ namespace crg
 			, nullptr };
 		data.previousState = previousState;
 		data.nextState = nextState;
+		PipelineState targetsState{ VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+			, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
+
+		if ( depthReference.layout )
+		{
+			targetsState.access |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
+			targetsState.pipelineStage |= VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
+		}
+
 		VkSubpassDependencyArray dependencies{
 			{ VK_SUBPASS_EXTERNAL
 				, 0u
 				, previousState.pipelineStage
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, targetsState.pipelineStage
 				, previousState.access
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, targetsState.access
 				, VK_DEPENDENCY_BY_REGION_BIT }
 			, { 0u
 				, VK_SUBPASS_EXTERNAL
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, targetsState.pipelineStage
 				, nextState.pipelineStage
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, targetsState.access
 				, nextState.access
 				, VK_DEPENDENCY_BY_REGION_BIT } };
 		VkRenderPassCreateInfo createInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO
-- 
2.43.0


From 6dfdcce3f8d9898b3662abfd9f4a26479c38b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 38/55] fix: a dependency leaves more recent states than the
 graphs it depends on

---
 source/RenderGraph/RunnableGraph.cpp | 48 +++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index d36160e..e80769e 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -110,6 +110,52 @@ namespace crg
 			return result;
 		}
 
+		static bool dependsOn( FrameGraph const & graph
+			, FrameGraph const & lookup )
+		{
+			FrameGraphArray pending{ graph.getDependencies() };
+			std::unordered_set< FrameGraph const * > visited;
+
+			while ( !pending.empty() )
+			{
+				auto dependency = pending.back();
+				pending.pop_back();
+
+				if ( dependency == &lookup )
+				{
+					return true;
+				}
+
+				if ( visited.insert( dependency ).second )
+				{
+					pending.insert( pending.end()
+						, dependency->getDependencies().begin()
+						, dependency->getDependencies().end() );
+				}
+			}
+
+			return false;
+		}
+
+		static FrameGraphArray sortDependencies( FrameGraphArray const & dependencies )
+		{
+			FrameGraphArray result;
+
+			// A graph leaves more recent states than the ones it depends on.
+			for ( auto dependency : dependencies )
+			{
+				result.insert( std::find_if( result.begin()
+						, result.end()
+						, [dependency]( FrameGraph const * lookup )
+						{
+							return dependsOn( *dependency, *lookup );
+						} )
+					, dependency );
+			}
+
+			return result;
+		}
+
 		static PipelineState getNextState( PipelineState currentState
 			, std::vector< RunnablePassPtr >::iterator nextPassIt
 			, std::vector< RunnablePassPtr >::iterator endIt )
@@ -284,7 +330,7 @@ namespace crg
 		m_states.clear();
 		RecordContext recordContext{ m_resources };
 
-		for ( auto & dependency : m_graph.getDependencies() )
+		for ( auto & dependency : rungrf::sortDependencies( m_graph.getDependencies() ) )
 		{
 			recordContext.addStates( dependency->getFinalStates() );
 			m_states.try_emplace( dependency
-- 
2.43.0


From e317e3a11e751072425f9f395ad01b288bfe155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 39/55] fix: a compute pipeline shared by several indices is
 created once

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..dd73e57 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -53,7 +53,12 @@ namespace crg
 	{
 		resetCommandBuffer( index );
 		m_pipeline.resetPipeline( std::move( config ), index );
-		doCreatePipeline( index );
+
+		if ( getPipelineLayout() )
+		{
+			doCreatePipeline( index );
+		}
+
 		reRecordCurrent();
 	}
 
@@ -105,6 +110,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From ea2a690bce250b8191be3e04e9a40c8c7870f660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 40/55] fix: what a graph replaces is destroyed after its own
 submission, or with it

---
 include/RenderGraph/RunnableGraph.hpp                | 10 ++++++++++
 source/RenderGraph/RunnableGraph.cpp                 |  3 +++
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp |  2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 2939bb5..e95bb08 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -112,6 +112,15 @@ namespace crg
 			return m_timerQueryOffset;
 		}
 
+		/**
+		*\brief
+		*	The destructions delayed until the previous submission of this graph is done.
+		*/
+		DeletionQueue & getDeletionQueue()noexcept
+		{
+			return m_delQueue;
+		}
+
 		ContextResourcesCache & getResources()noexcept
 		{
 			return m_resources;
@@ -150,6 +159,7 @@ namespace crg
 		ContextObjectT< VkQueryPool > m_timerQueries;
 		uint32_t m_timerQueryOffset{};
 		ContextObjectT< VkCommandPool > m_commandPool;
+		DeletionQueue m_delQueue;
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
 		VkCommandBuffer m_commandBuffer{};
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index e80769e..f37dd09 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -306,6 +306,8 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
+		m_delQueue.clear( m_context );
+
 		if ( m_context.vkDestroySemaphore && m_semaphore )
 		{
 			crgUnregisterObject( m_context, m_semaphore );
@@ -424,6 +426,7 @@ namespace crg
 			, 1u
 			, &m_semaphore };
 		m_fence.reset();
+		m_delQueue.clear( m_context );
 		m_context.delQueue.clear( m_context );
 		m_context.vkQueueSubmit( queue
 			, 1u
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..8fc2515 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -213,7 +213,7 @@ namespace crg
 		if ( m_pipelines[index] )
 		{
 			auto pipeline = m_pipelines[index];
-			m_context.delQueue.push( [pipeline]( GraphContext & context )
+			m_graph.getDeletionQueue().push( [pipeline]( GraphContext & context )
 				{
 					crgUnregisterObject( context, pipeline );
 					context.vkDestroyPipeline( context.device
-- 
2.43.0


From 0c5a92df6625467674ad3fb331c27c1d8fcda324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 41/55] fix: a mesh keeps its descriptors, and what in-flight
 work uses, when its render pass changes

---
 source/RenderGraph/RunnablePasses/RenderMesh.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..d628766 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -51,7 +51,6 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderMesh.cleanup();
 			m_renderMesh.initialise( m_renderPass.getRenderSize()
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
-- 
2.43.0


From 8395bc596dcacb1bca19d278b2c2779ff9300ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 42/55] fix: render passes and framebuffers replaced while in
 use are destroyed later

---
 .../RenderGraph/RunnablePasses/RenderPassHolder.cpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 3e2432a..380311d 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -217,7 +217,16 @@ namespace crg
 			return false;
 		}
 
-		data.cleanup( m_context );
+		// A submission of this graph may still use them.
+		if ( data.renderPass )
+		{
+			m_graph.getDeletionQueue().push( [old = data]( GraphContext & ctx )mutable
+				{
+					old.cleanup( ctx );
+				} );
+		}
+
+		data = {};
 		doCreateRenderPass( context
 			, runnable
 			, previousState
-- 
2.43.0


From 689dc5286eee222115bcd8918022745c78073b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 43/55] fix: resources that could not be created are released
 and forgotten

---
 source/RenderGraph/ResourceHandler.cpp | 367 ++++++++++++++-----------
 1 file changed, 202 insertions(+), 165 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 930f65f..bdff0a5 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -89,6 +89,40 @@ namespace crg
 			return result;
 		}
 
+		static void destroy( GraphContext & context
+			, std::pair< VkImage, VkDeviceMemory > const & image )
+		{
+			if ( context.vkFreeMemory && image.second )
+			{
+				context.vkFreeMemory( context.device, image.second, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image.first )
+			{
+				context.vkDestroyImage( context.device, image.first, context.allocator );
+			}
+		}
+
+		static void destroy( GraphContext & context
+			, VertexBuffer & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
+
 		static size_t makeHash( bool texCoords
 			, Texcoord const & config )
 		{
@@ -186,44 +220,54 @@ namespace crg
 
 			if ( ins )
 			{
-				// Create image
-				auto createInfo = reshdl::convert( *imageId.data );
-				auto res = context.vkCreateImage( context.device
-					, &createInfo
-					, context.allocator
-					, &it->second.first );
-				auto image = it->second.first;
-				checkVkResult( res, "Image creation" );
-				crgRegisterObjectName( context, imageId.data->name, image );
-
-				if ( context.device )
+				try
 				{
-					// Create Image memory
-					VkMemoryRequirements requirements{};
-					context.vkGetImageMemoryRequirements( context.device
-						, image
-						, &requirements );
-					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-						, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
-					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
-						, nullptr
-						, requirements.size
-						, deduced };
-					res = context.vkAllocateMemory( context.device
-						, &allocateInfo
+					// Create image
+					auto createInfo = reshdl::convert( *imageId.data );
+					auto res = context.vkCreateImage( context.device
+						, &createInfo
 						, context.allocator
-						, &it->second.second );
-					auto memory = it->second.second;
-					checkVkResult( res, "Image memory allocation" );
-					crgRegisterObjectName( context, imageId.data->name, memory );
-
-					// Bind image and memory
-					res = context.vkBindImageMemory( context.device
-						, image
-						, memory
-						, 0u );
-					checkVkResult( res, "Image memory binding" );
-					created = true;
+						, &it->second.first );
+					auto image = it->second.first;
+					checkVkResult( res, "Image creation" );
+					crgRegisterObjectName( context, imageId.data->name, image );
+
+					if ( context.device )
+					{
+						// Create Image memory
+						VkMemoryRequirements requirements{};
+						context.vkGetImageMemoryRequirements( context.device
+							, image
+							, &requirements );
+						uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+							, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
+						VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
+							, nullptr
+							, requirements.size
+							, deduced };
+						res = context.vkAllocateMemory( context.device
+							, &allocateInfo
+							, context.allocator
+							, &it->second.second );
+						auto memory = it->second.second;
+						checkVkResult( res, "Image memory allocation" );
+						crgRegisterObjectName( context, imageId.data->name, memory );
+
+						// Bind image and memory
+						res = context.vkBindImageMemory( context.device
+							, image
+							, memory
+							, 0u );
+						checkVkResult( res, "Image memory binding" );
+						created = true;
+					}
+				}
+				catch ( ... )
+				{
+					// Don't keep half of an image.
+					reshdl::destroy( context, it->second );
+					m_images.erase( it );
+					throw;
 				}
 			}
 
@@ -246,15 +290,23 @@ namespace crg
 
 			if ( ins )
 			{
-				auto image = createImage( context, view.data->image ).first;
-				auto createInfo = reshdl::convert( *view.data, image );
-				auto res = context.vkCreateImageView( context.device
-					, &createInfo
-					, context.allocator
-					, &it->second );
-				checkVkResult( res, "ImageView creation" );
-				crgRegisterObjectName( context, view.data->name, it->second );
-				created = true;
+				try
+				{
+					auto image = createImage( context, view.data->image ).first;
+					auto createInfo = reshdl::convert( *view.data, image );
+					auto res = context.vkCreateImageView( context.device
+						, &createInfo
+						, context.allocator
+						, &it->second );
+					checkVkResult( res, "ImageView creation" );
+					crgRegisterObjectName( context, view.data->name, it->second );
+					created = true;
+				}
+				catch ( ... )
+				{
+					m_imageViews.erase( it );
+					throw;
+				}
 			}
 
 			result = { it->second, created };
@@ -294,8 +346,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,97 +367,106 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
-			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
-				, nullptr
-				, 0u
-				, 3u * sizeof( reshdl::Quad::Vertex )
-				, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT
-				, VK_SHARING_MODE_EXCLUSIVE
-				, 0u
-				, nullptr };
-			auto res = context.vkCreateBuffer( context.device
-				, &createInfo
-				, context.allocator
-				, &vertexBuffer->buffer.buffer() );
-			checkVkResult( res, "Vertex buffer creation" );
-			crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
 
-			if ( context.device )
+			try
 			{
-				VkMemoryRequirements requirements{};
-				context.vkGetBufferMemoryRequirements( context.device
-					, vertexBuffer->buffer.buffer()
-					, &requirements );
-				uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-					, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
-				VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
+				VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 					, nullptr
-					, requirements.size
-					, deduced };
-				res = context.vkAllocateMemory( context.device
-					, &allocateInfo
-					, context.allocator
-					, &vertexBuffer->memory );
-				checkVkResult( res, "Buffer memory allocation" );
-				crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
-
-				res = context.vkBindBufferMemory( context.device
-					, vertexBuffer->buffer.buffer()
-					, vertexBuffer->memory
-					, 0u );
-				checkVkResult( res, "Buffer memory binding" );
-
-				reshdl::Quad::Vertex * buffer{};
-				res = context.vkMapMemory( context.device
-					, vertexBuffer->memory
 					, 0u
-					, VK_WHOLE_SIZE
+					, 3u * sizeof( reshdl::Quad::Vertex )
+					, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT
+					, VK_SHARING_MODE_EXCLUSIVE
 					, 0u
-					, reinterpret_cast< void ** >( &buffer ) );
-				checkVkResult( res, "Buffer memory mapping" );
+					, nullptr };
+				auto res = context.vkCreateBuffer( context.device
+					, &createInfo
+					, context.allocator
+					, &vertexBuffer->buffer.buffer() );
+				checkVkResult( res, "Vertex buffer creation" );
+				crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
 
-				if ( buffer )
+				if ( context.device )
 				{
-					auto rangeU = 1.0;
-					auto minU = 0.0;
-					auto maxU = minU + 2.0 * rangeU;
-					auto rangeV = 1.0;
-					auto minV = -rangeV;
-					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
-					std::array<reshdl::Quad::Vertex, 3u > vertexData
-					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
-						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-					, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
-					std::copy( vertexData.begin(), vertexData.end(), buffer );
-
-					VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+					VkMemoryRequirements requirements{};
+					context.vkGetBufferMemoryRequirements( context.device
+						, vertexBuffer->buffer.buffer()
+						, &requirements );
+					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+						, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
+					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
 						, nullptr
-						, vertexBuffer->memory
-						, 0u
-						, VK_WHOLE_SIZE };
-					context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
-					context.vkUnmapMemory( context.device, vertexBuffer->memory );
-				}
+						, requirements.size
+						, deduced };
+					res = context.vkAllocateMemory( context.device
+						, &allocateInfo
+						, context.allocator
+						, &vertexBuffer->memory );
+					checkVkResult( res, "Buffer memory allocation" );
+					crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
 
-				vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
+					res = context.vkBindBufferMemory( context.device
+						, vertexBuffer->buffer.buffer()
+						, vertexBuffer->memory
+						, 0u );
+					checkVkResult( res, "Buffer memory binding" );
 
-				if ( texCoords )
-				{
-					vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
+					reshdl::Quad::Vertex * buffer{};
+					res = context.vkMapMemory( context.device
+						, vertexBuffer->memory
+						, 0u
+						, VK_WHOLE_SIZE
+						, 0u
+						, reinterpret_cast< void ** >( &buffer ) );
+					checkVkResult( res, "Buffer memory mapping" );
+
+					if ( buffer )
+					{
+						auto rangeU = 1.0;
+						auto minU = 0.0;
+						auto maxU = minU + 2.0 * rangeU;
+						auto rangeV = 1.0;
+						auto minV = -rangeV;
+						auto maxV = minV + 2.0 * rangeV;
+						auto realMinU = float( config.invertU ? maxU : minU );
+						auto realMaxU = float( config.invertU ? minU : maxU );
+						auto realMinV = float( config.invertV ? maxV : minV );
+						auto realMaxV = float( config.invertV ? minV : maxV );
+						std::array<reshdl::Quad::Vertex, 3u > vertexData
+						{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
+							, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
+						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
+						std::copy( vertexData.begin(), vertexData.end(), buffer );
+
+						VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+							, nullptr
+							, vertexBuffer->memory
+							, 0u
+							, VK_WHOLE_SIZE };
+						context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+						context.vkUnmapMemory( context.device, vertexBuffer->memory );
+					}
+
+					vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
+
+					if ( texCoords )
+					{
+						vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
+					}
+
+					vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
+					vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
+						, nullptr
+						, 0u
+						, uint32_t( vertexBuffer->vertexBindings.size() )
+						, vertexBuffer->vertexBindings.data()
+						, uint32_t( vertexBuffer->vertexAttribs.size() )
+						, vertexBuffer->vertexAttribs.data() };
 				}
-
-				vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
-				vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
-					, nullptr
-					, 0u
-					, uint32_t( vertexBuffer->vertexBindings.size() )
-					, vertexBuffer->vertexBindings.data()
-					, uint32_t( vertexBuffer->vertexAttribs.size() )
-					, vertexBuffer->vertexAttribs.data() };
+			}
+			catch ( ... )
+			{
+				reshdl::destroy( context, *vertexBuffer );
+				throw;
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
@@ -422,16 +483,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroy( context, it->second );
 			m_images.erase( it );
 		}
 	}
@@ -486,24 +538,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroy( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
@@ -597,13 +632,14 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		auto it = m_samplers.find( hash );
 
-		if ( res )
+		if ( it == m_samplers.end() )
 		{
-			it->second = m_handler.createSampler( m_context
-				, std::to_string( hash )
-				, samplerDesc );
+			it = m_samplers.try_emplace( hash
+				, m_handler.createSampler( m_context
+					, std::to_string( hash )
+					, samplerDesc ) ).first;
 		}
 
 		return it->second;
@@ -613,14 +649,15 @@ namespace crg
 		, Texcoord const & config )
 	{
 		auto hash = reshdl::makeHash( texCoords, config );
-		auto [it, res] = m_vertexBuffers.emplace( hash, nullptr );
+		auto it = m_vertexBuffers.find( hash );
 
-		if ( res )
+		if ( it == m_vertexBuffers.end() )
 		{
-			it->second = m_handler.createQuadTriVertexBuffer( m_context
-				, std::to_string( hash )
-				, texCoords
-				, config );
+			it = m_vertexBuffers.emplace( hash
+				, m_handler.createQuadTriVertexBuffer( m_context
+					, std::to_string( hash )
+					, texCoords
+					, config ) ).first;
 		}
 
 		return *it->second;
-- 
2.43.0


From 706b541a8eea783d63bd03088554dc7c0711d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 44/55] fix: the semaphore of a graph whose creation fails is
 destroyed

---
 include/RenderGraph/RunnableGraph.hpp |  2 +-
 source/RenderGraph/RunnableGraph.cpp  | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index e95bb08..e94838c 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -163,7 +163,7 @@ namespace crg
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
 		VkCommandBuffer m_commandBuffer{};
-		VkSemaphore m_semaphore{};
+		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
 		FramePassTimer m_timer;
 	};
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index f37dd09..f4b161c 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -228,6 +228,14 @@ namespace crg
 				ctx.vkDestroyCommandPool( ctx.device, object, ctx.allocator );
 				object = {};
 			} }
+		, m_semaphore{ m_context
+			, VkSemaphore{}
+			, []( GraphContext & ctx, VkSemaphore & object )noexcept
+			{
+				crgUnregisterObject( ctx, object );
+				ctx.vkDestroySemaphore( ctx.device, object, ctx.allocator );
+				object = {};
+			} }
 		, m_fence{ m_context
 			, graph.getName() + "/Graph"
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
@@ -243,9 +251,9 @@ namespace crg
 			auto res = context.vkCreateSemaphore( m_context.device
 				, &createInfo
 				, m_context.allocator
-				, &m_semaphore );
+				, &m_semaphore.object );
 			checkVkResult( res, name + " - Semaphore creation" );
-			crgRegisterObject( m_context, name, m_semaphore );
+			crgRegisterObject( m_context, name, m_semaphore.object );
 		}
 
 		if ( m_context.vkAllocateCommandBuffers )
@@ -308,14 +316,6 @@ namespace crg
 	{
 		m_delQueue.clear( m_context );
 
-		if ( m_context.vkDestroySemaphore && m_semaphore )
-		{
-			crgUnregisterObject( m_context, m_semaphore );
-			m_context.vkDestroySemaphore( m_context.device
-				, m_semaphore
-				, m_context.allocator );
-		}
-
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
@@ -424,7 +424,7 @@ namespace crg
 			, 1u
 			, &m_commandBuffer
 			, 1u
-			, &m_semaphore };
+			, &m_semaphore.object };
 		m_fence.reset();
 		m_delQueue.clear( m_context );
 		m_context.delQueue.clear( m_context );
@@ -432,7 +432,7 @@ namespace crg
 			, 1u
 			, &submitInfo
 			, m_fence );
-		return { SemaphoreWait{ m_semaphore
+		return { SemaphoreWait{ m_semaphore.object
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
 
-- 
2.43.0


From 5b2b42e74b344cb86a67d841d1b9856213dad5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 45/55] fix: what a pass could not create is created by its
 next recording

---
 .../RenderGraph/RunnablePasses/RenderMeshHolder.hpp  |  5 +++++
 .../RenderGraph/RunnablePasses/RenderQuadHolder.hpp  |  5 +++++
 source/RenderGraph/RunnablePasses/ComputePass.cpp    |  1 +
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp | 12 +++++++++++-
 source/RenderGraph/RunnablePasses/RenderMesh.cpp     |  3 ++-
 .../RenderGraph/RunnablePasses/RenderMeshHolder.cpp  |  6 +-----
 source/RenderGraph/RunnablePasses/RenderQuad.cpp     |  3 ++-
 .../RenderGraph/RunnablePasses/RenderQuadHolder.cpp  |  6 +-----
 8 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d39e7aa..e4ef7be 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -39,6 +39,11 @@ namespace crg
 		CRG_API bool isEnabled()const;
 		CRG_API VkExtent2D getRenderSize()const;
 
+		bool hasPipeline( uint32_t index )
+		{
+			return m_pipeline.getPipeline( index ) != VkPipeline{};
+		}
+
 	private:
 		void doPreparePipelineStates( VkExtent2D const & renderSize
 			, VkRenderPass renderPass
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index 7630f46..fb2f7b5 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -47,6 +47,11 @@ namespace crg
 			return m_pipeline.getPipelineLayout();
 		}
 
+		bool hasPipeline( uint32_t index )
+		{
+			return m_pipeline.getPipeline( index ) != VkPipeline{};
+		}
+
 		bool isInitialised()const
 		{
 			return m_vertexBuffer != nullptr;
diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index dd73e57..adbfaa6 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -90,6 +90,7 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
+		doCreatePipeline( index );
 		m_pipeline.recordInto( context, commandBuffer, index );
 		m_cpConfig.recordInto( context, commandBuffer, index );
 
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index 8fc2515..f1ef25f 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -46,11 +46,19 @@ namespace crg
 
 	void PipelineHolder::initialise()
 	{
-		if ( !m_pipelineLayout )
+		if ( !m_descriptorSetLayout )
 		{
 			doFillDescriptorBindings();
 			doCreateDescriptorSetLayout();
+		}
+
+		if ( !m_pipelineLayout )
+		{
 			doCreatePipelineLayout();
+		}
+
+		if ( !m_descriptorSetPool )
+		{
 			doCreateDescriptorPool();
 		}
 	}
@@ -239,6 +247,8 @@ namespace crg
 			return;
 		}
 
+		descriptorSet.writes.clear();
+
 		for ( auto & attach : m_pass.images )
 		{
 			if ( attach.isSampledView() )
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index d628766..e354699 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderMesh.hasPipeline( index ) )
 		{
 			m_renderMesh.initialise( m_renderPass.getRenderSize()
 				, m_renderPass.getRenderPass( index )
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index ee2f234..335d490 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -100,12 +100,8 @@ namespace crg
 	void RenderMeshHolder::resetPipeline( VkPipelineShaderStageCreateInfoArray config
 		, uint32_t index )
 	{
+		// The new one will be created when recording, with the render pass of that index.
 		m_pipeline.resetPipeline( std::move( config ), index );
-
-		if ( m_renderPass )
-		{
-			doCreatePipeline( index );
-		}
 	}
 
 	void RenderMeshHolder::record( RecordContext & context
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..8b3a8f1 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderQuad.hasPipeline( index ) )
 		{
 			m_renderQuad.initialise( m_renderPass.getRenderSize()
 				, m_renderPass.getRenderPass( index )
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index cf1cbff..7ba1e94 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -96,12 +96,8 @@ namespace crg
 	void RenderQuadHolder::resetPipeline( VkPipelineShaderStageCreateInfoArray config
 		, uint32_t index )
 	{
+		// The new one will be created when recording, with the render pass of that index.
 		m_pipeline.resetPipeline( std::move( config ), index );
-
-		if ( m_renderPass )
-		{
-			doCreatePipeline( index );
-		}
 	}
 
 	void RenderQuadHolder::record( RecordContext & context
-- 
2.43.0


From 1be4dc475ad3a75dcace1e3b5d4cb77e8af9a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 46/55] fix: a recording interrupted by a failure can be
 started again

---
 source/RenderGraph/RunnablePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 4568600..d3de59e 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -341,6 +341,8 @@ namespace crg
 		if ( index < m_passContexts.size() )
 		{
 			auto context = m_passContexts[index];
+			// A previous recording may have been interrupted.
+			resetCommandBuffer( index );
 			recordOne( m_passes[index].commandBuffer
 				, index
 				, context );
-- 
2.43.0


From 41ef3cbaf753c37052ba6c4756e245ff2368be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 47/55] fix: a DOT export shows each group once

---
 source/RenderGraph/DotExport.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1d314b5..1b35aeb 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -375,29 +375,29 @@ namespace crg::dot
 
 					for ( auto & group : m_children )
 					{
-						group->write( streams );
-						stream << streams.find( group->getName() )->second.str();
+						// Groups may share their name, and aren't complete graphs by themselves.
+						DisplayResult groupStreams;
+						group->write( groupStreams );
+						stream << groupStreams.find( group->getName() )->second.str();
 					}
 
-					auto & stream2 = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
-
 					if ( m_config.withGroups )
 					{
-						stream2 << Indent{ -2 };
+						stream << Indent{ -2 };
 					}
 
-					stream2 << m_stream.str();
+					stream << m_stream.str();
 
 					if ( !m_group )
 					{
-						stream2 << global.str();
-						stream2 << "}\n";
+						stream << global.str();
+						stream << "}\n";
 					}
 					else
 					{
 						if ( m_config.withGroups )
 						{
-							stream2 << "}\n";
+							stream << "}\n";
 						}
 					}
 				}
-- 
2.43.0


From c1e4235e3a41381f66970f159a9a7bd8957c26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 48/55] fix: an access waits for the write before it, even in
 the same state

---
 source/RenderGraph/RecordContext.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 022d57b..d2d9f58 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -24,6 +24,17 @@ namespace crg
 
 	namespace recctx
 	{
+		static bool hasWriteAccess( VkAccessFlags access )
+		{
+			return 0u != ( access
+				& ( VK_ACCESS_SHADER_WRITE_BIT
+					| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_TRANSFER_WRITE_BIT
+					| VK_ACCESS_HOST_WRITE_BIT
+					| VK_ACCESS_MEMORY_WRITE_BIT ) );
+		}
+
 		static VkImageSubresourceRange adaptRange( GraphContext const & context
 			, VkFormat format
 			, VkImageSubresourceRange const & subresourceRange )
@@ -303,6 +314,8 @@ namespace crg
 
 		if ( wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED
 			&& ( force
+				// What follows a write always has to wait for it.
+				|| recctx::hasWriteAccess( from.state.access )
 				|| from.layout != wantedState.layout
 				|| from.state.access != wantedState.state.access
 				|| from.state.pipelineStage != wantedState.state.pipelineStage ) )
@@ -410,6 +423,8 @@ namespace crg
 		}
 
 		if ( force
+			// What follows a write always has to wait for it.
+			|| recctx::hasWriteAccess( from.access )
 			|| ( from.access != wantedState.access
 				|| from.pipelineStage != wantedState.pipelineStage ) )
 		{
-- 
2.43.0


From fba404e56f0963736ef7f2189fa4762d6e6d5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 49/55] fix: the dependencies of render passes cover the states
 of their targets

---
 .../RunnablePasses/RenderPassHolder.cpp       | 56 ++++++++++++++++++-
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 380311d..3a11371 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -120,6 +120,58 @@ namespace crg
 				: currentLayout );
 		}
 
+		static PipelineState mergeStates( PipelineState lhs
+			, PipelineState const & rhs )
+		{
+			lhs.access |= rhs.access;
+			lhs.pipelineStage |= rhs.pipelineStage;
+			return lhs;
+		}
+
+		// The targets may have been last used by any of the previous passes.
+		static PipelineState getPreviousState( RecordContext & context
+			, RunnableGraph const & graph
+			, FramePass const & pass
+			, uint32_t passIndex )
+		{
+			auto result = context.getPrevPipelineState();
+
+			for ( auto & attach : pass.images )
+			{
+				if ( isTarget( attach ) )
+				{
+					if ( auto current = graph.getCurrentLayoutState( context, attach.view( passIndex ) );
+						current.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						result = mergeStates( result, current.state );
+					}
+				}
+			}
+
+			return result;
+		}
+
+		// The targets may be next used by any of the following passes.
+		static PipelineState getNextState( RecordContext const & context
+			, RunnableGraph const & graph
+			, RunnablePass const & runnable
+			, FramePass const & pass
+			, uint32_t passIndex )
+		{
+			auto result = context.getNextPipelineState();
+
+			for ( auto & attach : pass.images )
+			{
+				if ( isTarget( attach ) )
+				{
+					result = mergeStates( result
+						, graph.getNextLayoutState( context, runnable, resolveView( attach.view( passIndex ), 0u ) ).state );
+				}
+			}
+
+			return result;
+		}
+
 		static bool checkAttaches( RecordContext & context
 			, RunnableGraph const & graph
 			, RunnablePass const & runnable
@@ -206,8 +258,8 @@ namespace crg
 		using rpHolder::operator==;
 
 		auto & data = m_passes[passIndex];
-		auto previousState = context.getPrevPipelineState();
-		auto nextState = context.getNextPipelineState();
+		auto previousState = rpHolder::getPreviousState( context, m_graph, m_pass, passIndex );
+		auto nextState = rpHolder::getNextState( context, m_graph, runnable, m_pass, passIndex );
 
 		if ( data.renderPass
 			&& rpHolder::checkAttaches( context, m_graph, runnable, m_pass, data.attaches, passIndex )
-- 
2.43.0


From 9e74ca1c7a528849e68e38852f71c068787ef846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:21 +0000
Subject: [PATCH 50/55] fix: an overwritten image waits for its uses outside of
 the graph

---
 source/RenderGraph/RunnablePass.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index d3de59e..36c6754 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -412,9 +412,8 @@ namespace crg
 					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
 						, { attach.getAccessMask()
 							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
-					auto currentLayout = ( !attach.isInput()
-						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
-						: m_graph.getCurrentLayoutState( context, view ) );
+					// What is overwritten may still be in use outside of the graph.
+					auto currentLayout = m_graph.getCurrentLayoutState( context, view );
 					checkUndefinedInput( "Record", attach, view, currentLayout.layout );
 
 					if ( attach.isClearableImage() )
-- 
2.43.0


From 8d91eaa90717e6e0905f75fc028156910475600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 51/55] fix: line width of pipelines

---
 source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp | 2 +-
 source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index 335d490..9a73d21 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -60,7 +60,7 @@ namespace crg
 			, 0.0f
 			, 0.0f
 			, 0.0f
-			, 0.0f };
+			, 1.0f };
 	}
 
 	void RenderMeshHolder::initialise( VkExtent2D const & renderSize
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index 7ba1e94..bd05e48 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -60,7 +60,7 @@ namespace crg
 			, 0.0f
 			, 0.0f
 			, 0.0f
-			, 0.0f };
+			, 1.0f };
 	}
 
 	void RenderQuadHolder::initialise( VkExtent2D const & renderSize
-- 
2.43.0


From 13aaad31be1d8fabcb82aebcf4f008198aa934d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 52/55] fix: pipelines have the sample count of the targets of
 their pass

---
 .../RenderGraph/RunnablePasses/RenderPassHolder.hpp |  5 +++++
 .../RenderGraph/RunnablePasses/RenderMeshHolder.cpp |  4 +++-
 .../RenderGraph/RunnablePasses/RenderPassHolder.cpp | 13 +++++++++++++
 .../RenderGraph/RunnablePasses/RenderQuadHolder.cpp |  3 ++-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..dbb0700 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -41,6 +41,11 @@ namespace crg
 			, VkCommandBuffer commandBuffer );
 		CRG_API VkPipelineColorBlendStateCreateInfo createBlendState();
 		CRG_API VkFramebuffer getFramebuffer( uint32_t index )const;
+		/**
+		*\return
+		*	The samples count of the targets of given pass.
+		*/
+		CRG_API static VkSampleCountFlagBits getSamplesCount( FramePass const & pass );
 
 		VkRenderPass getRenderPass( uint32_t index )const
 		{
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index 9a73d21..f9e4615 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -4,6 +4,8 @@ See LICENSE file in root folder.
 */
 #include "RenderGraph/RunnablePasses/RenderMeshHolder.hpp"
 
+#include "RenderGraph/RunnablePasses/RenderPassHolder.hpp"
+
 namespace crg
 {
 	//*********************************************************************************************
@@ -42,7 +44,7 @@ namespace crg
 		m_msState = { VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO
 			, nullptr
 			, 0u
-			, VK_SAMPLE_COUNT_1_BIT
+			, RenderPassHolder::getSamplesCount( pass )
 			, VK_FALSE
 			, 0.0f
 			, nullptr
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 3a11371..82aa53f 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -451,6 +451,19 @@ namespace crg
 		return doCreateFramebuffer( index );
 	}
 
+	VkSampleCountFlagBits RenderPassHolder::getSamplesCount( FramePass const & pass )
+	{
+		for ( auto & attach : pass.images )
+		{
+			if ( rpHolder::isTarget( attach ) )
+			{
+				return attach.view().data->image.data->info.samples;
+			}
+		}
+
+		return VK_SAMPLE_COUNT_1_BIT;
+	}
+
 	void RenderPassHolder::doInitialiseRenderArea( uint32_t index )
 	{
 		uint32_t width{ m_size.width };
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index bd05e48..b9e1f6c 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -5,6 +5,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/RunnablePasses/RenderQuadHolder.hpp"
 
 #include "RenderGraph/GraphContext.hpp"
+#include "RenderGraph/RunnablePasses/RenderPassHolder.hpp"
 
 namespace crg
 {
@@ -42,7 +43,7 @@ namespace crg
 		m_msState = { VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO
 			, nullptr
 			, 0u
-			, VK_SAMPLE_COUNT_1_BIT
+			, RenderPassHolder::getSamplesCount( pass )
 			, VK_FALSE
 			, 0.0f
 			, nullptr
-- 
2.43.0


From e787e0523aa75b262e6cf5d6cec91b3077a189ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:40 +0000
Subject: [PATCH 53/55] fix: both aspects of depth-stencil images share their
 layout

---
 source/RenderGraph/Attachment.cpp    |  4 +++-
 source/RenderGraph/RecordContext.cpp | 18 +++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 7541ecd..1ca364b 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -267,7 +267,9 @@ namespace crg
 			result = VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
 		}
 #if VK_KHR_separate_depth_stencil_layouts
-		else if ( separateDepthStencilLayouts )
+		// Both aspects of a depth-stencil image share their layout.
+		else if ( separateDepthStencilLayouts
+			&& !isDepthStencilFormat( getFormat( view() ) ) )
 		{
 			if ( isDepthStencilAttach() )
 			{
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index d2d9f58..ca1ba20 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -35,20 +35,17 @@ namespace crg
 					| VK_ACCESS_MEMORY_WRITE_BIT ) );
 		}
 
-		static VkImageSubresourceRange adaptRange( GraphContext const & context
-			, VkFormat format
+		static VkImageSubresourceRange adaptRange( VkFormat format
 			, VkImageSubresourceRange const & subresourceRange )
 		{
 			VkImageSubresourceRange result = subresourceRange;
 
-			if ( !context.separateDepthStencilLayouts )
+			// The layouts are tracked for both aspects together.
+			if ( isDepthStencilFormat( format )
+				&& ( result.aspectMask == VK_IMAGE_ASPECT_DEPTH_BIT
+					|| result.aspectMask == VK_IMAGE_ASPECT_STENCIL_BIT ) )
 			{
-				if ( isDepthStencilFormat( format )
-					&& ( result.aspectMask == VK_IMAGE_ASPECT_DEPTH_BIT
-						|| result.aspectMask == VK_IMAGE_ASPECT_STENCIL_BIT ) )
-				{
-					result.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
-				}
+				result.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
 			}
 
 			return result;
@@ -271,8 +268,7 @@ namespace crg
 		, LayoutState const & wantedState
 		, bool force )
 	{
-		auto range = recctx::adaptRange( *m_resources
-				, image.data->info.format
+		auto range = recctx::adaptRange( image.data->info.format
 				, subresourceRange );
 		auto splitLayers = viewType != VK_IMAGE_VIEW_TYPE_3D && range.layerCount > 1u;
 
-- 
2.43.0


From 993119632bcfd89230d3635d8fe22f5134fcaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:37 +0000
Subject: [PATCH 54/55] fix: buffers wait for the writes made before they are
 read as uniforms, or through other ranges

---
 source/RenderGraph/Attachment.cpp    | 6 +++++-
 source/RenderGraph/RecordContext.cpp | 5 +++--
 source/RenderGraph/RunnablePass.cpp  | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 1ca364b..4d04f9b 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -141,10 +141,14 @@ namespace crg
 				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
 			}
 		}
-		else
+		else if ( isUniformView() )
 		{
 			result |= VK_ACCESS_SHADER_READ_BIT;
 		}
+		else
+		{
+			result |= VK_ACCESS_UNIFORM_READ_BIT;
+		}
 
 		return result;
 	}
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index ca1ba20..efcc799 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -432,8 +432,9 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				// The state is the one of the whole buffer.
+				, 0u
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 36c6754..4ecae35 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -466,7 +466,7 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-- 
2.43.0


From 467fc405d9b221eb5c9bc1e385743ac11e57a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:37 +0000
Subject: [PATCH 55/55] fix: failures of recordings and submissions are
 reported

---
 include/RenderGraph/RunnablePass.hpp   |  6 +++
 source/RenderGraph/ResourceHandler.cpp |  3 +-
 source/RenderGraph/RunnableGraph.cpp   | 63 ++++++++++++++++++--------
 source/RenderGraph/RunnablePass.cpp    | 27 +++++++----
 4 files changed, 71 insertions(+), 28 deletions(-)

diff --git a/include/RenderGraph/RunnablePass.hpp b/include/RenderGraph/RunnablePass.hpp
index 0e737d0..002a1c4 100644
--- a/include/RenderGraph/RunnablePass.hpp
+++ b/include/RenderGraph/RunnablePass.hpp
@@ -58,6 +58,11 @@ namespace crg
 
 		CRG_API void reset();
 		CRG_API VkResult wait( uint64_t timeout );
+		/**
+		*\brief
+		*	Tells that what was to be submitted since the last reset wasn't: there is nothing to wait for.
+		*/
+		CRG_API void cancel()noexcept;
 
 		operator VkFence()const
 		{
@@ -68,6 +73,7 @@ namespace crg
 		GraphContext * m_context;
 		VkFence m_fence{};
 		bool m_fenceWaited{};
+		bool m_cancelled{};
 	};
 
 	namespace ru
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bdff0a5..27b8ea6 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -442,8 +442,9 @@ namespace crg
 							, vertexBuffer->memory
 							, 0u
 							, VK_WHOLE_SIZE };
-						context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+						res = context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
 						context.vkUnmapMemory( context.device, vertexBuffer->memory );
+						checkVkResult( res, "Buffer memory flush" );
 					}
 
 					vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index f4b161c..8ea91d6 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -273,8 +273,10 @@ namespace crg
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			res = m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( res, name + " - CommandBuffer begin" );
+			res = m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( res, name + " - CommandBuffer end" );
 		}
 
 		Logger::logDebug( m_graph.getName() + " - Initialising resources" );
@@ -349,13 +351,15 @@ namespace crg
 			recordContext.setNextPipelineState( ( *currPass )->getPipelineState()
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
-			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
-			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
+			checkVkResult( m_fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_graph.getName() + " - Fence wait" );
+			auto res = m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
+			checkVkResult( res, m_graph.getName() + " - CommandBuffer reset" );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			res = m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( res, m_graph.getName() + " - CommandBuffer begin" );
 			m_timer.beginPass( m_commandBuffer );
 
 			while ( currPass != m_passes.end() )
@@ -381,7 +385,8 @@ namespace crg
 
 			doTransitionOutputs( recordContext );
 			m_timer.endPass( m_commandBuffer );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			res = m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( res, m_graph.getName() + " - CommandBuffer end" );
 		}
 
 		m_graph.registerFinalState( recordContext );
@@ -405,16 +410,11 @@ namespace crg
 	SemaphoreWaitArray RunnableGraph::run( SemaphoreWaitArray const & toWait
 		, VkQueue queue )
 	{
+		auto previousState = m_graph.m_finalState;
 		record();
 		std::vector< VkSemaphore > semaphores;
 		std::vector< VkPipelineStageFlags > dstStageMasks;
 		convert( toWait, semaphores, dstStageMasks );
-		m_timer.notifyPassRender();
-
-		for ( auto const & pass : m_passes )
-		{
-			pass->notifyPassRender();
-		}
 
 		VkSubmitInfo submitInfo{ VK_STRUCTURE_TYPE_SUBMIT_INFO
 			, nullptr
@@ -425,13 +425,38 @@ namespace crg
 			, &m_commandBuffer
 			, 1u
 			, &m_semaphore.object };
-		m_fence.reset();
-		m_delQueue.clear( m_context );
-		m_context.delQueue.clear( m_context );
-		m_context.vkQueueSubmit( queue
-			, 1u
-			, &submitInfo
-			, m_fence );
+
+		try
+		{
+			m_fence.reset();
+			m_delQueue.clear( m_context );
+			m_context.delQueue.clear( m_context );
+			auto res = m_context.vkQueueSubmit( queue
+				, 1u
+				, &submitInfo
+				, m_fence );
+
+			if ( res != VK_SUCCESS )
+			{
+				m_fence.cancel();
+			}
+
+			checkVkResult( res, m_graph.getName() + " - Queue submission" );
+		}
+		catch ( ... )
+		{
+			// What was recorded will not be executed.
+			m_graph.m_finalState = std::move( previousState );
+			throw;
+		}
+
+		m_timer.notifyPassRender();
+
+		for ( auto const & pass : m_passes )
+		{
+			pass->notifyPassRender();
+		}
+
 		return { SemaphoreWait{ m_semaphore.object
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 4ecae35..6679993 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -157,6 +157,7 @@ namespace crg
 		: m_context{ rhs.m_context }
 		, m_fence{ rhs.m_fence }
 		, m_fenceWaited{ rhs.m_fenceWaited }
+		, m_cancelled{ rhs.m_cancelled }
 	{
 		rhs.m_context = {};
 		rhs.m_fence = {};
@@ -179,22 +180,24 @@ namespace crg
 		{
 			if ( !m_fenceWaited )
 			{
-				wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( wait( 0xFFFFFFFFFFFFFFFFULL ), "Fence wait" );
 			}
 
-			m_context->vkResetFences( m_context->device
+			auto res = m_context->vkResetFences( m_context->device
 				, 1u
 				, &m_fence );
+			checkVkResult( res, "Fence reset" );
 		}
 
 		m_fenceWaited = false;
+		m_cancelled = false;
 	}
 
 	VkResult Fence::wait( uint64_t timeout )
 	{
 		VkResult res = VK_SUCCESS;
 
-		if ( m_fence )
+		if ( m_fence && !m_cancelled )
 		{
 			res = m_context->vkWaitForFences( m_context->device
 				, 1u
@@ -207,6 +210,11 @@ namespace crg
 		return res;
 	}
 
+	void Fence::cancel()noexcept
+	{
+		m_cancelled = true;
+	}
+
 	//*********************************************************************************************
 
 	RunnablePass::PassData::PassData( RunnableGraph & grh
@@ -362,14 +370,16 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
-		pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
 			, nullptr };
-		m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
+		auto res = m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
+		checkVkResult( res, m_pass.getGroupName() + " - CommandBuffer begin" );
 		recordInto( enabled.commandBuffer, index, context );
-		m_context.vkEndCommandBuffer( enabled.commandBuffer );
+		res = m_context.vkEndCommandBuffer( enabled.commandBuffer );
+		checkVkResult( res, m_pass.getGroupName() + " - CommandBuffer end" );
 	}
 
 	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
@@ -529,10 +539,11 @@ namespace crg
 
 			if ( pass.commandBuffer.commandBuffer )
 			{
-				pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_pass.getGroupName() + " - Fence wait" );
 				pass.commandBuffer.recorded = false;
-				m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
+				auto res = m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
 					, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
+				checkVkResult( res, m_pass.getGroupName() + " - CommandBuffer reset" );
 			}
 		}
 	}
-- 
2.43.0

