// Generated worlds: images, views, buffers and frame graphs over them, built through the
// library's public API on the simulated device.
#pragma once
#include "pbt.hpp"
#include "sim.hpp"
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

namespace gg
{
	void silence(); // the library's own log, off
	using std::string;
	using std::vector;

	// Image attachment roles.
	enum class AK
	{
		Sampled, StorageIn, StorageOut, StorageClear, StorageInOut, TransferIn, TransferOut, TransferInOut, Implicit,
		ColourIn, ColourOut, ColourInOut, DepthIn, DepthOut, DepthInOut, DSIn, DSOut, DSInOut, StencilIn, StencilOut, StencilInOut,
		Count
	};
	// Buffer attachment roles.
	enum class BK { Uniform, StorageIn, StorageOut, StorageClear, StorageInOut, TransferIn, TransferOut, TransferInOut, Implicit, Count };
	// Kinds of passes.
	enum class PK { Generic, Compute, RenderPass, Quad, Mesh, ImageCopy, ImageBlit, BufferCopy, BufToImg, ImgToBuf, GenMips, Count };

	char const * name( AK k );
	char const * name( BK k );
	char const * name( PK k );
	bool isRender( AK k );
	bool isColour( AK k );
	bool reads( AK k );
	bool writes( AK k );
	bool reads( BK k );
	bool writes( BK k );
	// The layout a role stands for.
	VkImageLayout layoutOf( AK k, VkImageLayout wanted, bool separate );
	struct Acc { VkAccessFlags access; VkPipelineStageFlags stage; };
	Acc accessOf( BK k, Acc wanted, bool compute );

	struct Opts
	{
		uint32_t minPasses{ 1 }, maxPasses{ 7 };
		uint32_t maxImages{ 4 }, maxBuffers{ 3 };
		uint32_t maxIndex{ 3 };
		uint32_t frames{ 3 };
		uint32_t graphs{ 1 };
		bool images{ true }, buffers{ true };
		bool groups{ true };
		bool toggles{ true };
		bool actions{ true };
		bool implicitActions{ true };
		bool merged{ true };
		bool external{ true };     // images handed over by the user through graph inputs
		bool outputs{ true };
		bool threeD{ true };
		bool wholeViews{ true };   // uses that cover several blocks
		bool subBufferRanges{ true };
		bool stencilOnly{ true };
		bool resettable{ false };
		bool fullDeps{ false };    // the declared dependencies are a chain (total order)
		bool allowCycles{ false };
		bool dupResources{ true };
		vector< PK > kinds;        // empty: all
		int separate{ -1 };        // -1: generated
		uint32_t debugExt{ 1u };  // see sim::Device
		vector< VkMemoryPropertyFlags > memTypes; // of the device, empty: default
		uint64_t memTypeBits{ 0x7 };
		float period{ 1.0f };      // of the device's timestamps
		std::function< string( string ) > name; // of the resources, from their default name
		std::shared_ptr< crg::ResourceHandler > handler; // none: one of its own
	};

	struct Block { uint32_t layer, layers, mip, mips; };

	struct Img
	{
		crg::ImageId id{};
		VkFormat fmt{};
		VkImageType type{};
		VkExtent3D ext{};
		uint32_t mips{ 1 }, layers{ 1 };
		VkImageAspectFlags aspect{};
		vector< Block > blocks;
		vector< int > whole;     // indices (in World::views) of views covering several blocks
		vector< int > blockView; // view of each block
		bool external{};
		VkImageLayout extLayout{};
		bool hasStencil{}, hasDepth{};
		bool userExtents{};
	};

	struct View
	{
		crg::ImageViewId id{};
		int img{};
		VkImageViewType type{};
		VkImageSubresourceRange range{};
		vector< int > sources; // merged view
	};

	struct Buf
	{
		string name;
		VkDeviceSize size{};
		VkBuffer vk{};
		VkBufferView view{};
	};

	struct IAtt
	{
		AK k{};
		vector< int > views;
		uint32_t binding{};
		VkImageLayout wanted{};
		crg::SamplerDesc sampler{};
		VkClearValue clear{};
		bool hasClear{};
		VkPipelineColorBlendAttachmentState blend{ crg::DefaultBlendState };
		bool hasBlend{};
		bool noTransition{};
		int view( uint32_t index )const { return views.size() == 1 ? views[0] : views[index]; }
	};

	struct BAtt
	{
		BK k{};
		vector< int > bufs;
		bool isView{};
		uint32_t binding{};
		VkDeviceSize offset{}, range{};
		Acc wanted{};
		bool noTransition{};
		int buf( uint32_t index )const { return bufs.size() == 1 ? bufs[0] : bufs[index]; }
	};

	struct Graph;
	struct World;

	struct Pass
	{
		World * w{};
		Graph * g{};
		uint32_t id{};               // index in Graph::passes (creation order)
		string name;
		PK kind{};
		int group{};                 // index in Graph::groups, 0: default
		vector< int > deps;          // ids of passes
		vector< IAtt > images;
		vector< BAtt > buffers;
		uint32_t maxPassCount{ 1 };
		bool isCompute{};
		bool resettable{};
		uint32_t pre{}, post{};      // number of actions
		struct Impl { int view; bool doesTransition; VkImageLayout layout; };
		vector< Impl > impl;
		vector< bool > enabledAt;    // per frame
		vector< uint32_t > indexAt;  // per frame
		bool enabledByPtr{};
		bool byDefault{}; // made without index nor enabled callbacks: always run, at index 0
		// run time
		bool enabled{ true };
		uint32_t index{};
		crg::FramePass * fp{};
		crg::RunnablePass * rp{};
		vector< uint32_t > inits;    // passIndex of each initialise callback
		vector< vector< VkPipelineShaderStageCreateInfo > > programs; // one: shared; else per index
		bool programByCreator{};
		vector< VkDescriptorSetLayout > extraLayouts;
		vector< VkPushConstantRange > pushConstants;
		VkExtent2D renderSize{};
		VkOffset2D renderPos{};
		uint32_t counts[3]{ 1, 1, 1 };
		bool countsByFn[3]{};
		uint32_t primitives{ 1 }, vertices{ 3 }, instances{ 1 };
		VkCullModeFlags cull{};
		VkIndexType indexType{};
		bool depthTest{};
		bool hasTexcoord{};
		crg::Texcoord texcoord{};
		vector< int > vertexBufs, indexBufs, indirectBufs; // none, one for all indices, or one per index
		bool depthWrite{};
		VkCompareOp depthCompare{};
		VkDeviceSize indirectOffset{};
		uint32_t indirectStride{};
		VkExtent3D copySize{};
		VkOffset3D offA{}, offB{};
		VkExtent3D extA{}, extB{};
		VkFilter filter{};
		VkDeviceSize copyOffset{}, copyRange{};
		VkImageLayout finalLayout{};
	};

	struct Group { int parent{ -1 }; string name; crg::FramePassGroup * g{}; };

	struct Graph
	{
		World * w{};
		uint32_t id{};
		string name;
		vector< Group > groups;
		vector< std::unique_ptr< Pass > > passes;
		vector< int > creation;  // creation order: ids
		std::unique_ptr< crg::FrameGraph > fg;
		crg::RunnableGraphPtr rg;
		vector< std::pair< int, VkImageLayout > > inputs;  // view, layout
		vector< std::pair< int, VkImageLayout > > outputs;
		vector< int > depends;   // other graphs
		VkCommandBuffer lastCb{};
		crg::SemaphoreWaitArray lastWait;
	};

	struct World
	{
		pbt::Case & c;
		Opts o;
		std::unique_ptr< sim::Device > dev;
		std::shared_ptr< crg::ResourceHandler > handler;
		std::unique_ptr< crg::GraphContext > ctx;
		vector< Img > imgs;
		vector< View > views;
		vector< Buf > bufs;
		vector< std::unique_ptr< Graph > > graphs;
		bool separate{};
		uint32_t nextProgram{ 1 };
		std::function< void( Pass &, VkCommandBuffer, uint32_t, crg::RecordContext & ) > onRecord; // extra work in the pass's own commands
		std::function< void( Pass &, char const *, uint32_t ) > onMark; // after each mark: "pre", "pass", "post", with its position
		std::function< void( Pass &, char const *, uint32_t ) > onUser; // in each callback of the user: it may throw
		std::function< crg::RunnablePassPtr( Pass &, crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) > creator;
		std::function< bool( int ) > imgAllowed, bufAllowed; // resources the next generated graph may use
		bool mayUse( size_t img )const { return !imgAllowed || imgAllowed( int( img ) ); }

		World( pbt::Case & c, Opts o );
		~World();
		// generation (fills specs only)
		void genImages();
		void genBuffers();
		Graph & genGraph( string name );
		void genPass( Graph & g, Pass & p );
		void genSchedule( Graph & g );
		// construction through the API
		void build( Graph & g );
		void compile( Graph & g );
		void setFrame( Graph & g, uint32_t frame );
		void provideExternals( Graph & g );
		crg::SemaphoreWaitArray run( Graph & g );
		void destroy();      // graphs, then handler and context, in a generated order
		string describe( Graph const & g )const;
		string describe()const;
		string showView( int v )const;
		// command buffer recorded by a graph's last run
		vector< sim::Cmd > const & commands( Graph const & g )const;
		int addView( int img, VkImageViewType type, VkImageSubresourceRange const & r );
		void pushUses( Pass & p, VkCommandBuffer cb, uint32_t index );
		VkImage vkImage( int img );
		bool blockHomogeneous( int img )const { return true; }
		vector< VkPipelineShaderStageCreateInfo > program( bool compute );
		void require( std::set< string > const & cats ); // fails the case when the device saw a violation in these categories
		string mark( Pass const & p, char const * what )const { return string( what ) + ":" + p.g->name + "/" + std::to_string( p.id ); }
	};
	VkImageSubresourceRange rangeOf( Img const & img, Block const & b );
	crg::RunnablePassPtr makeRunnable( Pass & p, crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg );
	void declare( World & w, Pass & p, crg::FramePass & fp );
	string layoutName( VkImageLayout l );
}
