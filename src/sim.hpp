// A simulated Vulkan device: object lifetimes, command buffers that are executed at
// submission on per-subresource layouts and contents, synchronisation objects with
// lazy completion, queries, and fault injection. It shares nothing with the library
// under test but the Vulkan headers.
#pragma once
#include <vulkan/vulkan.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
	enum class Ty : uint8_t
	{
		None, Image, View, Buffer, BufferView, Memory, Sampler, RenderPass, Framebuffer, Pipeline, PipelineLayout,
		SetLayout, DescPool, DescSet, CmdPool, CmdBuf, Semaphore, Fence, QueryPool, Event, Shader, Device, Queue, Cache,
	};
	char const * name( Ty t );

	template< typename H > inline uint64_t u( H h ) { return uint64_t( h ); }
	template< typename H > inline H as( uint64_t v ) { return H( v ); }

	struct Viol { std::string cat; std::string msg; };

	struct Sub
	{
		VkImageLayout layout{ VK_IMAGE_LAYOUT_UNDEFINED };
		uint32_t content{}; // 0: undefined
		uint32_t ideal{};   // content if no transition ever discarded anything
	};

	struct Desc
	{
		VkDescriptorType type{};
		uint64_t sampler{}, view{}, buffer{}, bufferView{};
		VkImageLayout layout{};
		VkDeviceSize offset{}, range{};
	};

	enum class CK : uint8_t
	{
		Barrier, BindPipeline, BindSets, BindVB, BindIB, ClearColor, ClearDS, Dispatch, DispatchIndirect, Draw, DrawIndexed,
		DrawIndirect, DrawIndexedIndirect, BeginRP, EndRP, Push, ResetQuery, Timestamp, Blit, CopyBuffer, CopyBufImg, CopyImg,
		CopyImgBuf, Fill, BeginLabel, EndLabel, Use, Mark, Other,
	};
	char const * name( CK k );

	// What a (simulated) shader or user command does with a range of an image.
	struct Use
	{
		uint64_t image{};
		VkImageSubresourceRange range{};
		VkImageLayout layout{};
		bool read{}, write{};
	};

	struct Cmd
	{
		CK k{};
		std::vector< uint64_t > h;      // handles
		std::vector< int64_t > a;       // scalar arguments
		std::vector< VkImageMemoryBarrier > ib;
		std::vector< VkBufferMemoryBarrier > bb;
		std::vector< VkMemoryBarrier > mb;
		std::vector< VkImageCopy > ic;
		std::vector< VkImageBlit > ibl;
		std::vector< VkBufferCopy > bc;
		std::vector< VkBufferImageCopy > bic;
		std::vector< VkImageSubresourceRange > ranges;
		std::vector< VkClearValue > clears;
		Use use{};
		std::string s;
		// Descriptor contents at record time are not copied: sets are read at execution.
	};

	struct Query { bool written{}; uint64_t value{}; bool reset{}; };

	struct Stage { VkShaderStageFlagBits stage{}; uint64_t module{}; std::string entry; };

	struct Obj
	{
		Ty ty{};
		uint64_t h{};
		bool alive{ true };
		bool external{ false };   // created by the harness, not by the library
		uint64_t parent{};
		uint32_t seq{};
		std::string name;
		uint32_t named{};         // debug extensions that told the name
		// image
		VkImageCreateInfo ici{};
		uint64_t mem{};
		std::vector< Sub > subs;
		// view
		VkImageViewCreateInfo vci{};
		// buffer / memory
		VkDeviceSize size{};
		VkFlags usage{};
		uint32_t memType{};
		std::shared_ptr< std::vector< uint8_t > > map;
		bool mapped{};
		// sampler
		VkSamplerCreateInfo sci{};
		// render pass
		std::vector< VkAttachmentDescription > atts;
		std::vector< VkAttachmentReference > colorRefs, inputRefs;
		bool hasDepth{};
		VkAttachmentReference depthRef{};
		std::vector< VkSubpassDependency > deps;
		// framebuffer
		uint64_t rp{};
		std::vector< uint64_t > views;
		uint32_t w{}, hgt{}, layers{};
		// pipeline
		bool compute{};
		uint64_t layout{};
		std::vector< Stage > stages;
		std::vector< VkViewport > viewports;
		std::vector< VkRect2D > scissors;
		std::vector< VkPipelineColorBlendAttachmentState > blends;
		std::vector< VkVertexInputBindingDescription > vbinds;
		std::vector< VkVertexInputAttributeDescription > vattrs;
		VkPipelineInputAssemblyStateCreateInfo iasm{};
		VkPipelineDepthStencilStateCreateInfo dss{};
		VkPipelineRasterizationStateCreateInfo ras{};
		VkPipelineMultisampleStateCreateInfo ms{};
		bool hasDss{};
		// pipeline layout / set layout
		std::vector< uint64_t > setLayouts;
		std::vector< VkPushConstantRange > pcs;
		std::vector< VkDescriptorSetLayoutBinding > binds;
		// pool
		std::vector< VkDescriptorPoolSize > sizes, used;
		uint32_t maxSets{}, usedSets{};
		VkFlags flags{};
		// set
		uint64_t setLayout{};
		std::map< std::pair< uint32_t, uint32_t >, Desc > descs;
		// command buffer
		enum class CB { Initial, Recording, Executable } cb{ CB::Initial };
		std::vector< Cmd > cmds;
		uint32_t generation{};
		std::set< uint64_t > refs;     // handles referenced by recorded commands
		bool invalid{};                // a referenced object was destroyed
		VkFlags beginFlags{};
		uint32_t submittedGen{};       // recording that was submitted (ONE_TIME)
		// semaphore / fence
		bool signaled{};
		uint64_t pendingSub{};         // submission that will signal it
		// query pool
		std::vector< Query > queries;
	};

	struct Submission
	{
		uint64_t id{};
		uint32_t timeouts{};
		uint64_t cmdBuf{};
		uint64_t fence{};
		std::vector< uint64_t > waits;
		std::vector< VkPipelineStageFlags > waitStages;
		std::vector< uint64_t > signals;
		std::set< uint64_t > refs;
		bool done{};
		uint64_t queue{};
	};

	struct Event { std::string what; uint64_t h{}; uint64_t sub{}; };

	struct Device
	{
		// configuration
		bool lazy{ false };            // submissions complete only when waited for
		bool separateDS{ false };
		uint32_t debugExt{ 1u };       // 1: VK_EXT_debug_utils, 2: VK_EXT_debug_marker
		std::vector< std::string > labels; // of VK_EXT_debug_marker, when both are there
		bool execute{ true };
		uint64_t memTypeBits{ 0x7 };
		std::vector< VkMemoryPropertyFlags > memTypes{ VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT };
		VkDeviceSize memAlign{ 256 };
		std::function< uint64_t() > tick; // timestamp source
		std::function< void( Cmd const & ) > onMark; // when a mark or the start of a label is executed
		// faults
		int64_t faultAt{ -1 };
		VkResult faultCode{ VK_ERROR_OUT_OF_DEVICE_MEMORY };
		int64_t faultable{};
		std::string faulted;
		std::vector< std::string > faultableNames;

		std::vector< Viol > viols;
		std::unordered_map< uint64_t, std::unique_ptr< Obj > > objs;
		std::vector< uint64_t > order;
		std::vector< Submission > subs;
		std::vector< Event > events;
		uint64_t next{ 1 };
		uint64_t handleMask{}; // permutes the handles given out
		uint32_t contentVersion{ 1 };
		uint64_t ticks{ 1000 };
		std::map< std::string, uint64_t > calls;
		int64_t waits{}; // fence waits that found it unsignalled

		Device();
		~Device();
		Obj & make( Ty t, uint64_t parent = 0 );
		Obj * find( uint64_t h, Ty t );
		Obj * use( uint64_t h, Ty t, char const * where ); // complains when dead or unknown
		void kill( uint64_t h, Ty t, char const * where );
		void fail( std::string cat, std::string msg );
		bool fault( char const * what ); // true: this call must fail
		std::string show( uint64_t h )const;
		bool has( std::string const & cat )const;
		std::string first( std::string const & cat )const;

		// images
		static uint32_t aspectsOf( VkFormat f );
		void forSubs( Obj & img, VkImageSubresourceRange const & r, std::function< void( Sub &, uint32_t aspect, uint32_t layer, uint32_t mip ) > f, char const * where );
		VkImageSubresourceRange viewRange( Obj const & view );
		void setImage( uint64_t image, VkImageSubresourceRange const & r, VkImageLayout layout, bool defined );
		VkBuffer makeBuffer( VkDeviceSize size, std::string name );
		uint64_t makeExternal( Ty t, std::string name );
		VkExtent3D mipExtent( Obj const & img, uint32_t mip )const;

		void execCmds( Submission & s, Obj & cb );
		void complete( Submission & s );
		void completeAll();
		std::vector< uint64_t > liveOwned()const; // library objects still alive
	};

#ifndef SIM_TLS
#define SIM_TLS
#endif
	extern SIM_TLS Device * g; // one per thread in the builds that need it

	PFN_vkVoidFunction VKAPI_CALL getDeviceProcAddr( VkDevice device, char const * name );
	VkPhysicalDeviceMemoryProperties memProps();
	VkPhysicalDeviceProperties devProps( float period = 1.0f );
	VkDevice deviceHandle();
	VkQueue queueHandle( uint32_t i = 0 );

	// Markers and uses pushed by harness callbacks.
	void cmdMark( VkCommandBuffer cb, std::string s, std::vector< int64_t > a = {} );
	void cmdUse( VkCommandBuffer cb, Use const & use );
	// Command stream with handles renamed by first appearance.
	std::string canon( std::vector< Cmd > const & cmds, bool withLabels );
	std::string dump( Cmd const & c );
	uint32_t bytesPerPixel( VkFormat f );
}
