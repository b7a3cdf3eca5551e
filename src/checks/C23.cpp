// C23: threads share a resource handler. Built with the thread sanitizer.
#include "canon.hpp"
#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/Exception.hpp>
#include <atomic>
#include <chrono>
#include <exception>
#include <thread>
using namespace gg;
using namespace chk;

extern "C" char const * __tsan_default_options()
{
	return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:history_size=3";
}

namespace
{
	// Threads which start together; what one of them throws is thrown here. No locks: they would hide races.
	struct Gate
	{
		std::atomic< uint32_t > waiting;
		explicit Gate( uint32_t n ) : waiting{ n } {}
		void pass()
		{
			waiting.fetch_sub( 1u, std::memory_order_relaxed );
			while ( waiting.load( std::memory_order_relaxed ) ) std::this_thread::yield();
		}
	};
	template< typename F > void together( uint32_t n, F f )
	{
		Gate gate{ n };
		std::vector< std::exception_ptr > thrown( n );
		std::vector< std::thread > threads;
		for ( uint32_t i = 0u; i < n; ++i )
			threads.emplace_back( [&, i]()
				{
					gate.pass();
					try { f( i ); } catch ( ... ) { thrown[i] = std::current_exception(); }
				} );
		for ( auto & t : threads ) t.join();
		for ( auto & e : thrown ) if ( e ) std::rethrow_exception( e );
	}

	//---------------------------------------------------------------- requests
	// A device without locks: it counts what is alive.
	namespace dev
	{
		constexpr uint64_t Max = 4096u;
		std::atomic< uint64_t > next{ 0u };
		std::atomic< int > alive[Max];     // +1 when created, -1 when destroyed
		std::atomic< int > kindOf[Max];
		std::atomic< uint64_t > imageOf[Max];
		std::atomic< bool > bound[Max];
		std::atomic< uint32_t > early{ 0u }; // views of images without memory
		char scratch[8][4096];
		std::atomic< uint32_t > maps{ 0u };
		enum Kind { Image = 1, View, Sampler, Buffer, Memory };
		// Calls take their time: more or less of it, so that threads meet in many ways.
		std::atomic< uint32_t > pace{ 0u }, calls{ 0u };
		void linger()
		{
			auto p = pace.load( std::memory_order_relaxed );
			auto n = calls.fetch_add( 1u, std::memory_order_relaxed );
			switch ( p % 4u )
			{
			case 0u: for ( int i = 0; i < 3; ++i ) std::this_thread::yield(); break;
			case 1u: if ( ( n * 2654435761u >> 16 ) % 3u == 0u ) std::this_thread::sleep_for( std::chrono::microseconds( 20 ) ); break;
			case 2u: std::this_thread::sleep_for( std::chrono::microseconds( 5 ) ); break;
			default: for ( uint32_t i = 0; i < ( n * 40503u >> 8 ) % 32u; ++i ) std::this_thread::yield(); break;
			}
		}
		template< typename H > VkResult make( int kind, H * out )
		{
			linger();
			auto h = next.fetch_add( 1u, std::memory_order_relaxed ) + 1u;
			if ( h >= Max ) { *out = {}; return VK_ERROR_OUT_OF_HOST_MEMORY; }
			kindOf[h].store( kind, std::memory_order_relaxed );
			alive[h].fetch_add( 1, std::memory_order_relaxed );
			*out = reinterpret_cast< H >( h );
			return VK_SUCCESS;
		}
		template< typename H > void end( H h ) { linger(); alive[uint64_t( h ) % Max].fetch_sub( 1, std::memory_order_relaxed ); }
		void reset()
		{
			next = 0u;
			for ( auto & a : alive ) a = 0;
			for ( auto & b : bound ) b = false;
			early = 0u;
		}
		bool hasMemory( VkImage h ) { return bound[uint64_t( h ) % Max].load( std::memory_order_relaxed ); }
		VKAPI_ATTR VkResult VKAPI_CALL createImage( VkDevice, VkImageCreateInfo const *, VkAllocationCallbacks const *, VkImage * o ) { return make( Image, o ); }
		VKAPI_ATTR void VKAPI_CALL destroyImage( VkDevice, VkImage h, VkAllocationCallbacks const * ) { end( h ); }
		VKAPI_ATTR VkResult VKAPI_CALL createView( VkDevice, VkImageViewCreateInfo const * ci, VkAllocationCallbacks const *, VkImageView * o )
		{
			if ( !hasMemory( ci->image ) ) early.fetch_add( 1u, std::memory_order_relaxed );
			auto r = make( View, o );
			if ( *o ) imageOf[uint64_t( *o )].store( uint64_t( ci->image ), std::memory_order_relaxed );
			return r;
		}
		VKAPI_ATTR void VKAPI_CALL destroyView( VkDevice, VkImageView h, VkAllocationCallbacks const * ) { end( h ); }
		VKAPI_ATTR VkResult VKAPI_CALL createSampler( VkDevice, VkSamplerCreateInfo const *, VkAllocationCallbacks const *, VkSampler * o ) { return make( Sampler, o ); }
		VKAPI_ATTR void VKAPI_CALL destroySampler( VkDevice, VkSampler h, VkAllocationCallbacks const * ) { end( h ); }
		VKAPI_ATTR VkResult VKAPI_CALL createBuffer( VkDevice, VkBufferCreateInfo const *, VkAllocationCallbacks const *, VkBuffer * o ) { return make( Buffer, o ); }
		VKAPI_ATTR void VKAPI_CALL destroyBuffer( VkDevice, VkBuffer h, VkAllocationCallbacks const * ) { end( h ); }
		VKAPI_ATTR VkResult VKAPI_CALL allocate( VkDevice, VkMemoryAllocateInfo const *, VkAllocationCallbacks const *, VkDeviceMemory * o ) { return make( Memory, o ); }
		VKAPI_ATTR void VKAPI_CALL freeMemory( VkDevice, VkDeviceMemory h, VkAllocationCallbacks const * ) { if ( h ) end( h ); }
		VKAPI_ATTR void VKAPI_CALL imageReq( VkDevice, VkImage, VkMemoryRequirements * r ) { linger(); *r = { 1024u, 16u, 1u }; }
		VKAPI_ATTR void VKAPI_CALL bufferReq( VkDevice, VkBuffer, VkMemoryRequirements * r ) { linger(); *r = { 1024u, 16u, 1u }; }
		VKAPI_ATTR VkResult VKAPI_CALL bindImage( VkDevice, VkImage i, VkDeviceMemory, VkDeviceSize )
		{
			linger();
			bound[uint64_t( i ) % Max].store( true, std::memory_order_relaxed );
			return VK_SUCCESS;
		}
		VKAPI_ATTR VkResult VKAPI_CALL bindBuffer( VkDevice, VkBuffer, VkDeviceMemory, VkDeviceSize ) { return VK_SUCCESS; }
		VKAPI_ATTR VkResult VKAPI_CALL map( VkDevice, VkDeviceMemory, VkDeviceSize, VkDeviceSize, VkMemoryMapFlags, void ** o )
		{
			thread_local char memory[4096];
			*o = memory;
			return VK_SUCCESS;
		}
		VKAPI_ATTR void VKAPI_CALL unmap( VkDevice, VkDeviceMemory ) {}
		VKAPI_ATTR VkResult VKAPI_CALL flush( VkDevice, uint32_t, VkMappedMemoryRange const * ) { return VK_SUCCESS; }
		PFN_vkVoidFunction VKAPI_CALL proc( VkDevice, char const * name )
		{
			std::string n{ name };
#define C23_FN( N, F ) if ( n == N ) return reinterpret_cast< PFN_vkVoidFunction >( &F )
			C23_FN( "vkCreateImage", createImage );
			C23_FN( "vkDestroyImage", destroyImage );
			C23_FN( "vkCreateImageView", createView );
			C23_FN( "vkDestroyImageView", destroyView );
			C23_FN( "vkCreateSampler", createSampler );
			C23_FN( "vkDestroySampler", destroySampler );
			C23_FN( "vkCreateBuffer", createBuffer );
			C23_FN( "vkDestroyBuffer", destroyBuffer );
			C23_FN( "vkAllocateMemory", allocate );
			C23_FN( "vkFreeMemory", freeMemory );
			C23_FN( "vkGetImageMemoryRequirements", imageReq );
			C23_FN( "vkGetBufferMemoryRequirements", bufferReq );
			C23_FN( "vkBindImageMemory", bindImage );
			C23_FN( "vkBindBufferMemory", bindBuffer );
			C23_FN( "vkMapMemory", map );
			C23_FN( "vkUnmapMemory", unmap );
			C23_FN( "vkFlushMappedMemoryRanges", flush );
#undef C23_FN
			return nullptr;
		}
	}

	enum class Op { ImageId, ViewId, Image, View, Sampler, VertexBuffer, DropSampler, DropBuffer, OwnImage, DropImage, Cache, Count };
	char const * const OpNames[]{ "image id", "view id", "image", "view", "sampler", "vertex buffer", "sampler gone", "vertex buffer gone", "image of its own", "image of its own gone", "cache", "?" };
	struct Step { Op op; uint32_t a, b; };

	struct Seen // by one thread
	{
		std::vector< crg::ImageId > ids;
		std::map< uint32_t, std::set< crg::ImageViewId > > views; // by description
		std::map< uint32_t, std::vector< std::pair< VkImage, bool > > > images;
		uint32_t early{}; // images given without memory
		std::map< uint32_t, std::vector< std::pair< VkImageView, bool > > > devViews;
		std::vector< VkSampler > samplers;
		std::vector< crg::VertexBuffer const * > buffers;
		std::vector< crg::ImageId > own; // images only this thread uses
		std::vector< crg::ImageViewId > ownViews;
	};

	void requests( pbt::Case & c )
	{
		auto & t = c.t;
		auto const nThreads = t.range( 2u, 4u );
		auto const nImages = t.range( 1u, 3u );
		auto const nViews = t.range( 1u, 5u );
		bool const oneContext = t.flag();
		bool const known = t.flag(); // the identities of the views exist before the threads do
		std::vector< std::vector< Step > > script( nThreads );
		std::map< Op, std::set< uint32_t > > who;
		for ( uint32_t i = 0u; i < nThreads; ++i )
		{
			auto n = t.count( 1u, 10u, 85u );
			for ( uint32_t k = 0u; k < n; ++k )
			{
				Step s{ Op( t.below( uint32_t( Op::Count ) ) ), t.below( 8u ), t.below( 8u ) };
				script[i].push_back( s );
				who[s.op].insert( i );
			}
		}
		auto text = pbt::fmt( "%u threads, %u images, %u views%s, %s\n", nThreads, nImages, nViews, known ? " known before" : "", oneContext ? "one context" : "a context each" );
		for ( uint32_t i = 0u; i < nThreads; ++i )
		{
			text += pbt::fmt( "thread %u:", i );
			for ( auto & s : script[i] ) text += pbt::fmt( " %s(%u,%u)", OpNames[int( s.op )], s.a, s.b );
			text += "\n";
		}
		c.sample = text;
		if ( c.verbose ) fprintf( stderr, "%s", text.c_str() );
		silence();

		uint32_t const rounds = c.again == 2 ? 600u : c.again ? 24u : 4u;
		for ( uint32_t round = 0u; round < rounds; ++round )
		{
			dev::reset();
			dev::pace = round;
			VkPhysicalDeviceMemoryProperties mem{};
			mem.memoryTypeCount = 1u;
			mem.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT | VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, 0u };
			mem.memoryHeapCount = 1u;
			auto handler = std::make_unique< crg::ResourceHandler >();
			std::vector< std::unique_ptr< crg::GraphContext > > contexts;
			for ( uint32_t i = 0u; i < ( oneContext ? 1u : nThreads ); ++i )
				contexts.push_back( std::make_unique< crg::GraphContext >( reinterpret_cast< VkDevice >( uintptr_t( 1u ) ), VkPipelineCache{}, nullptr, mem, VkPhysicalDeviceProperties{}, false, &dev::proc ) );
			auto context = [&]( uint32_t i ) -> crg::GraphContext & { return *contexts[oneContext ? 0u : i]; };
			auto imageData = []( std::string name )
			{
				return crg::ImageData{ name, 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 16u, 16u, 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, 4u, 4u };
			};
			std::vector< crg::ImageId > images;
			for ( uint32_t i = 0u; i < nImages; ++i ) images.push_back( handler->createImageId( imageData( "shared" + std::to_string( i ) ) ) );
			auto viewData = [&]( uint32_t v )
			{
				return crg::ImageViewData{ "view" + std::to_string( v ), images[v % nImages], 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, v % 4u, 1u, v / 4u, 1u } };
			};
			std::vector< crg::ImageViewId > views( nViews );
			if ( known ) for ( uint32_t v = 0u; v < nViews; ++v ) views[v] = handler->createViewId( viewData( v ) );
			std::vector< Seen > seen( nThreads );
			together( nThreads, [&]( uint32_t me )
				{
					auto & s = seen[me];
					auto image = [&]( uint32_t i )
					{
						s.images[i].push_back( handler->createImage( context( me ), images[i] ) );
						s.early += !dev::hasMemory( s.images[i].back().first );
					};
					for ( auto & step : script[me] )
					{
						auto v = step.a % nViews;
						switch ( step.op )
						{
						case Op::ImageId: s.ids.push_back( handler->createImageId( imageData( "id" ) ) ); break;
						case Op::ViewId: s.views[v].insert( handler->createViewId( viewData( v ) ) ); break;
						case Op::Image: image( step.a % nImages ); break;
						case Op::View:
							{
								auto id = known ? views[v] : handler->createViewId( viewData( v ) );
								s.views[v].insert( id );
								// as the caches do: whoever makes the image knows
								image( v % nImages );
								s.devViews[v].push_back( handler->createImageView( context( me ), id ) );
								break;
							}
						case Op::Sampler: s.samplers.push_back( handler->createSampler( context( me ), "s", crg::SamplerDesc{ step.b & 1u ? VK_FILTER_LINEAR : VK_FILTER_NEAREST } ) ); break;
						case Op::VertexBuffer: s.buffers.push_back( handler->createQuadTriVertexBuffer( context( me ), "b", step.b & 1u, crg::Texcoord{ ( step.b & 2u ) != 0u, ( step.b & 4u ) != 0u } ) ); break;
						case Op::DropSampler: if ( !s.samplers.empty() ) { handler->destroySampler( context( me ), s.samplers.back() ); s.samplers.pop_back(); } break;
						case Op::DropBuffer: if ( !s.buffers.empty() ) { handler->destroyVertexBuffer( context( me ), s.buffers.back() ); s.buffers.pop_back(); } break;
						case Op::OwnImage:
							{
								auto id = handler->createImageId( imageData( "own" ) );
								auto view = handler->createViewId( crg::ImageViewData{ "own view", id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } } );
								handler->createImage( context( me ), id );
								handler->createImageView( context( me ), view );
								s.own.push_back( id );
								s.ownViews.push_back( view );
								break;
							}
						case Op::DropImage:
							if ( !s.own.empty() )
							{
								handler->destroyImageView( context( me ), s.ownViews.back() );
								handler->destroyImage( context( me ), s.own.back() );
								s.ownViews.pop_back();
								s.own.pop_back();
							}
							break;
						case Op::Cache:
							{
								// all of it goes with the cache
								crg::ContextResourcesCache cache{ *handler, context( me ) };
								auto id = handler->createImageId( imageData( "cached" ) );
								cache.createImageView( handler->createViewId( crg::ImageViewData{ "cached view", id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 1u, 1u, 0u, 1u } } ) );
								cache.createSampler( crg::SamplerDesc{} );
								cache.createQuadTriVertexBuffer( true, crg::Texcoord{} );
								s.ids.push_back( id );
								break;
							}
						default: break;
						}
					}
				} );
			// images: an identity each
			std::set< crg::ImageId > ids( images.begin(), images.end() );
			size_t asked = ids.size();
			for ( auto & s : seen )
			{
				for ( auto & id : s.ids ) { ids.insert( id ); ++asked; }
				for ( auto & id : s.own ) { ids.insert( id ); ++asked; }
			}
			c.check( ids.size() == asked, pbt::fmt( "identities: %zu images requested, %zu identities given", asked, ids.size() ) );
			for ( auto & s : seen ) for ( auto & id : s.ids ) c.check( id.data && id.data->name.size(), "identities: an image identity without its description" );
			// views: one identity for each description
			std::set< crg::ImageViewId > all;
			for ( uint32_t v = 0u; v < nViews; ++v )
			{
				std::set< crg::ImageViewId > r;
				if ( known ) r.insert( views[v] );
				for ( auto & s : seen ) if ( auto it = s.views.find( v ); it != s.views.end() ) r.insert( it->second.begin(), it->second.end() );
				c.check( r.size() <= 1u, pbt::fmt( "identities: the description of view %u was given %zu identities", v, r.size() ) );
				for ( auto & id : r )
				{
					c.check( all.insert( id ).second, pbt::fmt( "identities: view %u shares its identity with another one", v ) );
					c.check( *id.data == viewData( v ), pbt::fmt( "identities: the identity of view %u describes something else", v ) );
				}
				if ( !r.empty() ) views[v] = *r.begin();
			}
			// one object for each identity, made by one request
			auto once = [&]( char const * what, uint32_t n, auto get )
			{
				for ( uint32_t i = 0u; i < n; ++i )
				{
					size_t made = 0u, requested = 0u;
					std::set< uint64_t > handles;
					for ( auto & s : seen )
						for ( auto & [h, created] : get( s )[i] ) { ++requested; made += created; handles.insert( uint64_t( h ) ); }
					if ( !requested ) continue;
					c.check( handles.size() == 1u && *handles.begin(), pbt::fmt( "objects: %s %u: %zu objects for %zu requests", what, i, handles.size(), requested ) );
					c.check( made == 1u, pbt::fmt( "objects: %s %u: %zu requests out of %zu were told they created it", what, i, made, requested ) );
				}
			};
			once( "image", nImages, []( Seen & s ) -> auto & { return s.images; } );
			once( "view", nViews, []( Seen & s ) -> auto & { return s.devViews; } );
			for ( auto & s : seen ) c.check( s.early == 0u, pbt::fmt( "memory: %u requests were given an image without memory", s.early ) );
			c.check( dev::early == 0u, pbt::fmt( "memory: %u views were made of an image without memory", dev::early.load() ) );
			for ( uint32_t v = 0u; v < nViews; ++v )
				for ( auto & s : seen )
					for ( auto & [h, _] : s.devViews[v] )
						c.check( dev::imageOf[uint64_t( h )] == uint64_t( s.images[v % nImages].front().first ), pbt::fmt( "objects: view %u was made of another image", v ) );
			std::set< uint64_t > samplers, buffers;
			size_t nSamplers = 0u, nBuffers = 0u;
			for ( auto & s : seen )
			{
				for ( auto & x : s.samplers ) { samplers.insert( uint64_t( x ) ); ++nSamplers; }
				for ( auto & x : s.buffers ) { buffers.insert( uint64_t( x ) ); ++nBuffers; c.check( x && x->buffer.buffer(), "objects: a vertex buffer without buffer" ); }
			}
			c.check( samplers.size() == nSamplers && buffers.size() == nBuffers, "objects: a sampler or vertex buffer was given twice" );
			// views, then the rest, by who made them
			together( nThreads, [&]( uint32_t me )
				{
					for ( auto & [v, list] : seen[me].devViews ) for ( auto & [h, created] : list ) if ( created ) handler->destroyImageView( context( me ), views[v] );
					for ( auto & id : seen[me].ownViews ) handler->destroyImageView( context( me ), id );
				} );
			together( nThreads, [&]( uint32_t me )
				{
					for ( auto & [i, list] : seen[me].images ) for ( auto & [h, created] : list ) if ( created ) handler->destroyImage( context( me ), images[i] );
					for ( auto & id : seen[me].own ) handler->destroyImage( context( me ), id );
					for ( auto & x : seen[me].samplers ) handler->destroySampler( context( me ), x );
					for ( auto & x : seen[me].buffers ) handler->destroyVertexBuffer( context( me ), x );
				} );
			for ( uint64_t h = 1u; h <= dev::next && h < dev::Max; ++h )
				c.check( dev::alive[h] == 0, pbt::fmt( "objects: object %llu of kind %d was %s", (unsigned long long)h, int( dev::kindOf[h] ), dev::alive[h] > 0 ? "not destroyed" : "destroyed more than once" ) );
			handler.reset();
			contexts.clear();
		}
		size_t shared = 0u;
		for ( auto & [op, s] : who ) if ( s.size() > 1u ) { ++shared; c.note( std::string( "several threads: " ) + OpNames[int( op )] ); }
		if ( oneContext ) c.note( "one context" );
		if ( shared >= 2u ) c.nt( text );
	}

	//---------------------------------------------------------------- graphs
	struct Outcome { std::vector< std::string > parts; std::string log; size_t cmds{}; };

	// A graph built, compiled, run, exported and destroyed.
	Outcome whole( pbt::Case & c, chk::Fam fam, std::shared_ptr< crg::ResourceHandler > handler, uint32_t who = 0u )
	{
		Outcome r;
		auto o = chk::family( c, fam );
		o.maxPasses = std::min( o.maxPasses, 5u );
		o.handler = std::move( handler );
		World w{ c, o };
		w.dev->next += who * 1000000u; // as on one device: no two objects have the same handle
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		r.log = w.describe();
		w.build( g );
		w.compile( g );
		r.parts.push_back( planned( w, g ) );
		Canon canon{ *w.dev };
		auto frames = c.t.range( 1u, 3u );
		for ( uint32_t f = 0u; f < frames; ++f )
		{
			w.setFrame( g, f );
			w.run( g );
			auto & cmds = w.commands( g );
			r.cmds += cmds.size();
			r.parts.push_back( canon.stream( cmds ) );
			r.parts.push_back( finals( w, g ) );
		}
		std::ostringstream dot;
		crg::dot::Config cfg{ c.t.flag(), false, c.t.flag(), false };
		if ( c.t.flag() ) crg::dot::displayTransitions( dot, *g.rg, cfg );
		else crg::dot::displayPasses( dot, *g.rg, cfg );
		r.parts.push_back( dot.str() );
		std::string v;
		for ( auto & x : w.dev->viols ) v += x.cat + ": " + x.msg + "\n";
		r.parts.push_back( v );
		w.dev->completeAll();
		g.rg.reset();
		g.fg.reset();
		w.graphs.clear();
		r.parts.push_back( std::to_string( w.dev->liveOwned().size() ) );
		return r;
	}

	void graphs( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto const nThreads = t.range( 2u, 4u );
		auto const nWorlds = t.range( 1u, 2u );
		std::vector< std::vector< uint32_t > > tapes;
		std::vector< Outcome > alone;
		c.sample = pbt::fmt( "%u threads\n", nThreads );
		size_t cmds = 0u;
		for ( uint32_t i = 0u; i < nWorlds; ++i )
		{
			auto start = t.pos();
			alone.push_back( whole( c, fam, nullptr ) );
			tapes.emplace_back( t.data().begin() + std::ptrdiff_t( std::min( start, t.data().size() ) ), t.data().begin() + std::ptrdiff_t( std::min( t.pos(), t.data().size() ) ) );
			c.sample += alone.back().log;
			cmds += alone.back().cmds;
		}
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		for ( uint32_t round = 0u; round < ( c.again == 2 ? 100u : c.again ? 10u : 1u ); ++round )
		{
		auto handler = std::make_shared< crg::ResourceHandler >();
		std::vector< Outcome > got( nThreads );
		together( nThreads, [&]( uint32_t me )
			{
				pbt::Tape t2{ tapes[me % nWorlds] };
				pbt::Case c2{ t2, false };
				c2.thorough = c.thorough;
				got[me] = whole( c2, fam, handler, me + 1u );
			} );
		for ( uint32_t i = 0u; i < nThreads; ++i )
		{
			auto & a = alone[i % nWorlds].parts;
			auto & b = got[i].parts;
			c.check( a.size() == b.size(), "graphs: not as many frames as alone" );
			for ( size_t k = 0u; k < a.size(); ++k )
				c.check( a[k] == b[k], pbt::fmt( "graphs: thread %u does not do what it does alone, %s", i, firstDiff( a[k], b[k] ).c_str() ) );
		}
		}
		c.note( pbt::fmt( "%u threads", nThreads ) );
		if ( cmds >= 10u ) c.nt( c.sample );
	}
}
PBT_CHECK( "C23", "requests", 3000, 60000, "at least 2 kinds of requests made by several threads" ) { requests( c ); }
PBT_CHECK( "C23", "graphs", 5000, 100000, "at least 10 commands recorded" ) { graphs( c, c.t.flag() ? chk::Fam::Any : chk::Fam::Renders ); }
