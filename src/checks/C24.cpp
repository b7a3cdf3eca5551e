// C24: debug names, labels and reports of what was created, destroyed and leaked.
#include "frames.hpp"
#include <RenderGraph/Exception.hpp>
#include <sys/mman.h>
#include <unistd.h>
#include <regex>
using namespace gg;

namespace
{
	// What the library logs while it lives.
	struct Log
	{
		std::vector< std::string > trace, errors;
		Log()
		{
			silence();
			crg::Logger::setTraceCallback( [this]( std::string const & m, bool ){ if ( onTrace ) onTrace( m ); trace.push_back( m ); } );
			crg::Logger::setErrorCallback( [this]( std::string const & m, bool ){ errors.push_back( m ); } );
		}
		~Log()
		{
			auto none = []( std::string const &, bool ){};
			crg::Logger::setTraceCallback( none );
			crg::Logger::setErrorCallback( none );
		}
		std::function< void( std::string const & ) > onTrace;
	};

	// What is written to the standard error output meanwhile.
	template< typename F >
	std::string errOutput( F f )
	{
		fflush( stderr );
		int saved = dup( 2 ), fd = memfd_create( "c24", 0 );
		if ( saved < 0 || fd < 0 ) throw std::runtime_error( "memfd" );
		dup2( fd, 2 );
		f();
		fflush( stderr );
		dup2( saved, 2 );
		close( saved );
		std::string r( size_t( lseek( fd, 0, SEEK_END ) ), '\0' );
		lseek( fd, 0, SEEK_SET );
		if ( read( fd, r.data(), r.size() ) != ssize_t( r.size() ) ) throw std::runtime_error( "memfd read" );
		close( fd );
		return r;
	}

	struct Said { bool created; bool known; std::string type; uint64_t handle; std::string name; };
	// "Created VkFence [0x0000002a] - name"
	bool parse( std::string const & m, Said & s )
	{
		s.created = m.rfind( "Created ", 0u ) == 0u;
		if ( !s.created && m.rfind( "Destroyed ", 0u ) != 0u ) return false;
		auto from = s.created ? 8u : 10u;
		auto a = m.find( " [0x", from ), b = m.find( "] - ", from );
		if ( a == std::string::npos || b == std::string::npos ) return false;
		s.type = m.substr( from, a - from );
		s.known = s.type != "Unknown";
		s.handle = std::stoull( m.substr( a + 4u, b - a - 4u ), nullptr, 16 );
		s.name = m.substr( b + 4u );
		return true;
	}

	size_t times( std::string const & where, std::string const & what )
	{
		size_t r = 0u;
		for ( auto p = where.find( what ); p != std::string::npos; p = where.find( what, p + 1u ) ) ++r;
		return r;
	}

	char const * typeName( sim::Ty t )
	{
		switch ( t )
		{
		case sim::Ty::Image: return "VkImage"; case sim::Ty::View: return "VkImageView"; case sim::Ty::Buffer: return "VkBuffer"; case sim::Ty::BufferView: return "VkBufferView";
		case sim::Ty::Memory: return "VkDeviceMemory"; case sim::Ty::Sampler: return "VkSampler"; case sim::Ty::RenderPass: return "VkRenderPass"; case sim::Ty::Framebuffer: return "VkFramebuffer";
		case sim::Ty::Pipeline: return "VkPipeline"; case sim::Ty::PipelineLayout: return "VkPipelineLayout"; case sim::Ty::SetLayout: return "VkDescriptorSetLayout"; case sim::Ty::DescPool: return "VkDescriptorPool";
		case sim::Ty::DescSet: return "VkDescriptorSet"; case sim::Ty::CmdPool: return "VkCommandPool"; case sim::Ty::CmdBuf: return "VkCommandBuffer"; case sim::Ty::Semaphore: return "VkSemaphore";
		case sim::Ty::Fence: return "VkFence"; case sim::Ty::QueryPool: return "VkQueryPool"; case sim::Ty::Event: return "VkEvent"; case sim::Ty::Shader: return "VkShaderModule";
		default: return "?";
		}
	}

	// What the trace log tells, against what lives on the device.
	struct Follower
	{
		std::map< uint64_t, std::pair< std::string, std::string > > registered;
		std::string wrong;
		sim::Device & dev;
		Follower( Log & log, sim::Device & d )
			: dev{ d }
		{
			log.onTrace = [this]( std::string const & m )
			{
				Said s;
				if ( !parse( m, s ) || !wrong.empty() ) return;
				if ( s.created )
				{
					auto it = dev.objs.find( s.handle );
					if ( it == dev.objs.end() || !it->second->alive ) wrong = "created: not an object of the device: " + m;
					else if ( s.type != typeName( it->second->ty ) ) wrong = "created: told of another type than " + dev.show( s.handle ) + ": " + m;
					else if ( s.name.empty() ) wrong = "created: without a name: " + m;
					else if ( !registered.emplace( s.handle, std::make_pair( s.type, s.name ) ).second ) wrong = "created: told twice: " + m;
				}
				else
				{
					auto it = registered.find( s.handle );
					if ( it == registered.end() ) wrong = "destroyed: was never told to be created, or destroyed twice: " + m;
					else if ( it->second != std::make_pair( s.type, s.name ) ) wrong = "destroyed: " + m + ", created as " + it->second.first + " " + it->second.second;
					else registered.erase( it );
				}
			};
		}
		// All that lives has a name.
		void names( pbt::Case & c, uint32_t ext )
		{
			c.check( wrong.empty(), wrong );
			for ( auto & [h, ob] : dev.objs )
			{
				// What the harness, or the user, makes is theirs to name.
				if ( ob->external || !ob->alive || ob->ty == sim::Ty::Device || ob->ty == sim::Ty::Queue || ob->ty == sim::Ty::Cache ) continue;
				c.check( ob->named == ext, pbt::fmt( "unnamed: %s (named through %u of %u)", dev.show( h ).c_str(), ob->named, ext ) );
			}
		}
	};

	void frames( pbt::Case & c, chk::Fam fam )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.debugExt = t.pick( { 1u, 2u, 3u } );
		o.resettable = true;
		if ( fam != chk::Fam::Long ) o.frames = 2u;
		o.graphs = t.chance( 20 ) ? 2u : 1u;
		Log log;
		auto w = std::make_unique< World >( c, o );
		auto dev = w->dev.get();
		Follower told{ log, *dev };
		auto & wrong = told.wrong;
		auto & registered = told.registered;
		w->genImages();
		w->genBuffers();
		for ( uint32_t i = 0u; i < o.graphs; ++i ) w->genGraph( "G" + std::to_string( i ) );
		c.sample = w->describe();
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		for ( auto & g : w->graphs ) { w->build( *g ); w->compile( *g ); }
		chk::noteKinds( c, *w );
		c.note( o.debugExt == 1u ? "debug utils" : o.debugExt == 2u ? "debug marker" : "both extensions" );
		auto names = [&](){ told.names( c, o.debugExt ); };
		names();
		size_t labels = 0u, frames = 0u;
		for ( uint32_t f = 0u; f < o.frames; ++f )
			for ( auto & gp : w->graphs )
			{
				auto & g = *gp;
				w->setFrame( g, f );
				dev->labels.clear();
				w->run( g );
				++frames;
				chk::trace( c, *w, g, f );
				auto & cmds = w->commands( g );
				int depth = 0;
				std::vector< std::string > seen, marks;
				std::map< std::string, crg::FramePass const * > byLabel;
				std::map< crg::FramePass const *, size_t > count;
				for ( auto & p : g.passes ) byLabel[pbt::fmt( "[%u] ", p->fp->id ) + p->fp->getGroupName()] = p->fp;
				crg::FramePass const * open = nullptr;
				for ( auto & cmd : cmds )
				{
					if ( cmd.k == sim::CK::BeginLabel )
					{
						c.check( ++depth == 1, "label: begins inside another one: " + cmd.s );
						auto it = byLabel.find( cmd.s );
						c.check( it != byLabel.end(), "label: no pass is called " + cmd.s );
						open = it->second;
						++count[open];
						seen.push_back( cmd.s );
						++labels;
					}
					else if ( cmd.k == sim::CK::EndLabel )
					{
						c.check( --depth == 0, "label: ends where none is open" );
						open = nullptr;
					}
					else if ( cmd.k == sim::CK::Mark )
					{
						auto at = cmd.s.find( ':' );
						auto prefix = g.name + "/";
						if ( cmd.s.rfind( "impl:", 0u ) == 0u ) continue; // run by whoever uses the view
						if ( at == std::string::npos || cmd.s.compare( at + 1u, prefix.size(), prefix ) != 0 ) continue;
						auto & p = *g.passes[std::stoul( cmd.s.substr( at + 1u + prefix.size() ) )];
						c.check( open == p.fp, "label: commands of p" + std::to_string( p.id ) + " stand " + ( open ? "under the label of " + open->getName() : "under no label" ) );
					}
					else if ( cmd.k == sim::CK::Draw || cmd.k == sim::CK::DrawIndexed || cmd.k == sim::CK::Dispatch || cmd.k == sim::CK::BeginRP || cmd.k == sim::CK::CopyImg || cmd.k == sim::CK::CopyBuffer || cmd.k == sim::CK::Blit )
						c.check( open != nullptr, "label: " + sim::dump( cmd ) + " stands under no label" );
				}
				c.check( depth == 0, "label: one stays open" );
				for ( auto & p : g.passes ) c.check( count[p->fp] == ( p->enabled ? 1u : 0u ), pbt::fmt( "label: p%u has %zu, enabled %d", p->id, count[p->fp], int( p->enabled ) ) );
				if ( o.debugExt == 3u )
				{
					std::vector< std::string > want;
					for ( auto & s : seen ) { want.push_back( "begin " + s ); want.push_back( "end" ); }
					c.check( dev->labels == want, "label: the two extensions do not show the same labels" );
				}
				if ( t.chance( 15 ) )
				{
					auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
					if ( p.rp && p.resettable && ( p.kind == PK::Quad || p.kind == PK::Mesh ) )
					{
						auto r = p.rp;
						if ( auto q = dynamic_cast< crg::RenderQuad * >( r ) ) q->resetPipeline( p.programs[0], t.below( p.maxPassCount ) );
						else if ( auto m = dynamic_cast< crg::RenderMesh * >( r ) ) m->resetPipeline( p.programs[0], t.below( p.maxPassCount ) );
						c.note( "pipelines reset" );
					}
				}
				names();
			}
		// What nobody destroys is what is reported as leaked.
		std::multiset< std::string > leaks, handlerLeaks;
		auto leak = t.below( 4u );
		crg::ImageId id;
		if ( leak )
		{
			auto & handler = *w->handler;
			for ( uint32_t k = t.range( 1u, 3u ); k > 0u; --k )
			{
				auto name = pbt::fmt( "leaked%u", k );
				id = handler.createImageId( crg::ImageData{ name + "i", 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8u, 8u, 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, 1u, 1u } );
				auto view = handler.createViewId( crg::ImageViewData{ name + "v", id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } } );
				handler.createImage( *w->ctx, id );
				bool viewToo = t.flag();
				if ( viewToo ) handler.createImageView( *w->ctx, view );
				switch ( t.below( 3u ) )
				{
				case 0u: // all of it
					handlerLeaks.insert( "VkImage](" + name + "i)" );
					if ( viewToo ) handlerLeaks.insert( "VkImageView](" + name + "v)" );
					break;
				case 1u: // not the view
					if ( viewToo ) handler.destroyImageView( *w->ctx, view );
					handlerLeaks.insert( "VkImage](" + name + "i)" );
					break;
				default: // nothing
					if ( viewToo ) handler.destroyImageView( *w->ctx, view );
					handler.destroyImage( *w->ctx, id );
					break;
				}
			}
			if ( t.flag() )
			{
				// Never asked for by the graphs.
				crg::SamplerDesc desc;
				desc.minLod = 12345.0f;
				auto s = handler.createSampler( *w->ctx, "leaked", desc );
				if ( t.flag() ) { handlerLeaks.insert( "VkSampler](" + dev->find( sim::u( s ), sim::Ty::Sampler )->name + ")" ); leaks.insert( "VkSampler](" + dev->find( sim::u( s ), sim::Ty::Sampler )->name + ")" ); }
				else handler.destroySampler( *w->ctx, s );
			}
		}
		names();
		if ( !handlerLeaks.empty() ) c.note( "leaks" );
		// Timers, fences and resources of the user's own.
		if ( t.chance( 40 ) )
		{
			c.note( "own timer, fence or resources" );
			std::unique_ptr< crg::FramePassTimer > timer;
			std::unique_ptr< crg::Fence > fence;
			if ( t.flag() ) timer = std::make_unique< crg::FramePassTimer >( *w->ctx, "ownTimer", t.flag() ? crg::TimerScope::ePass : crg::TimerScope::eUpdate );
			if ( t.flag() ) fence = std::make_unique< crg::Fence >( *w->ctx, "ownFence", VkFenceCreateInfo{ VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, 0u } );
			if ( t.flag() )
			{
				crg::ContextResourcesCache cache{ *w->handler, *w->ctx };
				auto oid = w->handler->createImageId( crg::ImageData{ "ownI", 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8u, 8u, 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, 1u, 1u } );
				auto ov = w->handler->createViewId( crg::ImageViewData{ "ownV", oid, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } } );
				crg::SamplerDesc desc;
				desc.minLod = 4321.0f;
				if ( t.flag() ) { cache.createImage( oid ); cache.createImageView( ov ); }
				if ( t.flag() ) { cache.createSampler( desc ); }
				if ( t.flag() ) { cache.createQuadTriVertexBuffer( t.flag(), {} ); }
				names();
				if ( t.flag() ) { cache.destroyImageView( ov ); cache.destroyImage( oid ); }
			}
			names();
		}
		// User's own objects, told to the context
		std::map< std::string, std::string > own;
		for ( uint32_t k = t.below( 4u ); k > 0u; --k )
		{
			auto buf = dev->makeBuffer( 16u, "own" );
			auto nm = pbt::fmt( "own%u", k );
			auto stack = pbt::fmt( "frame%u.", k );
			bool st = t.flag();
			w->ctx->setCallstackCallback( st ? std::function< std::string() >( [stack](){ return stack; } ) : std::function< std::string() >() );
			crg::GraphContext::stRegisterObject( *w->ctx, nm, buf );
			if ( t.flag() ) crg::GraphContext::stUnregisterObject( *w->ctx, buf );
			else { leaks.insert( "VkBuffer](" + nm + ")" ); own[nm] = st ? stack : ""; }
		}
		w->ctx->setCallstackCallback( {} );
		c.check( wrong.empty(), wrong );
		w->require( { "naming" } );
		w->graphs.clear();
		log.errors.clear();
		w->o.handler.reset();
		w->handler.reset();
		std::multiset< std::string > said;
		for ( auto & e : log.errors )
		{
			auto at = e.find( "Leaked [" );
			if ( at != std::string::npos ) said.insert( e.substr( at + 8u, e.find( ')', at ) - at - 7u ) );
		}
		c.check( said == handlerLeaks, "leak: the handler tells of " + ( said.empty() ? "nothing" : *said.begin() ) + pbt::fmt( " (%zu reports, %zu leaks)", said.size(), handlerLeaks.size() ) );
		auto err = errOutput( [&](){ w->ctx.reset(); } );
		c.check( wrong.empty(), wrong );
		c.check( times( err, "Leaked [" ) == leaks.size(), pbt::fmt( "leak: the context tells of %zu leaks, there are %zu: ", times( err, "Leaked [" ), leaks.size() ) + err.substr( 0u, 300u ) );
		for ( auto & l : leaks ) c.check( times( err, l ) == 1u, "leak: not told by the context: " + l );
		for ( auto & [n, st] : own ) if ( !st.empty() ) c.check( times( err, st ) == 1u, "leak: no call stack of " + n );
		c.check( registered.size() == leaks.size(), pbt::fmt( "destroyed: %zu objects were created and not told to be destroyed, %zu leak", registered.size(), leaks.size() ) );
		if ( labels && dev->objs.size() > 10u ) c.nt( c.sample );
	}
}

PBT_CHECK( "C24", "faults", 18000, 300000, "a failing call" )
{
	auto & t = c.t;
	auto o = chk::family( c, t.flag() ? chk::Fam::Any : chk::Fam::Renders );
	o.debugExt = t.pick( { 1u, 2u, 3u } );
	o.maxPasses = std::min( o.maxPasses, 5u );
	o.resettable = true;
	Log log;
	auto w = std::make_unique< World >( c, o );
	auto dev = w->dev.get();
	Follower told{ log, *dev };
	w->genImages();
	w->genBuffers();
	auto & g = w->genGraph( "G" );
	w->build( g );
	c.sample = w->describe();
	dev->lazy = t.flag();
	bool failed = false;
	auto step = [&]( std::string const & what, uint32_t calls, auto f )
	{
		for ( uint32_t tries = 0u; ; ++tries )
		{
			bool fails = tries < 2u && t.chance( tries ? 30 : 60 );
			dev->faultAt = fails ? int64_t( dev->faultable + t.below( calls ) ) : int64_t( -1 );
			dev->faultCode = t.pick( { VK_ERROR_OUT_OF_DEVICE_MEMORY, VK_ERROR_OUT_OF_HOST_MEMORY, VK_ERROR_TOO_MANY_OBJECTS } );
			bool done = true;
			try { f(); }
			catch ( crg::Exception & ) { done = false; }
			dev->faultAt = -1;
			if ( !done )
			{
				if ( dev->faulted.empty() ) c.discard();
				failed = true;
				c.note( what + " fails: " + dev->faulted );
				c.sample += what + " fails: " + dev->faulted + "\n";
				dev->completeAll();
			}
			dev->faulted.clear();
			told.names( c, o.debugExt );
			if ( done ) return true;
			if ( t.chance( 30 ) ) return false;
		}
	};
	if ( step( "compiling", 60u, [&](){ w->compile( g ); } ) )
		for ( uint32_t f = 0u; f < 2u; ++f )
		{
			w->setFrame( g, f );
			if ( !step( "running", 12u, [&](){ w->provideExternals( g ); g.rg->run( sim::queueHandle() ); } ) ) break;
			for ( auto & p : g.passes )
				if ( ( p->kind == PK::Quad || p->kind == PK::Mesh ) && t.chance( 30 ) )
				{
					dev->completeAll();
					if ( auto q = dynamic_cast< crg::RenderQuad * >( p->rp ) ) q->resetPipeline( {}, p->index );
					else if ( auto m = dynamic_cast< crg::RenderMesh * >( p->rp ) ) m->resetPipeline( {}, p->index );
				}
		}
	dev->completeAll();
	w->require( { "naming" } );
	log.errors.clear();
	w->graphs.clear();
	w->o.handler.reset();
	w->handler.reset();
	c.check( told.wrong.empty(), told.wrong );
	for ( auto & e : log.errors ) c.check( e.find( "Leaked [" ) == std::string::npos, "leak: the handler tells of one after a failure: " + e );
	auto err = errOutput( [&](){ w->ctx.reset(); } );
	c.check( told.wrong.empty(), told.wrong );
	c.check( times( err, "Leaked [" ) == 0u, "leak: the context tells of one after a failure: " + err.substr( 0u, 300u ) );
	c.check( told.registered.empty(), pbt::fmt( "destroyed: %zu objects were created and not told to be destroyed, the first is ", told.registered.size() ) + ( told.registered.empty() ? "" : told.registered.begin()->second.second ) );
	if ( failed ) c.nt( c.sample );
}
PBT_CHECK( "C24", "frames", 12000, 300000, "at least one labelled pass" ) { frames( c, chk::Fam::Any ); }
PBT_CHECK( "C24", "renders", 9000, 200000, "at least one labelled pass" ) { frames( c, chk::Fam::Renders ); }
PBT_CHECK( "C24", "long", 5000, 100000, "at least one labelled pass" ) { frames( c, chk::Fam::Long ); }
