// C16: disabled passes leave no trace except their registered substitutes.
#include "direct.hpp"
using namespace gg;

namespace
{
	using sim::CK;

	bool isOwn( sim::Cmd const & x )
	{
		switch ( x.k )
		{
		case CK::Use: case CK::Dispatch: case CK::DispatchIndirect: case CK::Draw: case CK::DrawIndexed: case CK::DrawIndirect: case CK::DrawIndexedIndirect:
		case CK::BeginRP: case CK::EndRP: case CK::Blit: case CK::CopyBuffer: case CK::CopyBufImg: case CK::CopyImg: case CK::CopyImgBuf: case CK::BindPipeline: case CK::BindSets: case CK::BindVB: case CK::BindIB:
			return true;
		default: return false;
		}
	}
	bool isPrep( sim::Cmd const & x ) { return x.k == CK::Barrier || x.k == CK::ClearColor || x.k == CK::ClearDS || x.k == CK::Fill; }

	// A change of what is enabled, by something a pass runs while it is recorded.
	struct Flip { uint32_t pass; std::string what; uint32_t n; uint32_t target; bool value; };

	void substitutes( pbt::Case & c, chk::Fam fam, bool flipping = false )
	{
		auto & t = c.t;
		auto o = chk::family( c, fam );
		o.resettable = true;
		o.implicitActions = true;
		if ( fam != chk::Fam::Long ) o.frames = 4u;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		// more substitutes, for views that passes use
		for ( auto & p : g.passes )
		{
			if ( !t.chance( 50 ) ) continue;
			for ( auto k = t.range( 1u, 2u ); k > 0u; --k )
			{
				auto & q = *g.passes[t.below( uint32_t( g.passes.size() ) )];
				if ( q.images.empty() ) continue;
				auto & a = q.images[t.below( uint32_t( q.images.size() ) )];
				auto v = a.views[t.below( uint32_t( a.views.size() ) )];
				if ( std::any_of( p->impl.begin(), p->impl.end(), [&]( Pass::Impl const & x ){ return w.views[size_t( x.view )].id == w.views[size_t( v )].id; } ) ) continue;
				p->impl.push_back( { v, false, VK_IMAGE_LAYOUT_UNDEFINED } );
			}
			p->pre = t.below( 4u );
			p->post = t.below( 4u );
		}
		auto desc = w.describe();
		std::vector< Flip > flips;
		if ( flipping )
			for ( auto k = t.range( 1u, 4u ); k > 0u; --k )
			{
				auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
				auto what = t.below( 3u );
				if ( ( what == 0u && !p.pre ) || ( what == 2u && !p.post ) ) what = 1u;
				Flip f{ p.id, what == 0u ? "pre" : what == 1u ? "pass" : "post", what == 0u ? t.below( p.pre ) : what == 2u ? t.below( p.post ) : 0u, p.id, t.chance( 25 ) };
				if ( !t.chance( 60 ) ) f.target = t.below( uint32_t( g.passes.size() ) );
				flips.push_back( f );
				desc += pbt::fmt( "p%u %s %u %s p%u\n", f.pass, f.what.c_str(), f.n, f.value ? "enables" : "disables", f.target );
			}
		bool flipNow = true;
		auto flip = [&]( uint32_t pass, std::string const & what, uint32_t n, auto set ) { for ( auto & f : flips ) if ( f.pass == pass && f.what == what && f.n == n ) set( f.target, f.value ); };
		if ( flipping )
			w.onMark = [&]( Pass & p, char const * what, uint32_t n ) { if ( flipNow ) flip( p.id, what, n, [&]( uint32_t i, bool v ){ g.passes[i]->enabled = v; } ); };
		if ( c.verbose ) fprintf( stderr, "%s", desc.c_str() );
		c.sample = desc;
		if ( flipping ) for ( auto & p : g.passes ) p->byDefault = false;
		w.build( g );
		struct Frame { std::vector< sim::Cmd > cmds; std::vector< bool > enabled; std::vector< uint32_t > index; };
		std::vector< Frame > frames;
		std::map< Pass const *, std::set< uint32_t > > expectInits;
		auto now = [&]( bool compile )
		{
			if ( flipping && !compile ) return;
			for ( auto & p : g.passes )
			{
				if ( p->enabled ) expectInits[p.get()].insert( p->index );
				std::set< uint32_t > got( p->inits.begin(), p->inits.end() );
				for ( auto i : got ) c.check( expectInits[p.get()].count( i ) != 0u, pbt::fmt( "init: p%u initialised for index %u, though it was never enabled with it\n", p->id, i ) + desc );
				c.check( p->kind != PK::Generic || got.size() == p->inits.size(), pbt::fmt( "init: p%u initialised more than once for an index\n", p->id ) + desc );
				if ( p->kind == PK::Generic )
					for ( auto i : expectInits[p.get()] )
						c.check( got.count( i ) != 0u, pbt::fmt( "init: p%u not initialised for index %u%s\n", p->id, i, compile ? " by the compilation" : "" ) + desc );
			}
		};
		w.compile( g );
		now( true );
		bool toggled = false;
		for ( uint32_t f = 0u; f <= o.frames; ++f )
		{
			if ( f < o.frames ) w.setFrame( g, f );
			else for ( auto & p : g.passes ) { p->enabled = true; } // tells the order of all the passes
			if ( f == o.frames && !flipping )
			{
				// a pass never enabled so far has made nothing
				for ( auto & p : g.passes )
				{
					if ( !expectInits[p.get()].empty() ) continue;
					auto name = p->fp->getGroupName();
					for ( auto & [h, ob] : w.dev->objs )
						if ( !ob->external && ( ob->ty == sim::Ty::Pipeline || ob->ty == sim::Ty::DescSet || ob->ty == sim::Ty::DescPool || ob->ty == sim::Ty::RenderPass || ob->ty == sim::Ty::Framebuffer )
							&& ( ob->name == name || ob->name.rfind( name + "[", 0u ) == 0u ) )
							c.fail( pbt::fmt( "init: p%u, never enabled, made ", p->id ) + w.dev->show( h ) + "\n" + desc );
				}
			}
			Frame fr;
			for ( auto & p : g.passes ) { fr.enabled.push_back( p->enabled ); fr.index.push_back( p->index ); toggled = toggled || !p->enabled; }
			flipNow = f < o.frames;
			w.run( g );
			chk::trace( c, w, g, f );
			now( false );
			fr.cmds = w.commands( g );
			frames.push_back( std::move( fr ) );
		}
		// order of all passes
		std::vector< Pass * > order;
		for ( auto & s : chk::spans( w, g ) ) order.push_back( s.p );
		c.check( order.size() == g.passes.size(), pbt::fmt( "pass: %zu recorded of %zu enabled\n", order.size(), g.passes.size() ) + desc );
		size_t ran = 0u, dropped = 0u, several = 0u, changed = 0u;
		for ( size_t f = 0u; f < frames.size(); ++f )
		{
			auto & fr = frames[f];
			auto where = pbt::fmt( " in frame %zu\n", f ) + desc;
			// expected substitutes
			struct Reg { Pass * p; int view; };
			std::vector< Reg > regs;
			std::map< Pass *, std::vector< Reg > > expect;
			std::vector< Pass * > want;
			for ( auto p : order )
			{
				bool runs = fr.enabled[p->id];
				if ( runs )
				{
					want.push_back( p );
					std::vector< std::pair< int, int > > used; // (position, view): the attachments in their order
					std::set< void const * > seen;
					for ( auto & a : p->images )
					{
						auto v = a.view( fr.index[p->id] );
						auto id = w.views[size_t( v )].id;
						size_t n = 0u;
						for ( auto it = regs.begin(); it != regs.end(); )
						{
							if ( !( w.views[size_t( it->view )].id == id ) ) { ++it; continue; }
							++n;
							if ( !fr.enabled[it->p->id] ) { expect[p].push_back( *it ); ++ran; }
							else ++dropped;
							it = regs.erase( it );
						}
						if ( n > 1u ) ++several;
					}
				}
				for ( auto & im : p->impl ) regs.push_back( { p, im.view } );
				if ( runs && f + 1u < frames.size() )
				{
					auto set = [&]( uint32_t i, bool v ){ if ( fr.enabled[i] != v ) { ++changed; fr.enabled[i] = v; } };
					bool copies = p->kind >= PK::ImageCopy;
					if ( copies ) flip( p->id, "pass", 0u, set );
					for ( uint32_t n = 0u; n < p->pre; ++n ) flip( p->id, "pre", n, set );
					if ( !copies ) flip( p->id, "pass", 0u, set );
					for ( uint32_t n = 0u; n < p->post; ++n ) flip( p->id, "post", n, set );
				}
			}
			// what was recorded
			size_t k = 0u;
			Pass * current = nullptr;
			std::set< size_t > inSpan;
			for ( size_t i = 0u; i < fr.cmds.size(); ++i )
			{
				if ( fr.cmds[i].k != CK::BeginLabel ) continue;
				size_t j = i;
				while ( j < fr.cmds.size() && fr.cmds[j].k != CK::EndLabel ) ++j;
				c.check( k < want.size(), "pass: something recorded beyond the enabled passes" + where );
				current = want[k++];
				auto index = int64_t( fr.index[current->id] );
				bool copies = current->kind >= PK::ImageCopy;
				uint32_t pre = 0u, post = 0u, own = 0u, passMarks = 0u;
				bool ownCmd = false, lateBarrier = false;
				std::vector< std::pair< std::string, int64_t > > impl;
				for ( size_t x = i; x <= j && x < fr.cmds.size(); ++x )
				{
					auto & cmd = fr.cmds[x];
					inSpan.insert( x );
					auto self = pbt::fmt( "p%u", current->id ) + where;
					if ( cmd.k == CK::Mark )
					{
						auto what = cmd.s.substr( 0u, cmd.s.find( ':' ) );
						bool mine = cmd.s == w.mark( *current, what.c_str() );
						if ( what == "impl" )
						{
							c.check( pre == 0u && !passMarks && !ownCmd, "substitute: runs after the pre-actions or commands of " + self );
							c.check( cmd.a[0] == index, "substitute: given another pass index for " + self );
							impl.emplace_back( cmd.s, cmd.a[1] );
							continue;
						}
						c.check( mine, "order: " + cmd.s + " in the middle of " + self );
						c.check( cmd.a.empty() || cmd.a[0] == index, pbt::fmt( "index: %s given index %lld for ", cmd.s.c_str(), ( long long )( cmd.a.empty() ? -1 : cmd.a[0] ) ) + self );
						if ( what == "pre" )
						{
							c.check( cmd.a[1] == int64_t( pre ), pbt::fmt( "order: pre-action %lld out of order for ", ( long long )cmd.a[1] ) + self );
							c.check( ( copies || ( !passMarks && !ownCmd ) ) && own == 0u && post == 0u, "order: a pre-action after commands of " + self );
							++pre;
						}
						else if ( what == "post" )
						{
							c.check( cmd.a[1] == int64_t( post ), pbt::fmt( "order: post-action %lld out of order for ", ( long long )cmd.a[1] ) + self );
							c.check( passMarks == 1u, "order: a post-action before the commands of " + self );
							++post;
						}
						else if ( what == "pass" ) ++passMarks;
					}
					else if ( isOwn( cmd ) )
					{
						ownCmd = true;
						if ( copies && cmd.k != CK::Use ) ++own;
						c.check( post == 0u, "order: " + sim::dump( cmd ) + " after the post-actions of " + self );
						if ( !copies || cmd.k != CK::Use ) c.check( pre == current->pre, "order: " + sim::dump( cmd ) + " before the pre-actions of " + self );
					}
					else if ( isPrep( cmd ) && !copies )
					{
						lateBarrier = lateBarrier || pre > 0u || ownCmd || passMarks;
						c.check( !lateBarrier, "order: transitions after the pre-actions or commands of " + self );
					}
				}
				auto self = pbt::fmt( "p%u", current->id ) + where;
				c.check( passMarks == 1u, pbt::fmt( "pass: records its commands %u times: ", passMarks ) + self );
				c.check( pre == current->pre && post == current->post, pbt::fmt( "order: %u of %u pre-actions and %u of %u post-actions run for ", pre, current->pre, post, current->post ) + self );
				std::vector< std::pair< std::string, int64_t > > ex;
				for ( auto & r : expect[current] ) ex.emplace_back( w.mark( *r.p, "impl" ), r.view );
				auto str = [&]( std::vector< std::pair< std::string, int64_t > > const & l ) { std::string s; for ( auto & [m, v] : l ) s += m + "(" + w.showView( int( v ) ) + ") "; return s.empty() ? std::string( "none " ) : s; };
				// The order of the views of a pass is its own business.
				auto byView = [&]( std::pair< std::string, int64_t > const & l, std::pair< std::string, int64_t > const & r ) { return w.views[size_t( l.second )].id.data < w.views[size_t( r.second )].id.data; };
				std::stable_sort( impl.begin(), impl.end(), byView );
				std::stable_sort( ex.begin(), ex.end(), byView );
				c.check( impl == ex, "substitute: " + str( impl ) + "run for " + self + "expected " + str( ex ) );
				i = j;
			}
			c.check( k == want.size(), pbt::fmt( "pass: %zu recorded of %zu enabled", k, want.size() ) + where );
			for ( size_t x = 0u; x < fr.cmds.size(); ++x )
				if ( !inSpan.count( x ) && ( isOwn( fr.cmds[x] ) || isPrep( fr.cmds[x] ) || fr.cmds[x].k == CK::Mark ) )
					c.fail( "trace: " + sim::dump( fr.cmds[x] ) + " recorded by no enabled pass" + where );
		}
		chk::noteKinds( c, w );
		if ( ran ) c.note( "substitutes run" );
		if ( dropped ) c.note( "substitutes dropped" );
		if ( several ) c.note( "several substitutes for a view" );
		if ( changed ) c.note( "enabled or disabled while recording" );
		if ( flipping ? changed != 0u : toggled && ran ) c.nt( desc );
	}
}

PBT_CHECK( "C16", "frames", 5000, 60000, "some pass is disabled and a substitute runs" ) { substitutes( c, chk::Fam::Any ); }
PBT_CHECK( "C16", "dense", 5000, 60000, "some pass is disabled and a substitute runs" ) { substitutes( c, chk::Fam::Dense ); }
PBT_CHECK( "C16", "long", 3000, 40000, "some pass is disabled and a substitute runs" ) { substitutes( c, chk::Fam::Long ); }
PBT_CHECK( "C16", "renders", 3000, 40000, "some pass is disabled and a substitute runs" ) { substitutes( c, chk::Fam::Renders ); }
PBT_CHECK( "C16", "flips", 5000, 60000, "some pass is enabled or disabled by what a pass runs during the recording" ) { substitutes( c, chk::Fam::Any, true ); }

// A ready-made copy in the place of a disabled pass reads a view another disabled pass would have written.
PBT_CHECK( "C16", "chained", 40000, 300000, "the source's pass and the copy's pass are both disabled in a frame" )
{
	auto & t = c.t;
	World w{ c, Opts{} };
	auto fmt = VK_FORMAT_R8G8B8A8_UNORM;
	auto usage = VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT;
	auto make = [&]( char const * name )
	{
		uint32_t mips = t.count( 1u, 3u, 50 ), m = t.below( mips );
		auto id = chk::image( w, name, fmt, usage, mips, 1u, { 16u, 16u, 1u } );
		return chk::view( w, std::string( name ) + "v", id, { VK_IMAGE_ASPECT_COLOR_BIT, m, 1u, 0u, 1u }, VK_IMAGE_VIEW_TYPE_2D );
	};
	crg::FrameGraph fg{ *w.handler, "G" };
	auto links = t.range( 1u, 3u ); // copies in a row: v0 -> v1 -> ...
	std::vector< crg::ImageViewId > views;
	for ( uint32_t i = 0u; i <= links; ++i ) views.push_back( make( ( "i" + std::to_string( i ) ).c_str() ) );
	bool blit = t.flag();
	bool late = t.flag(); // the first view is read at the end, too
	std::vector< char > on( links + 1u, 1 );
	std::vector< uint32_t > index( links + 2u, 0u );
	std::vector< crg::FramePass * > passes;
	auto pass = [&]( uint32_t i, std::string name, std::function< bool() > enabled, crg::ru::Config cfg ) -> crg::FramePass &
	{
		cfg.maxPassCount = 3u;
		auto & p = fg.createPass( name, [&index, i, name, enabled, cfg]( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg )
			{
				return std::make_unique< crg::RunnablePass >( fp, ctx, rg
					, crg::RunnablePass::Callbacks{ []( uint32_t ){}
						, crg::RunnablePass::GetPipelineStateCallback( [](){ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } )
						, [name]( crg::RecordContext &, VkCommandBuffer cb, uint32_t idx ){ sim::cmdMark( cb, name, { int64_t( idx ) } ); }
						, crg::RunnablePass::GetPassIndexCallback( [&index, i](){ return index[i]; } )
						, crg::RunnablePass::IsEnabledCallback( enabled ) }
					, cfg );
			} );
		if ( !passes.empty() ) p.addDependency( *passes.back() );
		passes.push_back( &p );
		return p;
	};
	std::string log = pbt::fmt( "%u %s in a row%s; ", links, blit ? "blits" : "copies", late ? ", the source read at the end too" : "" );
	for ( uint32_t i = 0u; i <= links; ++i )
	{
		crg::ru::Config cfg;
		if ( i == 0u ) cfg.implicitAction( views[0], []( crg::RecordContext &, VkCommandBuffer cb, uint32_t idx ){ sim::cmdMark( cb, "instead", { int64_t( idx ) } ); } );
		else if ( blit ) cfg.implicitAction( views[i], crg::RecordContext::blitImage( views[i - 1u], views[i], { 0, 0 }, { 2u, 2u }, { 0, 0 }, { 4u, 4u }, VK_FILTER_NEAREST ) );
		else cfg.implicitAction( views[i], crg::RecordContext::copyImage( views[i - 1u], views[i], { 2u, 2u }, VK_IMAGE_LAYOUT_UNDEFINED ) );
		auto & p = pass( i, "P" + std::to_string( i ), [&on, i](){ return on[i] != 0; }, cfg );
		if ( i ) p.addTransferInputView( views[i - 1u] );
		p.addTransferOutputView( views[i] );
	}
	auto & last = pass( links + 1u, "last", [](){ return true; }, {} );
	last.addSampledView( views[links], 0u );
	if ( late ) last.addSampledView( views[0], 1u );
	auto rg = fg.compile( *w.ctx );
	bool both = false;
	for ( uint32_t f = 0u, frames = t.range( 1u, 4u ); f < frames; ++f )
	{
		log += "frame: ";
		for ( uint32_t i = 0u; i <= links; ++i ) { on[i] = !t.chance( 60 ); index[i] = t.below( 3u ); log += pbt::fmt( "P%u %s %u, ", i, on[i] ? "on" : "off", index[i] ); }
		index[links + 1u] = t.below( 3u );
		log += pbt::fmt( "last %u; ", index[links + 1u] );
		rg->run( sim::queueHandle() );
		auto & cmds = w.dev->find( w.dev->subs.back().cmdBuf, sim::Ty::CmdBuf )->cmds;
		// what is to be recorded: the substitutes run just before the first enabled pass that needs them, the sources' first
		std::vector< std::string > exp, got;
		std::set< uint32_t > waiting;
		std::function< void( uint32_t, uint32_t ) > need = [&]( uint32_t v, uint32_t idx )
		{
			if ( !waiting.erase( v ) ) return;
			if ( v == 0u ) { exp.push_back( pbt::fmt( "instead %u", idx ) ); return; }
			need( v - 1u, idx );
			exp.push_back( pbt::fmt( "copy to %llx", ( unsigned long long )sim::u( rg->createImage( views[v].data->image ) ) ) );
		};
		for ( uint32_t i = 0u; i <= links; ++i )
		{
			if ( !on[i] ) { waiting.insert( i ); continue; }
			if ( i ) need( i - 1u, index[i] );
			exp.push_back( pbt::fmt( "P%u %u", i, index[i] ) );
		}
		both = both || ( !on[0] && !on[1] );
		need( links, index[links + 1u] );
		if ( late ) need( 0u, index[links + 1u] );
		exp.push_back( pbt::fmt( "last %u", index[links + 1u] ) );
		for ( auto & cmd : cmds )
		{
			if ( cmd.k == sim::CK::Mark ) got.push_back( pbt::fmt( "%s %lld", cmd.s.c_str(), ( long long )cmd.a[0] ) );
			else if ( cmd.k == sim::CK::CopyImg || cmd.k == sim::CK::Blit ) got.push_back( pbt::fmt( "copy to %llx", ( unsigned long long )cmd.h[1] ) );
		}
		if ( got != exp )
		{
			std::string a, b;
			for ( auto & s : got ) a += s + "; ";
			for ( auto & s : exp ) b += s + "; ";
			c.fail( "chained: records " + a + "instead of " + b + "\n" + log );
		}
		w.require( { "layout" } );
	}
	c.sample = log;
	if ( both ) c.nt( log );
}
