// C25: a warning tells of each input which is undefined when its pass is recorded, and of nothing else.
#include "frames.hpp"
#include <RenderGraph/Log.hpp>
using namespace gg;

namespace
{
	struct Warnings
	{
		std::vector< std::string > all;
		Warnings() { crg::Logger::setWarningCallback( [this]( std::string const & m, bool ){ all.push_back( m ); } ); }
		~Warnings() { crg::Logger::setWarningCallback( []( std::string const &, bool ){} ); }
	};

	enum class Is { Defined, Mixed, Undefined };

	void run( pbt::Case & c, chk::Fam fam )
	{
		auto o = chk::family( c, fam );
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		for ( auto & p : g.passes ) p->pre = std::max( p->pre, 1u ); // tells when the pass starts
		Warnings warnings;
		std::set< Pass * > recorded, before; // in this frame, in a previous one
		w.onMark = [&]( Pass & p, char const * what, uint32_t n ){ if ( n == 0u && !strcmp( what, "pre" ) ) recorded.insert( &p ); };
		std::map< std::pair< Pass *, size_t >, Is > found; // pass, attachment
		std::vector< Is > views; // when the label of the pass starts
		w.dev->onMark = [&]( sim::Cmd const & cmd )
		{
			if ( cmd.k == sim::CK::BeginLabel )
			{
				views.clear();
				for ( auto & v : w.views )
				{
					auto & img = w.imgs[size_t( v.img )];
					auto range = v.range;
					if ( img.type == VK_IMAGE_TYPE_3D ) { range.baseArrayLayer = 0u; range.layerCount = 1u; }
					bool some = false, all = true;
					auto & obj = *w.dev->find( sim::u( g.rg->createImage( img.id ) ), sim::Ty::Image );
					w.dev->forSubs( obj, range, [&]( sim::Sub & s, uint32_t, uint32_t, uint32_t )
						{
							some = some || s.layout == VK_IMAGE_LAYOUT_UNDEFINED;
							all = all && s.layout == VK_IMAGE_LAYOUT_UNDEFINED;
						}, "mark" );
					views.push_back( !some ? Is::Defined : all ? Is::Undefined : Is::Mixed );
				}
				return;
			}
			auto pre = "pre:" + g.name + "/";
			if ( cmd.s.rfind( pre, 0u ) != 0u || cmd.a[1] != 0 ) return;
			auto & p = *g.passes[size_t( std::stoul( cmd.s.substr( pre.size() ) ) )];
			for ( size_t i = 0u; i < p.images.size(); ++i ) found[{ &p, i }] = views[size_t( p.images[i].view( p.index ) )];
		};
		size_t told = 0u, quiet = 0u;
		c.sample = w.describe();
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		w.build( g );
		warnings.all.clear(); // other warnings
		w.compile( g );
		for ( uint32_t f = 0u; f < w.o.frames; ++f )
		{
			w.setFrame( g, f );
			recorded.clear();
			found.clear();
			w.run( g );
			chk::trace( c, w, g, f );
			std::multiset< std::string > got;
			for ( auto & m : warnings.all )
				if ( m.find( "is currently in undefined layout" ) != std::string::npos ) got.insert( m );
			warnings.all.clear();
			std::map< std::string, std::string > state; // what is known of each warning that could come
			for ( auto & pp : g.passes )
			{
				auto & p = *pp;
				if ( !recorded.count( &p ) || !p.enabled ) continue;
				for ( size_t i = 0u; i < p.images.size(); ++i )
				{
					auto & a = p.images[i];
					if ( !found.count( { &p, i } ) ) continue;
					auto & v = w.views[size_t( a.view( p.index ) )];
					bool render = isRender( a.k );
					auto msg = pbt::fmt( "%s - [%s]: Input view [%s] is currently in undefined layout", render ? "RenderPass" : "Record", p.fp->getFullName().c_str(), v.id.data->name.c_str() );
					bool watched = reads( a.k ) && a.k != AK::Implicit && ( render || !a.noTransition );
					// another attachment of the pass may have defined it, or share its name
					bool alone = true;
					for ( size_t j = 0u; j < p.images.size(); ++j )
						if ( j != i && w.views[size_t( p.images[j].view( p.index ) )].img == v.img ) alone = false;
					for ( auto & im : p.impl ) if ( w.views[size_t( im.view )].img == v.img ) alone = false;
					if ( !alone ) { got.erase( msg ); continue; }
					auto is = found[{ &p, i }];
					auto n = got.count( msg );
					auto who = pbt::fmt( "frame %u, p%u, attachment %zu (%s): %s", f, p.id, i, name( a.k ), msg.c_str() );
					if ( !watched ) c.check( n == 0u, "warns: of what is no input: " + who );
					else if ( is == Is::Defined ) { c.check( n == 0u, "warns: of a defined input: " + who ); ++quiet; c.note( "defined input" ); }
					// a render pass is made again only if need be
					else if ( is == Is::Undefined && ( !render || !before.count( &p ) ) ) { c.check( n == 1u, pbt::fmt( "silent: %zu warnings, not one: ", n ) + who ); ++told; c.note( render ? "undefined attachment" : "undefined input" ); }
					else c.note( is == Is::Mixed ? "partly undefined input" : "undefined attachment of a known render pass" );
					got.erase( msg );
				}
			}
			if ( !got.empty() ) c.fail( pbt::fmt( "warns: frame %u, of nothing that was recorded: ", f ) + *got.begin() );
			for ( auto p : recorded ) before.insert( p );
		}
		if ( told && quiet ) c.nt( c.sample );
	}
}

PBT_CHECK( "C25", "frames", 12000, 300000, "an input is undefined and another one defined" ) { run( c, chk::Fam::Any ); }
PBT_CHECK( "C25", "dense", 6000, 200000, "an input is undefined and another one defined" ) { run( c, chk::Fam::Dense ); }
PBT_CHECK( "C25", "long", 4000, 100000, "an input is undefined and another one defined" ) { run( c, chk::Fam::Long ); }
PBT_CHECK( "C25", "renders", 5000, 150000, "an input is undefined and another one defined" ) { run( c, chk::Fam::Renders ); }
