// C03: every subresource is in its declared layout whenever a pass uses it.
#include "frames.hpp"
using namespace gg;

namespace
{
	void run( pbt::Case & c, chk::Fam fam )
	{
		World w{ c, chk::family( c, fam ) };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		chk::Tally t;
		chk::frames( c, w, g, [&]( uint32_t )
			{
				chk::tally( t, w.commands( g ) );
				w.require( { "layout" } );
			} );
		if ( t.uses >= 2u && t.transitions + t.renders >= 2u ) c.nt( c.sample );
	}
}

PBT_CHECK( "C03", "frames", 12000, 300000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Any ); }
PBT_CHECK( "C03", "dense", 6000, 200000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Dense ); }
PBT_CHECK( "C03", "long", 4000, 100000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Long ); }
PBT_CHECK( "C03", "renders", 5000, 150000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Renders ); }
