// C04: transitions start from the true layout, inside the image, and never drop data.
#include "frames.hpp"
using namespace gg;

namespace
{
	void run( pbt::Case & c, chk::Fam fam )
	{
		World w{ c, chk::family( c, fam ) };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		chk::Tally t;
		chk::frames( c, w, g, [&]( uint32_t )
			{
				chk::tally( t, w.commands( g ) );
				w.require( { "oldlayout", "content" } );
				chk::requireMsg( c, w, "bounds", { "barrier", "image barrier" } );
			} );
		if ( t.uses >= 2u && t.transitions + t.renders >= 2u ) c.nt( c.sample );
	}
}

PBT_CHECK( "C04", "frames", 12000, 300000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Any ); }
PBT_CHECK( "C04", "dense", 6000, 200000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Dense ); }
PBT_CHECK( "C04", "long", 4000, 100000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Long ); }
PBT_CHECK( "C04", "renders", 5000, 150000, "at least 2 image uses and 2 transitions or render passes recorded" ) { run( c, chk::Fam::Renders ); }
