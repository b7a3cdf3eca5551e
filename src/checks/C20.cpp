// C20: a recorded draw or dispatch is the one its pass is configured for, for the current pass index.
#include "direct.hpp"
#include <cmath>
using namespace gg;

namespace
{
	struct Seen
	{
		size_t draws{}, resets{}, reprogrammed{}, changed{}, sized{};
		// pipelines no recording of a pass may use any more, after a reset
		std::map< Pass const *, std::map< uint32_t, std::set< uint64_t > > > stale;
		std::map< Pass const *, std::map< uint32_t, std::set< uint64_t > > > used;
		std::set< std::string > kinds;
	};

	uint32_t slot( Pass const & p, uint32_t index ) { return p.programs.size() == 1u ? 0u : index; }
	uint64_t bufOf( World & w, std::vector< int > const & v, uint32_t index ) { return v.empty() ? 0u : sim::u( w.bufs[size_t( v.size() == 1u ? v[0] : v[index] )].vk ); }

	VkExtent2D area( World & w, Pass & p )
	{
		VkExtent2D e{};
		for ( auto & a : p.images )
			if ( a.k >= AK::ColourIn && a.k <= AK::StencilInOut )
			{
				auto & v = w.views[size_t( a.view( p.index ) )];
				auto & x = w.imgs[size_t( v.img )].ext;
				e = { std::max( e.width, x.width >> v.range.baseMipLevel ), std::max( e.height, x.height >> v.range.baseMipLevel ) };
			}
		return e;
	}

	// The triangle covers the viewport, and its texture coordinates go from 0 to 1 over it (from 1 to 0 when inverted).
	void quad( pbt::Case & c, World & w, Pass & p, sim::Obj const & pipe, uint64_t vb, int64_t offset, std::string const & who )
	{
		auto buf = w.dev->find( vb, sim::Ty::Buffer );
		c.check( buf && buf->alive && buf->mem, "vertices: " + who + " has no live vertex buffer" );
		auto mem = w.dev->find( buf->mem, sim::Ty::Memory );
		c.check( mem && mem->alive && mem->map, "vertices: " + who + " has a vertex buffer that was never written" );
		c.check( pipe.vbinds.size() == 1u && pipe.vbinds[0].binding == 0u && pipe.vbinds[0].inputRate == VK_VERTEX_INPUT_RATE_VERTEX, "vertices: " + who + " does not read one buffer per vertex" );
		c.check( pipe.vattrs.size() == ( p.hasTexcoord ? 2u : 1u ), pbt::fmt( "vertices: %s reads %zu attributes, %s texture coordinates", who.c_str(), pipe.vattrs.size(), p.hasTexcoord ? "with" : "without" ) );
		float v[2][3][2]{};
		for ( auto & a : pipe.vattrs )
		{
			c.check( a.location < pipe.vattrs.size() && a.binding == 0u && a.format == VK_FORMAT_R32G32_SFLOAT, "vertices: " + who + " has an unexpected attribute" );
			for ( uint32_t i = 0u; i < 3u; ++i )
			{
				auto at = size_t( offset ) + size_t( pipe.vbinds[0].stride ) * i + a.offset;
				c.check( at + 8u <= buf->size, "vertices: " + who + " reads outside of its vertex buffer" );
				std::memcpy( v[a.location][i], mem->map->data() + at, 8u );
			}
		}
		auto & pos = v[0];
		// barycentric coordinates of the corners
		double det = double( pos[1][0] - pos[0][0] ) * ( pos[2][1] - pos[0][1] ) - double( pos[2][0] - pos[0][0] ) * ( pos[1][1] - pos[0][1] );
		c.check( std::abs( det ) > 1e-6, "vertices: " + who + " draws an empty triangle" );
		for ( int x = -1; x <= 1; x += 2 )
			for ( int y = -1; y <= 1; y += 2 )
			{
				double b1 = ( double( x - pos[0][0] ) * ( pos[2][1] - pos[0][1] ) - double( pos[2][0] - pos[0][0] ) * ( y - pos[0][1] ) ) / det;
				double b2 = ( double( pos[1][0] - pos[0][0] ) * ( y - pos[0][1] ) - double( x - pos[0][0] ) * ( pos[1][1] - pos[0][1] ) ) / det;
				double b0 = 1. - b1 - b2;
				c.check( b0 > -1e-5 && b1 > -1e-5 && b2 > -1e-5, "vertices: " + who + " does not cover the viewport" );
				if ( !p.hasTexcoord ) continue;
				double eu = ( x + 1 ) / 2, ev = ( y + 1 ) / 2;
				if ( p.texcoord.invertU ) eu = 1. - eu;
				if ( p.texcoord.invertV ) ev = 1. - ev;
				double u = b0 * v[1][0][0] + b1 * v[1][1][0] + b2 * v[1][2][0], t = b0 * v[1][0][1] + b1 * v[1][1][1] + b2 * v[1][2][1];
				c.check( std::abs( u - eu ) < 1e-4 && std::abs( t - ev ) < 1e-4, pbt::fmt( "texture coordinates: %s has (%g, %g) at the corner (%d, %d) instead of (%g, %g), inverted %d %d", who.c_str(), u, t, x, y, eu, ev, p.texcoord.invertU, p.texcoord.invertV ) );
			}
	}

	bool sameBlend( VkPipelineColorBlendAttachmentState const & a, VkPipelineColorBlendAttachmentState const & b )
	{
		return a.blendEnable == b.blendEnable && a.srcColorBlendFactor == b.srcColorBlendFactor && a.dstColorBlendFactor == b.dstColorBlendFactor && a.colorBlendOp == b.colorBlendOp
			&& a.srcAlphaBlendFactor == b.srcAlphaBlendFactor && a.dstAlphaBlendFactor == b.dstAlphaBlendFactor && a.alphaBlendOp == b.alphaBlendOp && a.colorWriteMask == b.colorWriteMask;
	}

	void graphics( pbt::Case & c, World & w, Pass & p, sim::Obj const & pipe, std::string const & who, Seen & seen )
	{
		auto e = p.renderSize;
		if ( !e.width ) { e = area( w, p ); ++seen.sized; }
		c.check( pipe.viewports.size() == 1u && pipe.scissors.size() == 1u, "viewport: " + who + " does not have one viewport and one scissor" );
		auto & v = pipe.viewports[0];
		auto & s = pipe.scissors[0];
		auto exp = pbt::fmt( "%ux%u at (%d, %d)", e.width, e.height, p.renderPos.x, p.renderPos.y );
		c.check( v.x == float( p.renderPos.x ) && v.y == float( p.renderPos.y ) && v.width == float( e.width ) && v.height == float( e.height ) && v.minDepth == 0.f && v.maxDepth == 1.f
			, pbt::fmt( "viewport: %s has %gx%g at (%g, %g) [%g, %g] instead of %s", who.c_str(), v.width, v.height, v.x, v.y, v.minDepth, v.maxDepth, exp.c_str() ) );
		c.check( s.offset.x == p.renderPos.x && s.offset.y == p.renderPos.y && s.extent.width == e.width && s.extent.height == e.height
			, pbt::fmt( "scissor: %s has %ux%u at (%d, %d) instead of %s", who.c_str(), s.extent.width, s.extent.height, s.offset.x, s.offset.y, exp.c_str() ) );
		c.check( pipe.hasDss && pipe.dss.depthTestEnable == VkBool32( p.depthTest ) && pipe.dss.depthWriteEnable == VkBool32( p.depthWrite ) && pipe.dss.depthCompareOp == p.depthCompare, "depth: " + who + " does not have the configured depth stencil state" );
		c.check( pipe.ras.cullMode == ( p.kind == PK::Mesh ? p.cull : VkCullModeFlags( VK_CULL_MODE_NONE ) ), pbt::fmt( "cull: %s culls 0x%x", who.c_str(), pipe.ras.cullMode ) );
		c.check( pipe.ras.polygonMode == VK_POLYGON_MODE_FILL && !pipe.ras.rasterizerDiscardEnable, "raster: " + who + " does not fill its triangles" );
		auto topo = pipe.iasm.topology;
		c.check( topo == VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST || ( p.kind == PK::Quad && topo == VK_PRIMITIVE_TOPOLOGY_TRIANGLE_STRIP ), pbt::fmt( "topology: %s has %d", who.c_str(), topo ) );
		size_t n = 0u;
		for ( auto & a : p.images )
			if ( a.k == AK::ColourIn || a.k == AK::ColourOut || a.k == AK::ColourInOut )
			{
				c.check( n < pipe.blends.size() && sameBlend( pipe.blends[n], a.hasBlend ? a.blend : crg::DefaultBlendState ), pbt::fmt( "blend: %s does not have the blend state of colour attachment %zu", who.c_str(), n ) );
				++n;
			}
		c.check( n == pipe.blends.size(), "blend: " + who + " has more blend states than colour attachments" );
	}

	void look( pbt::Case & c, World & w, Graph & g, Seen & seen )
	{
		auto & cmds = w.commands( g );
		for ( auto & s : chk::spans( w, g ) )
		{
			auto & p = *s.p;
			if ( p.kind != PK::Compute && p.kind != PK::Quad && p.kind != PK::Mesh ) continue;
			bool compute = p.kind == PK::Compute;
			auto who = pbt::fmt( "p%u (%s) [index %u of %u]", p.id, name( p.kind ), p.index, p.maxPassCount );
			auto point = int64_t( compute ? VK_PIPELINE_BIND_POINT_COMPUTE : VK_PIPELINE_BIND_POINT_GRAPHICS );
			uint64_t pipeline{}, set{}, vb{}, ib{};
			int64_t vbOffset{}, ibOffset{}, ibType{};
			bool inside = false, recorded = false, ended = false, atRecord = false;
			size_t draws = 0u;
			for ( size_t i = s.begin; i < s.end; ++i )
			{
				auto & cmd = cmds[i];
				switch ( cmd.k )
				{
				case sim::CK::BeginRP: inside = true; break;
				case sim::CK::EndRP: inside = false; break;
				case sim::CK::BindPipeline: if ( cmd.a[0] == point ) pipeline = cmd.h[0]; break;
				case sim::CK::BindSets: if ( cmd.a[0] == point ) set = cmd.h[1]; break;
				case sim::CK::BindVB: if ( cmd.a[0] == 0 ) { vb = cmd.h[0]; vbOffset = cmd.a[1]; } break;
				case sim::CK::BindIB: ib = cmd.h[0]; ibOffset = cmd.a[0]; ibType = cmd.a[1]; break;
				case sim::CK::Mark:
					if ( cmd.s == w.mark( p, "pass" ) )
					{
						c.check( !recorded, "record: " + who + " calls the user's recording more than once" );
						c.check( cmd.a[0] == int64_t( p.index ), "record: " + who + " calls the user's recording for another index" );
						c.check( !draws, "record: " + who + " calls the user's recording after its execution" );
						c.check( pipeline && set, "record: " + who + " calls the user's recording before its pipeline and set are bound" );
						c.check( compute || inside, "record: " + who + " calls the user's recording outside of its render pass" );
						recorded = true;
						atRecord = true;
					}
					else if ( cmd.s == w.mark( p, "end" ) )
					{
						c.check( draws == 1u && !inside && !ended, "end: " + who + " does not call the end callback once after its execution and render pass" );
						c.check( cmd.a[0] == int64_t( p.index ), "end: " + who + " calls the end callback for another index" );
						ended = true;
					}
					break;
				case sim::CK::Dispatch: case sim::CK::DispatchIndirect: case sim::CK::Draw: case sim::CK::DrawIndexed: case sim::CK::DrawIndirect: case sim::CK::DrawIndexedIndirect:
					{
						++draws;
						c.check( draws == 1u, "execution: " + who + " draws or dispatches more than once" );
						c.check( compute || inside, "execution: " + who + " draws outside of its render pass" );
						auto indirect = bufOf( w, p.indirectBufs, p.index );
						auto index = p.kind == PK::Mesh ? bufOf( w, p.indexBufs, p.index ) : 0u;
						auto exp = compute ? ( indirect ? sim::CK::DispatchIndirect : sim::CK::Dispatch )
							: indirect ? ( index ? sim::CK::DrawIndexedIndirect : sim::CK::DrawIndirect )
							: index ? sim::CK::DrawIndexed : sim::CK::Draw;
						c.check( cmd.k == exp, "execution: " + who + " records " + sim::dump( cmd ) + ", which is not the kind configured" );
						seen.kinds.insert( std::string( name( p.kind ) ) + " " + std::string( indirect ? "indirect " : "" ) + ( index ? "indexed" : "" ) );
						std::vector< int64_t > a;
						switch ( exp )
						{
						case sim::CK::Dispatch: a = { p.counts[0], p.counts[1], p.counts[2] }; break;
						case sim::CK::DispatchIndirect: a = { int64_t( p.indirectOffset ) }; break;
						case sim::CK::DrawIndirect: case sim::CK::DrawIndexedIndirect: a = { int64_t( p.indirectOffset ), 1, p.indirectStride }; break;
						case sim::CK::DrawIndexed: a = { p.primitives, 1, 0, 0, 0 }; break;
						default: if ( p.kind == PK::Quad ) a = { 3, p.instances, 0, 0 }; else a = { p.vertices, 1, 0, 0 }; break;
						}
						std::string want;
						for ( auto x : a ) want += pbt::fmt( "%lld ", (long long)x );
						c.check( cmd.a == a, "parameters: " + who + " records " + sim::dump( cmd ) + " instead of " + want );
						if ( indirect ) c.check( cmd.h[0] == indirect, "indirect: " + who + " reads its parameters from another buffer" );
						if ( index )
						{
							c.check( ib == index && ibOffset == 0, "indices: " + who + " draws with another index buffer" );
							c.check( ibType == int64_t( p.indexType ), pbt::fmt( "indices: %s reads indices of type %lld", who.c_str(), (long long)ibType ) );
						}
						if ( p.kind == PK::Mesh && !p.vertexBufs.empty() ) c.check( vb == bufOf( w, p.vertexBufs, p.index ) && vbOffset == 0, "vertices: " + who + " draws with another vertex buffer" );
						auto pipe = w.dev->find( pipeline, sim::Ty::Pipeline );
						c.check( pipe && pipe->alive && pipe->compute == compute, "pipeline: " + who + " has no live pipeline of its kind bound" );
						auto sl = slot( p, p.index );
						auto & prog = p.programs[sl];
						c.check( pipe->stages.size() == prog.size(), pbt::fmt( "program: %s has %zu stages instead of %zu", who.c_str(), pipe->stages.size(), prog.size() ) );
						for ( size_t k = 0u; k < prog.size(); ++k )
							c.check( pipe->stages[k].module == sim::u( prog[k].module ) && pipe->stages[k].stage == prog[k].stage && pipe->stages[k].entry == prog[k].pName, pbt::fmt( "program: %s does not run the program of its index (stage %zu)", who.c_str(), k ) );
						c.check( !seen.stale[&p][sl].count( pipeline ), "reset: " + who + " still uses the pipeline it had before the reset" );
						seen.used[&p][sl].insert( pipeline );
						if ( !compute ) graphics( c, w, p, *pipe, who, seen );
						if ( p.kind == PK::Quad ) quad( c, w, p, *pipe, vb, vbOffset, who );
						else if ( p.kind == PK::Mesh && !p.vertexBufs.empty() ) c.check( pipe->vbinds.size() == 1u && pipe->vbinds[0].stride == 8u && pipe->vattrs.size() == 1u && pipe->vattrs[0].format == VK_FORMAT_R32G32_SFLOAT, "vertices: " + who + " does not read the vertices as configured" );
					}
					break;
				default: break;
				}
			}
			c.check( draws == 1u, "execution: " + who + " draws or dispatches nothing" );
			c.check( recorded && atRecord, "record: " + who + " does not call the user's recording" );
			c.check( ended, "end: " + who + " does not call the end callback" );
			++seen.draws;
		}
		w.require( { "renderpass" } );
	}

	// Render targets of its own for each index, of its own size.
	void ownTargets( pbt::Case & c, World & w, Pass & p )
	{
		auto & t = c.t;
		std::vector< VkExtent3D > ext;
		for ( uint32_t i = 0u; i < p.maxPassCount; ++i ) ext.push_back( { t.range( 1u, 9u ), t.range( 1u, 9u ), 1u } );
		for ( auto & a : p.images )
		{
			if ( a.k < AK::ColourIn || a.k > AK::StencilInOut ) continue;
			auto v0 = w.views[size_t( a.views[0] )];
			a.views.clear();
			for ( uint32_t i = 0u; i < p.maxPassCount; ++i )
			{
				Img img = w.imgs[size_t( v0.img )];
				img.ext = ext[i];
				img.mips = 1u;
				img.layers = v0.range.layerCount;
				img.external = false;
				img.blocks = { { 0u, img.layers, 0u, 1u } };
				img.whole.clear();
				img.blockView.clear();
				img.id = w.handler->createImageId( crg::ImageData{ "own" + std::to_string( w.imgs.size() ), 0u, img.type, img.fmt, img.ext, VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT, 1u, img.layers } );
				w.imgs.push_back( img );
				a.views.push_back( w.addView( int( w.imgs.size() ) - 1, v0.type, { v0.range.aspectMask, 0u, 1u, 0u, img.layers } ) );
				w.imgs.back().blockView.push_back( a.views.back() );
			}
		}
		if ( p.renderSize.width )
		{
			// no larger than any of the targets
			VkExtent2D least{ 9u, 9u };
			for ( auto & e : ext ) least = { std::min( least.width, e.width ), std::min( least.height, e.height ) };
			p.renderSize = { t.range( 1u, least.width ), t.range( 1u, least.height ) };
		}
	}

	int extraBuf( World & w, VkDeviceSize size )
	{
		Buf b;
		b.name = "extra" + std::to_string( w.bufs.size() );
		b.size = size;
		b.vk = w.dev->makeBuffer( b.size, b.name );
		w.bufs.push_back( b );
		return int( w.bufs.size() ) - 1;
	}

	void configure( pbt::Case & c, World & w, Graph & g )
	{
		auto & t = c.t;
		for ( auto & pp : g.passes )
		{
			auto & p = *pp;
			bool render = p.kind == PK::Quad || p.kind == PK::Mesh;
			if ( !render && p.kind != PK::Compute ) continue;
			auto bufs = [&]( VkDeviceSize size )
			{
				std::vector< int > r;
				uint32_t n = p.maxPassCount > 1u && t.flag() ? p.maxPassCount : 1u;
				for ( uint32_t i = 0u; i < n; ++i ) r.push_back( extraBuf( w, size ) );
				return r;
			};
			if ( t.chance( 35 ) )
			{
				p.indirectBufs = bufs( 1024u );
				p.indirectOffset = 4u * t.below( 32u );
				p.indirectStride = 4u * t.range( 5u, 9u );
			}
			if ( p.kind == PK::Mesh )
			{
				if ( t.chance( 60 ) ) p.vertexBufs = bufs( 1024u );
				if ( t.chance( 50 ) ) p.indexBufs = bufs( 1024u );
			}
			if ( render )
			{
				p.depthWrite = t.flag();
				p.depthCompare = t.pick( { VK_COMPARE_OP_NEVER, VK_COMPARE_OP_LESS, VK_COMPARE_OP_ALWAYS } );
				if ( t.chance( 30 ) ) p.renderSize = {};
				if ( p.maxPassCount > 1u && t.flag() ) ownTargets( c, w, p );
			}
		}
	}

	// What the callbacks answer from now on.
	void change( pbt::Case & c, Graph & g, Seen & seen )
	{
		auto & t = c.t;
		for ( auto & p : g.passes )
		{
			if ( !t.chance( 50 ) ) continue;
			if ( p->kind == PK::Compute )
				for ( int i = 0; i < 3; ++i ) { if ( p->countsByFn[i] ) { p->counts[i] = t.range( 1u, 99u ); ++seen.changed; } }
			else if ( p->kind == PK::Mesh )
			{
				p->primitives = t.range( 1u, 99u );
				p->vertices = t.range( 1u, 99u );
				p->indexType = t.flag() ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32;
				++seen.changed;
			}
		}
	}

	std::string reset( pbt::Case & c, World & w, Graph & g, Seen & seen )
	{
		auto & t = c.t;
		auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
		auto index = t.flag() ? p.index : t.below( p.maxPassCount );
		auto quad = dynamic_cast< crg::RenderQuad * >( p.rp );
		auto mesh = dynamic_cast< crg::RenderMesh * >( p.rp );
		auto comp = p.resettable ? dynamic_cast< crg::ComputePass * >( p.rp ) : nullptr;
		if ( !quad && !mesh && !comp ) return {};
		if ( !p.enabled ) return {}; // records what is not part of the graph for now
		bool program = t.flag();
		VkPipelineShaderStageCreateInfo const * none{};
		std::vector< VkPipelineShaderStageCreateInfo > given;
		if ( program )
		{
			auto fresh = w.program( comp != nullptr );
			p.programs[slot( p, index )] = fresh;
			if ( !p.programByCreator ) given = fresh;
			++seen.reprogrammed;
		}
		(void)none;
		auto s = slot( p, index );
		auto & used = seen.used[&p][s];
		seen.stale[&p][s].insert( used.begin(), used.end() );
		if ( quad ) quad->resetPipeline( given, index );
		else if ( mesh ) mesh->resetPipeline( given, index );
		else comp->resetPipeline( given, index );
		++seen.resets;
		return pbt::fmt( "reset index %u of p%u%s\n", index, p.id, program ? " with another program" : "" );
	}

	void run( pbt::Case & c, Opts o )
	{
		o.resettable = true;
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		configure( c, w, g );
		c.sample = w.describe();
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		w.build( g );
		w.compile( g );
		Seen seen;
		for ( uint32_t f = 0u; f < w.o.frames; ++f )
		{
			w.setFrame( g, f );
			if ( f ) change( c, g, seen );
			w.run( g );
			chk::trace( c, w, g, f );
			look( c, w, g, seen );
			while ( c.t.chance( 30 ) )
			{
				auto r = reset( c, w, g, seen );
				if ( c.verbose ) fprintf( stderr, "%s", r.c_str() );
				c.sample += r;
			}
		}
		chk::noteKinds( c, w );
		for ( auto & k : seen.kinds ) c.note( k );
		if ( seen.resets ) c.note( "reset" );
		if ( seen.reprogrammed ) c.note( "another program" );
		if ( seen.changed ) c.note( "changed parameters" );
		if ( seen.sized ) c.note( "sized by the attachments" );
		for ( auto & p : g.passes ) if ( p->programs.size() > 1u ) c.note( p->programByCreator ? "a program per index, created" : "a program per index" );
		if ( seen.draws >= 2u && ( seen.resets || seen.changed || seen.kinds.size() >= 2u ) ) c.nt( c.sample );
	}
}
PBT_CHECK( "C20", "frames", 20000, 200000, "at least 2 draws or dispatches, with a reset, parameters that change or two kinds of execution" )
{
	auto o = chk::family( c, chk::Fam::Any );
	o.kinds = { PK::Compute, PK::Quad, PK::Mesh, PK::Mesh, PK::Generic };
	run( c, o );
}
// Few passes with many pass indices, over longer histories.
PBT_CHECK( "C20", "indices", 20000, 200000, "at least 2 draws or dispatches, with a reset, parameters that change or two kinds of execution" )
{
	Opts o;
	o.kinds = { PK::Compute, PK::Quad, PK::Mesh, PK::Quad };
	o.maxPasses = 3u;
	o.maxIndex = 5u;
	o.maxImages = 5u;
	o.frames = c.thorough ? 12u : 8u;
	run( c, o );
}
