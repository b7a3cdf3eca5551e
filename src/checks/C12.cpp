// C12: what a draw or dispatch finds bound is exactly what its pass declares for the index.
#include "direct.hpp"
using namespace gg;

namespace
{
	struct Bound
	{
		uint32_t binding;
		VkDescriptorType type;
		// what it refers to, for the pass index
		int view{ -1 };
		VkImageLayout layout{};
		crg::SamplerDesc const * sampler{};
		uint64_t buffer{}, bufferView{};
		VkDeviceSize offset{}, range{};
		std::string what;
	};

	// From the declarations alone.
	std::vector< Bound > declared( World & w, Pass & p, uint32_t index )
	{
		std::vector< Bound > r;
		for ( auto & a : p.images )
		{
			Bound b;
			b.binding = a.binding;
			b.view = a.view( index );
			b.what = name( a.k );
			switch ( a.k )
			{
			case AK::Sampled: b.type = VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER; b.layout = VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; b.sampler = &a.sampler; break;
			case AK::StorageIn: case AK::StorageOut: case AK::StorageClear: case AK::StorageInOut: b.type = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; b.layout = VK_IMAGE_LAYOUT_GENERAL; break;
			default: continue;
			}
			r.push_back( b );
		}
		for ( auto & a : p.buffers )
		{
			Bound b;
			b.binding = a.binding;
			b.what = name( a.k );
			bool uniform = a.k == BK::Uniform;
			bool storage = a.k == BK::StorageIn || a.k == BK::StorageOut || a.k == BK::StorageClear || a.k == BK::StorageInOut;
			if ( !uniform && !storage ) continue;
			auto & buf = w.bufs[size_t( a.buf( index ) )];
			if ( a.isView )
			{
				b.type = uniform ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
				b.bufferView = sim::u( buf.view );
			}
			else
			{
				b.type = uniform ? VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
				b.buffer = sim::u( buf.vk );
				b.offset = a.offset;
				b.range = a.range;
			}
			r.push_back( b );
		}
		return r;
	}

	bool same( VkImageSubresourceRange const & a, VkImageSubresourceRange const & b )
	{
		return a.aspectMask == b.aspectMask && a.baseArrayLayer == b.baseArrayLayer && a.baseMipLevel == b.baseMipLevel && a.layerCount == b.layerCount && a.levelCount == b.levelCount;
	}

	struct Seen { size_t draws{}, bound{}; std::map< std::string, std::map< uint32_t, uint64_t > > sets; };

	void execution( pbt::Case & c, World & w, Pass & p, uint64_t layout, std::map< int64_t, uint64_t > const & sets, uint64_t pipeline, std::string const & who, Seen & seen )
	{
		bool compute = p.kind == PK::Compute;
		auto pl = w.dev->find( layout, sim::Ty::PipelineLayout );
		c.check( pl && pl->alive, "layout: " + who + " has no live pipeline layout" );
		auto pipe = w.dev->find( pipeline, sim::Ty::Pipeline );
		c.check( pipe && pipe->alive && pipe->compute == compute, "pipeline: " + who + " has no live pipeline of its kind bound" );
		c.check( pipe->layout == layout, "layout: " + who + " binds its set with another pipeline layout than its pipeline's" );
		c.check( pl->setLayouts.size() == 1u + p.extraLayouts.size(), pbt::fmt( "layout: %s has %zu set layouts, configured with %zu more than its own", who.c_str(), pl->setLayouts.size(), p.extraLayouts.size() ) );
		for ( size_t i = 0u; i < p.extraLayouts.size(); ++i )
			c.check( pl->setLayouts[i + 1u] == sim::u( p.extraLayouts[i] ), pbt::fmt( "layout: %s does not have extra set layout %zu in its place", who.c_str(), i ) );
		c.check( pl->pcs.size() == p.pushConstants.size(), pbt::fmt( "push constants: %s has %zu ranges instead of %zu", who.c_str(), pl->pcs.size(), p.pushConstants.size() ) );
		for ( size_t i = 0u; i < pl->pcs.size(); ++i )
			c.check( pl->pcs[i].stageFlags == p.pushConstants[i].stageFlags && pl->pcs[i].offset == p.pushConstants[i].offset && pl->pcs[i].size == p.pushConstants[i].size, pbt::fmt( "push constants: %s range %zu is not as configured", who.c_str(), i ) );

		auto exp = declared( w, p, p.index );
		auto sl = w.dev->find( pl->setLayouts[0], sim::Ty::SetLayout );
		c.check( sl && sl->alive, "layout: " + who + " has no live set layout" );
		c.check( sl->binds.size() == exp.size(), pbt::fmt( "bindings: %s has %zu bindings for %zu bound attachments", who.c_str(), sl->binds.size(), exp.size() ) );
		VkShaderStageFlags const stages = compute ? VkShaderStageFlags( VK_SHADER_STAGE_COMPUTE_BIT )
			: VkShaderStageFlags( VK_SHADER_STAGE_VERTEX_BIT | VK_SHADER_STAGE_TESSELLATION_CONTROL_BIT | VK_SHADER_STAGE_TESSELLATION_EVALUATION_BIT | VK_SHADER_STAGE_GEOMETRY_BIT | VK_SHADER_STAGE_FRAGMENT_BIT );
		for ( auto & e : exp )
		{
			size_t n = 0u;
			for ( auto & b : sl->binds )
				if ( b.binding == e.binding )
				{
					++n;
					c.check( b.descriptorType == e.type, pbt::fmt( "type: %s binding %u (%s) is of type %d instead of %d", who.c_str(), e.binding, e.what.c_str(), b.descriptorType, e.type ) );
					c.check( b.descriptorCount == 1u, pbt::fmt( "bindings: %s binding %u has %u descriptors", who.c_str(), e.binding, b.descriptorCount ) );
					c.check( b.stageFlags == stages, pbt::fmt( "stages: %s binding %u is for stages 0x%x", who.c_str(), e.binding, b.stageFlags ) );
				}
			c.check( n == 1u, pbt::fmt( "bindings: %s has %zu bindings %u", who.c_str(), n, e.binding ) );
		}
		auto it = sets.find( 0 );
		c.check( it != sets.end(), "set: " + who + " has no descriptor set bound" );
		auto ds = w.dev->find( it->second, sim::Ty::DescSet );
		c.check( ds && ds->alive, "set: " + who + " has no live descriptor set" );
		c.check( ds->setLayout == pl->setLayouts[0], "set: " + who + " has a set of another layout" );
		auto pool = w.dev->find( ds->parent, sim::Ty::DescPool );
		c.check( pool && pool->maxSets >= p.maxPassCount, pbt::fmt( "pool: %s has a pool for %u sets, %u pass indices", who.c_str(), pool ? pool->maxSets : 0u, p.maxPassCount ) );
		std::map< VkDescriptorType, uint64_t > room;
		for ( auto & s : pool->sizes ) room[s.type] += s.descriptorCount;
		std::map< VkDescriptorType, uint64_t > need;
		for ( auto & e : exp ) need[e.type] += p.maxPassCount;
		for ( auto & [type, n] : need )
			c.check( room[type] >= n, pbt::fmt( "pool: %s has room for %llu descriptors of type %d, needs %llu", who.c_str(), (unsigned long long)room[type], type, (unsigned long long)n ) );
		c.check( ds->descs.size() == exp.size(), pbt::fmt( "descriptors: %s finds %zu written for %zu bound attachments", who.c_str(), ds->descs.size(), exp.size() ) );
		for ( auto & e : exp )
		{
			auto at = pbt::fmt( "%s binding %u (%s)", who.c_str(), e.binding, e.what.c_str() );
			auto di = ds->descs.find( { e.binding, 0u } );
			c.check( di != ds->descs.end(), "descriptors: " + at + " was never written" );
			auto & d = di->second;
			c.check( d.type == e.type, pbt::fmt( "type: %s holds a descriptor of type %d", at.c_str(), d.type ) );
			if ( e.view >= 0 )
			{
				auto & v = w.views[size_t( e.view )];
				auto dv = w.dev->find( d.view, sim::Ty::View );
				c.check( dv && dv->alive, "view: " + at + " refers to no live view" );
				c.check( dv->vci.image == w.vkImage( v.img ), pbt::fmt( "view: %s refers to %s instead of %s", at.c_str(), w.dev->show( sim::u( dv->vci.image ) ).c_str(), w.showView( e.view ).c_str() ) );
				c.check( same( dv->vci.subresourceRange, v.range ) && dv->vci.viewType == v.type, "view: " + at + " refers to another range or type of its image, not " + w.showView( e.view ) );
				c.check( d.layout == e.layout, pbt::fmt( "image layout: %s has %s", at.c_str(), layoutName( d.layout ).c_str() ) );
				if ( e.sampler )
				{
					auto s = w.dev->find( d.sampler, sim::Ty::Sampler );
					c.check( s && s->alive, "sampler: " + at + " has no live sampler" );
					auto & i = s->sci;
					auto & x = *e.sampler;
					c.check( i.magFilter == x.magFilter && i.minFilter == x.minFilter && i.mipmapMode == x.mipmapMode && i.addressModeU == x.addressModeU && i.addressModeV == x.addressModeV && i.addressModeW == x.addressModeW
						&& i.mipLodBias == x.mipLodBias && i.minLod == x.minLod && i.maxLod == x.maxLod, "sampler: " + at + " is sampled differently than declared" );
				}
			}
			else if ( e.bufferView )
				c.check( d.bufferView == e.bufferView, "buffer view: " + at + " refers to another view" );
			else
			{
				c.check( d.buffer == e.buffer, pbt::fmt( "buffer: %s refers to %s instead of %s", at.c_str(), w.dev->show( d.buffer ).c_str(), w.dev->show( e.buffer ).c_str() ) );
				c.check( d.offset == e.offset && d.range == e.range, pbt::fmt( "range: %s refers to %llu+%llu instead of %llu+%llu", at.c_str(), (unsigned long long)d.offset, (unsigned long long)d.range, (unsigned long long)e.offset, (unsigned long long)e.range ) );
			}
		}
		// a set written for one index is of no use to another one
		auto & mine = seen.sets[w.mark( p, "" )];
		for ( auto & [i, s] : mine )
			if ( i != p.index ) c.check( s != it->second, pbt::fmt( "set: %s uses the set of index %u", who.c_str(), i ) );
		mine[p.index] = it->second;
		++seen.draws;
		seen.bound += exp.size();
	}

	void look( pbt::Case & c, World & w, Graph & g, Seen & seen )
	{
		auto & cmds = w.commands( g );
		for ( auto & s : chk::spans( w, g ) )
		{
			auto & p = *s.p;
			if ( p.kind != PK::Compute && p.kind != PK::Quad && p.kind != PK::Mesh ) continue;
			auto who = pbt::fmt( "p%u (%s) [index %u of %u]", p.id, name( p.kind ), p.index, p.maxPassCount );
			uint64_t layout{}, pipeline{};
			std::map< int64_t, uint64_t > sets;
			size_t n = 0u;
			for ( size_t i = s.begin; i < s.end; ++i )
			{
				auto & cmd = cmds[i];
				switch ( cmd.k )
				{
				case sim::CK::BindPipeline:
					pipeline = cmd.h[0];
					break;
				case sim::CK::BindSets:
					c.check( cmd.a[0] == ( p.kind == PK::Compute ? VK_PIPELINE_BIND_POINT_COMPUTE : VK_PIPELINE_BIND_POINT_GRAPHICS ), "set: " + who + " binds its set to the wrong bind point" );
					layout = cmd.h[0];
					for ( size_t j = 1u; j < cmd.h.size(); ++j ) sets[cmd.a[1] + int64_t( j ) - 1] = cmd.h[j];
					break;
				case sim::CK::Dispatch: case sim::CK::DispatchIndirect: case sim::CK::Draw: case sim::CK::DrawIndexed: case sim::CK::DrawIndirect: case sim::CK::DrawIndexedIndirect:
					++n;
					execution( c, w, p, layout, sets, pipeline, who, seen );
					break;
				default:
					break;
				}
			}
			c.check( n >= 1u, "execution: " + who + " draws or dispatches nothing" );
		}
		w.require( { "descriptor" } );
	}

	void configure( pbt::Case & c, World & w, Graph & g )
	{
		auto & t = c.t;
		for ( auto & p : g.passes )
		{
			for ( uint32_t i = t.count( 0u, 3u, 40 ); i > 0u; --i ) p->extraLayouts.push_back( sim::as< VkDescriptorSetLayout >( w.dev->makeExternal( sim::Ty::SetLayout, "extra" ) ) );
			for ( uint32_t i = t.count( 0u, 3u, 40 ); i > 0u; --i ) p->pushConstants.push_back( { VkShaderStageFlags( 1u << t.below( 6u ) ), 4u * t.below( 8u ), 4u * t.range( 1u, 8u ) } );
		}
	}

	void reset( pbt::Case & c, World & w, Graph & g )
	{
		auto & t = c.t;
		auto & p = *g.passes[t.below( uint32_t( g.passes.size() ) )];
		if ( !p.enabled || !( p.resettable || p.kind == PK::Quad || p.kind == PK::Mesh ) ) return;
		w.dev->completeAll();
		if ( auto q = dynamic_cast< crg::RenderQuad * >( p.rp ) ) q->resetPipeline( {}, p.index );
		else if ( auto m = dynamic_cast< crg::RenderMesh * >( p.rp ) ) m->resetPipeline( {}, p.index );
		else if ( auto cp = dynamic_cast< crg::ComputePass * >( p.rp ) ) cp->resetPipeline( {}, p.index );
		else return;
		c.note( "pipeline reset" );
	}

	void run( pbt::Case & c, Opts o )
	{
		World w{ c, o };
		w.genImages();
		w.genBuffers();
		auto & g = w.genGraph( "G" );
		configure( c, w, g );
		c.sample = w.describe();
		if ( c.verbose ) fprintf( stderr, "%s", c.sample.c_str() );
		w.build( g );
		w.compile( g );
		Seen seen;
		for ( uint32_t f = 0u; f < w.o.frames; ++f )
		{
			w.setFrame( g, f );
			w.run( g );
			chk::trace( c, w, g, f );
			look( c, w, g, seen );
			if ( c.t.chance( 20 ) ) reset( c, w, g );
		}
		chk::noteKinds( c, w );
		for ( auto & p : g.passes ) for ( auto & a : p->buffers ) if ( a.isView ) c.note( std::string( "buffer view " ) + name( a.k ) );
		size_t several = 0u;
		for ( auto & [p, sets] : seen.sets ) several += sets.size() >= 2u;
		if ( several ) c.note( "several sets of one pass" );
		if ( seen.draws >= 2u && seen.bound >= 3u ) c.nt( c.sample );
	}
}
PBT_CHECK( "C12", "frames", 20000, 200000, "at least 2 draws or dispatches with at least 3 bound attachments" )
{
	auto o = chk::family( c, chk::Fam::Any );
	o.kinds = { PK::Compute, PK::Quad, PK::Mesh, PK::Compute, PK::Generic };
	run( c, o );
}
// Few passes with many pass indices, over longer histories.
PBT_CHECK( "C12", "indices", 20000, 200000, "at least 2 draws or dispatches with at least 3 bound attachments" )
{
	Opts o;
	o.kinds = { PK::Compute, PK::Compute, PK::Quad, PK::Mesh };
	o.maxPasses = 3u;
	o.maxIndex = 6u;
	o.maxImages = 6u;
	o.maxBuffers = 7u;
	o.frames = c.thorough ? 14u : 10u;
	o.resettable = c.t.flag();
	run( c, o );
}
