// What a graph plans, records and ends in, as texts which can be compared between devices.
#pragma once
#include "direct.hpp"
#include <RenderGraph/GraphNode.hpp>

namespace chk
{
	using namespace gg;
	inline void bytes( std::string & out, void const * p, size_t n )
	{
		auto b = static_cast< unsigned char const * >( p );
		for ( size_t i = 0u; i < n; ++i ) { char h[3]; snprintf( h, 3u, "%02x", b[i] ); out += h; }
		out += ',';
	}

	// Command streams with handles numbered in order of appearance (or as they are), and what
	// render passes, framebuffers, pipelines and descriptor sets hold spelled out.
	struct Canon
	{
		sim::Device & dev;
		bool asIs{};
		std::map< uint64_t, uint32_t > ids{};
		std::string out{};

		void num( int64_t v ) { out += std::to_string( v ); out += ','; }
		bool h( uint64_t v )
		{
			if ( !v ) { out += "0,"; return false; }
			if ( asIs ) { out += dev.show( v ) + ","; return false; }
			auto [it, ins] = ids.emplace( v, uint32_t( ids.size() + 1u ) );
			out += std::to_string( v >> 40 ) + "#" + std::to_string( it->second ) + ",";
			return ins;
		}
		void range( VkImageSubresourceRange const & r ) { for ( auto v : { r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount } ) num( v ); }
		void view( uint64_t v )
		{
			if ( !h( v ) ) return;
			if ( auto o = dev.find( v, sim::Ty::View ) ) { out += "(view "; h( sim::u( o->vci.image ) ); num( o->vci.viewType ); num( o->vci.format ); range( o->vci.subresourceRange ); out += ")"; }
		}
		void obj( uint64_t v )
		{
			bool first = h( v );
			auto ty = sim::Ty( v >> 40 );
			auto o = dev.find( v, ty );
			if ( !o ) return;
			switch ( ty )
			{
			case sim::Ty::RenderPass:
				if ( !first ) break;
				for ( auto & a : o->atts ) { out += "(att "; for ( int64_t x : { int64_t( a.format ), int64_t( a.samples ), int64_t( a.loadOp ), int64_t( a.storeOp ), int64_t( a.stencilLoadOp ), int64_t( a.stencilStoreOp ), int64_t( a.initialLayout ), int64_t( a.finalLayout ) } ) num( x ); out += ")"; }
				for ( auto & r : o->colorRefs ) { num( r.attachment ); num( r.layout ); }
				if ( o->hasDepth ) { num( o->depthRef.attachment ); num( o->depthRef.layout ); }
				for ( auto & d : o->deps ) { out += "(dep "; for ( int64_t x : { int64_t( d.srcSubpass ), int64_t( d.dstSubpass ), int64_t( d.srcStageMask ), int64_t( d.dstStageMask ), int64_t( d.srcAccessMask ), int64_t( d.dstAccessMask ), int64_t( d.dependencyFlags ) } ) num( x ); out += ")"; }
				break;
			case sim::Ty::Framebuffer:
				out += "(fb "; num( o->w ); num( o->hgt ); num( o->layers );
				for ( auto x : o->views ) view( x );
				out += ")";
				break;
			case sim::Ty::Pipeline:
				if ( !first ) break;
				out += "(pipeline "; h( o->layout );
				if ( auto l = dev.find( o->layout, sim::Ty::PipelineLayout ) )
				{
					for ( auto x : l->setLayouts )
					{
						h( x );
						if ( auto sl = dev.find( x, sim::Ty::SetLayout ) ) for ( auto & b : sl->binds ) { num( b.binding ); num( b.descriptorType ); num( b.descriptorCount ); num( b.stageFlags ); }
					}
					for ( auto & p : l->pcs ) { num( p.stageFlags ); num( p.offset ); num( p.size ); }
				}
				for ( auto & s : o->stages ) { num( s.stage ); h( s.module ); out += s.entry; }
				for ( auto & x : o->viewports ) bytes( out, &x, sizeof( x ) );
				for ( auto & x : o->scissors ) bytes( out, &x, sizeof( x ) );
				for ( auto & x : o->blends ) bytes( out, &x, sizeof( x ) );
				for ( auto & x : o->vbinds ) bytes( out, &x, sizeof( x ) );
				for ( auto & x : o->vattrs ) bytes( out, &x, sizeof( x ) );
				out += ")";
				break;
			case sim::Ty::DescSet:
				out += "(set ";
				for ( auto & [k, d] : o->descs )
				{
					num( k.first ); num( k.second ); num( d.type );
					if ( d.sampler && h( d.sampler ) )
						if ( auto s = dev.find( d.sampler, sim::Ty::Sampler ) )
							for ( int64_t x : { int64_t( s->sci.minFilter ), int64_t( s->sci.magFilter ), int64_t( s->sci.mipmapMode ), int64_t( s->sci.addressModeU ), int64_t( s->sci.addressModeV ), int64_t( s->sci.addressModeW ), int64_t( s->sci.compareOp ) } ) num( x );
					view( d.view ); h( d.buffer ); h( d.bufferView ); num( d.layout ); num( int64_t( d.offset ) ); num( int64_t( d.range ) );
				}
				out += ")";
				break;
			default: break;
			}
		}
		void cmd( sim::Cmd const & c )
		{
			using K = sim::CK;
			// debug labels hold names; timers alternate between two halves of their queries
			if ( c.k == K::BeginLabel || c.k == K::EndLabel || c.k == K::Timestamp || c.k == K::ResetQuery ) return;
			out += sim::name( c.k ); out += ' ';
			if ( c.k == K::Mark )
			{
				auto col = c.s.find( ':' ), sl = c.s.rfind( '/' );
				out += col == std::string::npos || sl == std::string::npos ? c.s : c.s.substr( 0u, col ) + c.s.substr( sl );
				out += ' ';
			}
			else { out += c.s; out += ' '; }
			size_t nbb = c.bb.size();
			if ( c.k == K::Barrier )
			{
				for ( size_t i = 0u; i < nbb; ++i ) { h( sim::u( c.bb[i].buffer ) ); num( c.bb[i].srcAccessMask ); num( c.bb[i].dstAccessMask ); num( int64_t( c.bb[i].offset ) ); num( int64_t( c.bb[i].size ) ); }
				for ( auto & b : c.ib ) { h( sim::u( b.image ) ); num( b.srcAccessMask ); num( b.dstAccessMask ); num( b.oldLayout ); num( b.newLayout ); range( b.subresourceRange ); }
				for ( auto & b : c.mb ) { num( b.srcAccessMask ); num( b.dstAccessMask ); }
			}
			else for ( auto x : c.h ) obj( x );
			for ( auto x : c.a ) num( x );
			for ( auto & r : c.ranges ) range( r );
			for ( auto & r : c.ic ) bytes( out, &r, sizeof( r ) );
			for ( auto & r : c.ibl ) bytes( out, &r, sizeof( r ) );
			for ( auto & r : c.bc ) { num( int64_t( r.srcOffset ) ); num( int64_t( r.dstOffset ) ); num( int64_t( r.size ) ); }
			for ( auto & r : c.bic ) { num( int64_t( r.bufferOffset ) ); num( r.bufferRowLength ); num( r.bufferImageHeight ); bytes( out, &r.imageSubresource, sizeof( r.imageSubresource ) ); bytes( out, &r.imageOffset, sizeof( r.imageOffset ) ); bytes( out, &r.imageExtent, sizeof( r.imageExtent ) ); }
			for ( auto & v : c.clears ) bytes( out, &v, sizeof( v ) );
			if ( c.k == K::Use ) { h( c.use.image ); range( c.use.range ); num( c.use.layout ); num( c.use.read ); num( c.use.write ); }
			out += '\n';
		}
		std::string stream( std::vector< sim::Cmd > const & cmds )
		{
			out.clear();
			for ( auto & c : cmds ) cmd( c );
			return std::move( out );
		}
	};

	inline std::string finals( World & w, Graph & g )
	{
		std::string r;
		for ( size_t v = 0u; v < w.views.size(); ++v )
		{
			if ( !w.views[v].id.data ) continue;
			auto s = g.fg->getFinalLayoutState( w.views[v].id );
			r += pbt::fmt( "view %zu: %d %x %x\n", v, int( s.layout ), s.state.access, s.state.pipelineStage );
		}
		for ( size_t b = 0u; b < w.bufs.size(); ++b )
		{
			auto s = g.fg->getFinalAccessState( crg::Buffer{ w.bufs[b].vk, w.bufs[b].name } );
			r += pbt::fmt( "buffer %zu: %x %x\n", b, s.access, s.pipelineStage );
		}
		return r;
	}

	inline std::string planned( World & w, Graph & g )
	{
		std::map< crg::FramePass const *, uint32_t > ids;
		for ( auto & p : g.passes ) ids[p->fp] = p->id;
		std::map< crg::ImageViewId, size_t > views;
		auto who = [&]( crg::FramePass const * p ){ auto it = ids.find( p ); return it == ids.end() ? std::string( "-" ) : "p" + std::to_string( it->second ); };
		auto data = [&]( crg::ImageViewId const & v )
		{
			auto [it, ins] = views.emplace( v, views.size() );
			auto & r = v.data->info.subresourceRange;
			return pbt::fmt( "v%zu(%d m%u+%u l%u+%u)", it->second, int( v.data->info.viewType ), r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount );
		};
		auto side = [&]( crg::Attachment const & a ){ return who( a.pass ) + ( a.isImage() ? pbt::fmt( " %d/%d/%u", int( a.isInput() ), int( a.isOutput() ), a.binding ) : pbt::fmt( " b%d/%d/%u", int( a.isInput() ), int( a.isOutput() ), a.binding ) ); };
		std::map< VkBuffer, size_t > bufs;
		for ( size_t b = 0u; b < w.bufs.size(); ++b ) bufs[w.bufs[b].vk] = b;
		std::string r;
		for ( auto & x : g.rg->getTransitions().viewTransitions ) r += data( x.data ) + ": " + side( x.outputAttach ) + " -> " + side( x.inputAttach ) + "\n";
		for ( auto & x : g.rg->getTransitions().bufferTransitions ) r += pbt::fmt( "b%zu: ", bufs[x.data.buffer()] ) + side( x.outputAttach ) + " -> " + side( x.inputAttach ) + "\n";
		std::set< crg::GraphNode const * > seen;
		std::function< void( crg::GraphNode const * ) > walk = [&]( crg::GraphNode const * n )
		{
			if ( !seen.insert( n ).second ) return;
			r += who( crg::getFramePass( *n ) ) + ":";
			for ( auto x : n->getNext() ) r += " " + who( crg::getFramePass( *x ) );
			r += "\n";
			for ( auto x : n->getNext() ) walk( x );
		};
		walk( g.rg->getGraph() );
		return r;
	}

	inline std::string firstDiff( std::string const & a, std::string const & b )
	{
		std::istringstream sa{ a }, sb{ b };
		std::string la, lb;
		while ( true )
		{
			bool ga = bool( std::getline( sa, la ) ), gb = bool( std::getline( sb, lb ) );
			if ( !ga && !gb ) return "(same)";
			if ( !ga ) la = "(nothing)";
			if ( !gb ) lb = "(nothing)";
			if ( la != lb ) return "'" + la + "' then '" + lb + "'";
		}
	}
}
