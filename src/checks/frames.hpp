// Shared by the checks that record and run generated graphs.
#pragma once
#include "../gg.hpp"
#include <algorithm>
#include <cstring>

namespace chk
{
	using namespace gg;

	inline void trace( pbt::Case & c, World & w, Graph & g, uint32_t f )
	{
		if ( !c.verbose ) return;
		fprintf( stderr, "--- %s frame %u\n", g.name.c_str(), f );
		for ( auto & cmd : w.commands( g ) ) fprintf( stderr, "%s\n", sim::dump( cmd ).c_str() );
		for ( auto & v : w.dev->viols ) fprintf( stderr, "!! %s: %s\n", v.cat.c_str(), v.msg.c_str() );
	}

	inline void noteKinds( pbt::Case & c, World & w )
	{
		for ( auto & g : w.graphs )
			for ( auto & p : g->passes )
			{
				c.note( std::string( "pass " ) + name( p->kind ) );
				for ( auto & a : p->images ) c.note( std::string( "image " ) + name( a.k ) );
				for ( auto & a : p->buffers ) c.note( std::string( "buffer " ) + name( a.k ) );
				if ( p->maxPassCount > 1u ) c.note( "several pass indices" );
				if ( std::count( p->enabledAt.begin(), p->enabledAt.end(), false ) ) c.note( "disabled at times" );
			}
	}

	// Position of each mark of a kind in a command stream: "what:graph/id".
	struct Mark { std::string what; std::string pass; size_t pos; std::vector< int64_t > a; };
	inline std::vector< Mark > marks( std::vector< sim::Cmd > const & cmds )
	{
		std::vector< Mark > r;
		for ( size_t i = 0u; i < cmds.size(); ++i )
			if ( cmds[i].k == sim::CK::Mark )
			{
				auto & s = cmds[i].s;
				auto col = s.find( ':' );
				r.push_back( { s.substr( 0u, col ), col == std::string::npos ? "" : s.substr( col + 1u ), i, cmds[i].a } );
			}
		return r;
	}

	struct Span { Pass * p; size_t begin, end; };
	// The part of the stream each enabled pass recorded (between its debug labels), in order.
	inline std::vector< Span > spans( World & w, Graph & g )
	{
		std::vector< Span > r;
		auto & cmds = w.commands( g );
		for ( size_t i = 0u; i < cmds.size(); ++i )
		{
			if ( cmds[i].k != sim::CK::BeginLabel ) continue;
			size_t j = i;
			while ( j < cmds.size() && cmds[j].k != sim::CK::EndLabel ) ++j;
			Pass * p = nullptr;
			// the pass's own mark tells which pass it is
			for ( size_t k = i; k < j && !p; ++k )
				if ( cmds[k].k == sim::CK::Mark && cmds[k].s.rfind( "pass:" + g.name + "/", 0u ) == 0u )
					p = g.passes[size_t( std::stoul( cmds[k].s.substr( 6u + g.name.size() ) ) )].get();
			if ( p ) r.push_back( { p, i, j } );
			i = j;
		}
		return r;
	}

	template< typename F >
	void frames( pbt::Case & c, World & w, Graph & g, F perFrame )
	{
		if ( c.verbose ) fprintf( stderr, "%s", w.describe().c_str() );
		c.sample = w.describe();
		w.build( g );
		w.compile( g );
		for ( uint32_t f = 0u; f < w.o.frames; ++f )
		{
			w.setFrame( g, f );
			w.run( g );
			trace( c, w, g, f );
			perFrame( f );
		}
		noteKinds( c, w );
	}

	// Fails on what the device complained about in a category, when the message starts so.
	inline void requireMsg( pbt::Case & c, World & w, std::string const & cat, std::vector< std::string > const & starts )
	{
		for ( auto & v : w.dev->viols )
			if ( v.cat == cat )
				for ( auto & s : starts )
					if ( v.msg.rfind( s, 0u ) == 0u ) c.fail( cat + ": " + v.msg );
	}

	// Families of graphs the checks on recorded frames draw from.
	enum class Fam { Any, Dense, Long, Chains, Renders };
	inline Opts family( pbt::Case & c, Fam f )
	{
		Opts o;
		switch ( f )
		{
		case Fam::Dense:   // many passes over few images: every image is used over and over
			o.maxImages = 2u; o.maxBuffers = 1u; o.minPasses = 4u; o.maxPasses = c.thorough ? 14u : 10u; break;
		case Fam::Long:    // long histories of toggled passes and changing indices
			o.maxPasses = 5u; o.maxImages = 3u; o.frames = c.thorough ? 12u : 8u; break;
		case Fam::Chains:  // total orders
			o.fullDeps = true; o.maxPasses = 8u; o.maxImages = 2u; break;
		case Fam::Renders:
			o.kinds = { PK::RenderPass, PK::Quad, PK::Mesh, PK::Generic };
			o.maxPasses = 8u; o.maxImages = 3u; break;
		default: break;
		}
		return o;
	}
	// Uses of images by enabled passes, and how many frames there were.
	struct Tally { size_t uses{}, transitions{}, renders{}, frames{}; };
	inline void tally( Tally & t, std::vector< sim::Cmd > const & cmds )
	{
		++t.frames;
		for ( auto & c : cmds )
		{
			if ( c.k == sim::CK::Use ) ++t.uses;
			if ( c.k == sim::CK::Barrier && !c.ib.empty() ) ++t.transitions;
			if ( c.k == sim::CK::BeginRP ) ++t.renders;
		}
	}
	// --- buffers: a last-access model of every byte
	struct Range { VkDeviceSize b, e; };
	struct BufState { VkAccessFlags access; VkPipelineStageFlags stage; };
	inline std::string show( BufState const & s ) { return pbt::fmt( "access 0x%x stage 0x%x", s.access, s.stage ); }

	constexpr VkAccessFlags Writes = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_HOST_WRITE_BIT | VK_ACCESS_MEMORY_WRITE_BIT;

	// One cell: the bytes between two consecutive offsets that appear anywhere.
	struct BufCell
	{
		bool used{};
		BufState last{};                              // previous use
		std::string who;
		std::vector< BufState > src, dst;             // barriers recorded since
	};

	struct BufModel
	{
		pbt::Case & c;
		std::map< uint64_t, std::map< VkDeviceSize, BufCell > > cells; // buffer -> start of cell -> state
		std::map< uint64_t, VkDeviceSize > sizes;
		std::map< uint64_t, BufState > latest;      // latest use or barrier of the buffer
		size_t handovers{}, barriers{};
		explicit BufModel( pbt::Case & c ) : c{ c } {}
		void use( uint64_t buf, Range r, BufState s, std::string const & who )
		{
			latest[buf] = s;
			for ( auto & [start, cell] : cells[buf] )
			{
				if ( start < r.b || start >= r.e ) continue;
				if ( cell.used )
				{
					bool differs = cell.last.access != s.access || cell.last.stage != s.stage;
					bool hazard = ( ( cell.last.access | s.access ) & Writes ) != 0u;
					if ( differs || hazard )
					{
						++handovers;
						auto at = pbt::fmt( "buffer %llu byte %llu, used by %s (%s) then by %s (%s)", (unsigned long long)buf, (unsigned long long)start, cell.who.c_str(), show( cell.last ).c_str(), who.c_str(), show( s ).c_str() );
						if ( cell.src.empty() ) c.fail( "missing: no barrier on " + at );
						auto from = cell.last;
						for ( size_t i = 0u; i < cell.src.size(); ++i )
						{
							if ( cell.src[i].access != from.access || cell.src[i].stage != from.stage ) c.fail( "source: barrier from " + show( cell.src[i] ) + " instead of " + show( from ) + " on " + at );
							from = cell.dst[i];
						}
						if ( from.access != s.access || from.stage != s.stage ) c.fail( "destination: last barrier goes to " + show( from ) + " on " + at );
					}
				}
				cell.used = true;
				cell.last = s;
				cell.who = who;
				cell.src.clear();
				cell.dst.clear();
			}
		}
		void barrier( uint64_t buf, Range r, BufState src, BufState dst )
		{
			++barriers;
			latest[buf] = dst;
			auto it = cells.find( buf );
			if ( it == cells.end() ) return;
			for ( auto & [start, cell] : it->second )
				if ( start >= r.b && start < r.e ) { cell.src.push_back( src ); cell.dst.push_back( dst ); }
		}
	};

	inline Range bufRange( World & w, BAtt const & a, uint32_t index )
	{
		auto size = w.bufs[size_t( a.buf( index ) )].size;
		return Range{ a.offset, a.range == VK_WHOLE_SIZE ? size : std::min( size, a.offset + a.range ) };
	}
	// Cuts the buffers at every offset some pass declares.
	inline void cut( BufModel & m, World & w )
	{
		for ( auto & b : w.bufs ) { m.cells[sim::u( b.vk )][0u]; m.sizes[sim::u( b.vk )] = b.size; }
		for ( auto & g : w.graphs )
			for ( auto & p : g->passes )
				for ( auto & a : p->buffers )
					for ( uint32_t i = 0u; i < p->maxPassCount; ++i )
					{
						auto r = bufRange( w, a, i );
						auto & cells = m.cells[sim::u( w.bufs[size_t( a.buf( i ) )].vk )];
						cells[r.b];
						if ( r.e < w.bufs[size_t( a.buf( i ) )].size ) cells[r.e];
					}
	}
	// Goes through what a graph recorded last.
	inline void feed( BufModel & m, pbt::Case & c, World & w, Graph & g )
	{
		auto & cmds = w.commands( g );
		for ( auto & s : spans( w, g ) )
		{
			bool marked = false;
			for ( size_t i = s.begin; i < s.end; ++i )
			{
				auto & cmd = cmds[i];
				if ( cmd.k == sim::CK::Barrier )
				{
					for ( auto & b : cmd.bb )
					{
						auto buf = sim::u( b.buffer );
						auto att = std::find_if( s.p->buffers.begin(), s.p->buffers.end(), [&]( BAtt const & a ){ return sim::u( w.bufs[size_t( a.buf( s.p->index ) )].vk ) == buf; } );
						c.check( att != s.p->buffers.end(), pbt::fmt( "foreign: pass p%u records a barrier on buffer %llu it does not declare", s.p->id, (unsigned long long)buf ) );
						c.check( !att->noTransition, pbt::fmt( "no transition: pass p%u records a barrier on buffer %llu it declares as needing none", s.p->id, (unsigned long long)buf ) );
						c.check( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "queue: buffer barrier transfers queue ownership" );
						m.barrier( buf, { b.offset, b.size == VK_WHOLE_SIZE ? m.sizes[buf] : b.offset + b.size }, { b.srcAccessMask, VkPipelineStageFlags( cmd.a[0] ) }, { b.dstAccessMask, VkPipelineStageFlags( cmd.a[1] ) } );
					}
				}
				else if ( cmd.k == sim::CK::Fill )
					m.use( cmd.h[0], { VkDeviceSize( cmd.a[0] ), cmd.a[1] == int64_t( VK_WHOLE_SIZE ) ? m.sizes[cmd.h[0]] : VkDeviceSize( cmd.a[0] + cmd.a[1] ) }, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }, pbt::fmt( "the clear of p%u", s.p->id ) );
				else if ( cmd.k == sim::CK::Mark && !marked && cmd.s == w.mark( *s.p, "pass" ) )
				{
					marked = true;
					// BufferCopy makes its own barriers just after: the copy itself is the use.
					if ( s.p->kind == PK::BufferCopy ) continue;
					for ( auto & a : s.p->buffers )
						if ( !a.noTransition )
						{
							auto acc = accessOf( a.k, a.wanted, s.p->isCompute );
							m.use( sim::u( w.bufs[size_t( a.buf( s.p->index ) )].vk ), bufRange( w, a, s.p->index ), { acc.access, acc.stage }, pbt::fmt( "p%u as %s", s.p->id, name( a.k ) ) );
						}
				}
				else if ( cmd.k == sim::CK::CopyBuffer && s.p->kind == PK::BufferCopy )
					for ( auto & a : s.p->buffers )
					{
						auto acc = accessOf( a.k, a.wanted, false );
						m.use( sim::u( w.bufs[size_t( a.buf( s.p->index ) )].vk ), bufRange( w, a, s.p->index ), { acc.access, acc.stage }, pbt::fmt( "copy p%u as %s", s.p->id, name( a.k ) ) );
					}
			}
		}
	}
}
