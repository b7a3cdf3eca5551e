// Choice tape: every random decision of a case is one integer on the tape, so that
// cases shrink and replay by editing integers.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>

namespace pbt
{
	struct Rng
	{
		uint64_t s;
		explicit Rng( uint64_t seed ) : s{ seed } {}
		uint64_t next()
		{
			s += 0x9E3779B97F4A7C15ull;
			uint64_t z = s;
			z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
			z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
			return z ^ ( z >> 31 );
		}
	};

	class Tape
	{
	public:
		// Generating tape.
		explicit Tape( uint64_t seed ) : m_rng{ seed }, m_replay{ false } {}
		// Replaying tape: 0 once exhausted.
		explicit Tape( std::vector< uint32_t > data ) : m_rng{ 0 }, m_data{ std::move( data ) }, m_replay{ true } {}

		// uniform in [0, n)
		uint32_t below( uint32_t n )
		{
			if ( n <= 1u ) return 0u;
			uint32_t v;
			if ( m_replay ) v = m_pos < m_data.size() ? m_data[m_pos] % n : 0u;
			else v = uint32_t( ( ( m_rng.next() >> 32 ) * uint64_t( n ) ) >> 32 );
			if ( m_replay ) { if ( m_pos < m_data.size() ) m_data[m_pos] = v; }
			else { m_data.push_back( v ); if ( m_mirror && m_data.size() + 1u < m_cap ) { m_mirror[m_data.size()] = v; m_mirror[0] = uint32_t( m_data.size() ); } }
			++m_pos;
			return v;
		}
		// uniform in [lo, hi]
		uint32_t range( uint32_t lo, uint32_t hi ) { return lo + below( hi - lo + 1u ); }
		bool flag() { return below( 2u ) != 0u; }
		// true with probability pct/100; 0 on the tape means false
		bool chance( uint32_t pct ) { return below( 100u ) >= 100u - pct; }
		template< typename C > auto const & pick( C const & c ) { return c[below( uint32_t( c.size() ) )]; }
		template< typename T > T pick( std::initializer_list< T > c ) { return *( c.begin() + below( uint32_t( c.size() ) ) ); }
		// geometric-ish small count in [lo,hi]
		uint32_t count( uint32_t lo, uint32_t hi, uint32_t pct = 60u )
		{
			uint32_t r = lo;
			while ( r < hi && chance( pct ) ) ++r;
			return r;
		}

		std::vector< uint32_t > const & data()const { return m_data; }
		size_t pos()const { return m_pos; }
		// copy every generated choice into shared memory, so that it survives a crash
		void mirror( uint32_t * mem, size_t cap ) { m_mirror = mem; m_cap = cap; }

	private:
		Rng m_rng;
		std::vector< uint32_t > m_data;
		size_t m_pos{};
		bool m_replay;
		uint32_t * m_mirror{};
		size_t m_cap{};
	};
}
