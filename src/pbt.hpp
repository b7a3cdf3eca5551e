// Property-based-testing runner: registry of generated-input checks, forked workers,
// crash containment, shrinking on the choice tape, replay, evidence.
#pragma once
#include "tape.hpp"
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
	struct Failure { std::string msg; };
	struct Discard {};

	class Case
	{
	public:
		Case( Tape & tp, bool verbose ) : t{ tp }, verbose{ verbose } {}
		Tape & t;
		bool verbose;
		bool thorough{};
		int again{}; // run to reproduce a failure, what depends on the schedule of threads is tried harder: 1 shrinking, 2 confirming or replaying
		std::set< std::string > classes;
		bool nontrivial{};
		uint64_t key{ 1469598103934665603ull };
		std::string sample;

		[[noreturn]] void fail( std::string msg )const { throw Failure{ std::move( msg ) }; }
		void check( bool cond, std::string const & msg )const { if ( !cond ) fail( msg ); }
		void note( std::string c ) { classes.insert( std::move( c ) ); }
		void addKey( std::string const & s ) { for ( unsigned char c : s ) { key ^= c; key *= 1099511628211ull; } }
		void nt( std::string const & k ) { nontrivial = true; addKey( k ); }
		[[noreturn]] void discard() { throw Discard{}; }
	};

	using CaseFn = std::function< void( Case & ) >;

	struct Check
	{
		std::string property;
		std::string name;
		CaseFn fn;
		uint64_t quick;     // cases in the quick tier
		uint64_t thorough;  // cases in the thorough tier
		std::string rule;   // what makes a case non-trivial
	};

	// A fixed scenario reproducing one recorded finding: returns a non empty description
	// when it still reproduces.
	struct Probe
	{
		std::string property;
		std::string key;
		std::function< std::string() > fn;
	};

	std::vector< Check > & checks();
	std::vector< Probe > & probes();
	void declare( char const * property, char const * level );
	struct Reg
	{
		Reg( char const * property, char const * name, CaseFn fn, uint64_t quick, uint64_t thorough, char const * rule )
		{
			checks().push_back( { property, name, std::move( fn ), quick, thorough, rule } );
		}
	};
	struct RegProbe
	{
		RegProbe( char const * property, char const * key, std::function< std::string() > fn )
		{
			probes().push_back( { property, key, std::move( fn ) } );
		}
	};
	std::string fmt( char const * f, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	template< typename T > std::string str( T const & v ) { std::ostringstream s; s << v; return s.str(); }
}

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
#define PBT_CHECK( prop, name, quick, thorough, rule )\
	static void PBT_CAT( check_, __LINE__ )( pbt::Case & c );\
	static pbt::Reg PBT_CAT( reg_, __LINE__ ){ prop, name, PBT_CAT( check_, __LINE__ ), quick, thorough, rule };\
	static void PBT_CAT( check_, __LINE__ )( [[maybe_unused]] pbt::Case & c )
#define PBT_PROBE( prop, key )\
	static std::string PBT_CAT( probe_, __LINE__ )();\
	static pbt::RegProbe PBT_CAT( regp_, __LINE__ ){ prop, key, PBT_CAT( probe_, __LINE__ ) };\
	static std::string PBT_CAT( probe_, __LINE__ )()
