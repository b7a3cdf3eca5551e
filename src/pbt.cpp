#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
	std::vector< Check > & checks() { static std::vector< Check > v; return v; }
	std::vector< Probe > & probes() { static std::vector< Probe > v; return v; }

	std::string fmt( char const * f, ... )
	{
		char buf[2048];
		va_list ap; va_start( ap, f );
		vsnprintf( buf, sizeof buf, f, ap );
		va_end( ap );
		return buf;
	}
}

using namespace pbt;

namespace
{
	using Clock = std::chrono::steady_clock;
	double since( Clock::time_point t ) { return std::chrono::duration< double >( Clock::now() - t ).count(); }

	uint64_t mix( uint64_t a, uint64_t b ) { Rng r{ a * 0x9E3779B97F4A7C15ull ^ b }; r.next(); return r.next(); }
	uint64_t hashStr( std::string const & s ) { uint64_t h = 1469598103934665603ull; for ( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; } return h; }

	std::string esc( std::string const & s )
	{
		std::string r;
		for ( unsigned char c : s )
		{
			if ( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
			else if ( c == '\n' ) r += "\\n";
			else if ( c == '\t' ) r += "\\t";
			else if ( c < 0x20 || c >= 0x7f ) r += fmt( "\\u%04x", c );
			else r += char( c );
		}
		return r;
	}

	struct Outcome
	{
		bool failed{}, discarded{};
		std::string msg;
	};

	// Runs a case in this process. Exceptions that escape the case function are failures.
	Outcome runHere( Check const & ck, Case & cs )
	{
		Outcome o;
		try { ck.fn( cs ); }
		catch ( Discard const & ) { o.discarded = true; }
		catch ( Failure const & f ) { o.failed = true; o.msg = f.msg; }
		catch ( std::exception const & e ) { o.failed = true; o.msg = std::string( "uncaught exception: " ) + e.what(); }
		return o;
	}

	constexpr long CaseCpuSeconds = 40;
	void armCpu()
	{
		itimerval it{};
		it.it_value.tv_sec = CaseCpuSeconds;
		setitimer( ITIMER_VIRTUAL, &it, nullptr );
	}

	std::string slurp( std::string const & p, size_t maxLen )
	{
		std::ifstream f( p, std::ios::binary );
		std::stringstream ss; ss << f.rdbuf();
		auto s = ss.str();
		if ( s.size() > maxLen ) s = s.substr( 0, maxLen );
		return s;
	}

	std::string crashSummary( std::string const & log, int status )
	{
		std::string how = WIFSIGNALED( status ) ? fmt( "signal %d", WTERMSIG( status ) ) : fmt( "exit %d", WEXITSTATUS( status ) );
		if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGVTALRM ) return fmt( "hang: case used more than %ld s of CPU", CaseCpuSeconds );
		std::istringstream is( log );
		std::string line;
		while ( std::getline( is, line ) )
		{
			if ( line.find( "ERROR: AddressSanitizer" ) != std::string::npos
				|| line.find( "runtime error:" ) != std::string::npos
				|| line.find( "Assertion" ) != std::string::npos
				|| line.find( "terminate called" ) != std::string::npos
				|| line.find( "Error: attempt to" ) != std::string::npos
				|| line.find( "SUMMARY: ThreadSanitizer" ) != std::string::npos )
			{
				// strip pid and addresses
				auto p = line.find( "==" );
				if ( p == 0 ) { auto q = line.find( "==", 2 ); if ( q != std::string::npos ) line = line.substr( q + 2 ); }
				auto a = line.find( " on address" );
				if ( a == std::string::npos ) a = line.find( " on unknown address" );
				if ( a != std::string::npos ) line = line.substr( 0, a );
				return "crash (" + how + "): " + line;
			}
		}
		return "crash (" + how + ")";
	}

	// Runs a tape in a forked child; returns the outcome and the normalised tape.
	Outcome runForked( Check const & ck, bool thorough, std::vector< uint32_t > const & data, std::string const & tmp, std::vector< uint32_t > * norm = nullptr, std::string * detail = nullptr, bool verbose = false, int again = 2 )
	{
		int fd[2];
		if ( pipe( fd ) != 0 ) { perror( "pipe" ); exit( 2 ); }
		std::string log = tmp + "/child.log";
		fflush( stdout ); fflush( stderr );
		pid_t pid = fork();
		if ( pid < 0 ) { perror( "fork" ); exit( 2 ); }
		if ( pid == 0 )
		{
			close( fd[0] );
			if ( !verbose )
			{
				int l = open( log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644 );
				dup2( l, 2 ); dup2( l, 1 );
			}
			armCpu();
			Tape t{ data };
			Case cs{ t, verbose };
			cs.thorough = thorough;
			cs.again = again;
			auto o = runHere( ck, cs );
			std::string out;
			out += o.failed ? 'F' : o.discarded ? 'D' : 'P';
			uint32_t n = uint32_t( std::min( t.data().size(), t.pos() ) );
			out.append( reinterpret_cast< char const * >( &n ), 4 );
			out.append( reinterpret_cast< char const * >( t.data().data() ), size_t( n ) * 4u );
			uint32_t m = uint32_t( o.msg.size() );
			out.append( reinterpret_cast< char const * >( &m ), 4 );
			out += o.msg;
			out += cs.sample;
			size_t off = 0;
			while ( off < out.size() ) { auto w = write( fd[1], out.data() + off, out.size() - off ); if ( w <= 0 ) break; off += size_t( w ); }
			_exit( 0 );
		}
		close( fd[1] );
		std::string in;
		char buf[65536];
		ssize_t r;
		while ( ( r = read( fd[0], buf, sizeof buf ) ) > 0 ) in.append( buf, size_t( r ) );
		close( fd[0] );
		int status = 0;
		waitpid( pid, &status, 0 );
		Outcome o;
		if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && in.size() >= 9 )
		{
			o.failed = in[0] == 'F';
			o.discarded = in[0] == 'D';
			uint32_t n; memcpy( &n, in.data() + 1, 4 );
			if ( norm ) { norm->resize( n ); if ( n ) memcpy( norm->data(), in.data() + 5, size_t( n ) * 4u ); }
			uint32_t m; memcpy( &m, in.data() + 5 + size_t( n ) * 4u, 4 );
			o.msg = in.substr( 9 + size_t( n ) * 4u, m );
			if ( detail ) *detail = in.substr( 9 + size_t( n ) * 4u + m );
			return o;
		}
		if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL )
		{
			fprintf( stderr, "child killed (memory?), not counted as a failure\n" );
			o.discarded = true;
			return o;
		}
		o.failed = true;
		auto l = slurp( log, 100000 );
		o.msg = crashSummary( l, status );
		if ( detail ) *detail = l.substr( 0, 6000 );
		if ( norm ) *norm = data;
		return o;
	}

	std::string category( std::string const & msg )
	{
		auto p = msg.find( ':' );
		auto s = p == std::string::npos ? msg : msg.substr( 0, p );
		return s;
	}

	struct Shared
	{
		volatile int stop;
		volatile int64_t current[64];
	};

	struct Stats
	{
		uint64_t cases{}, discarded{}, nontrivial{};
		std::set< uint64_t > keys;
		std::map< std::string, uint64_t > classes;
		std::vector< std::string > samples;
		bool capped{};
		double wall{};
	};

	struct Found
	{
		bool any{};
		int64_t index{ -1 };
		std::string msg;
		std::vector< uint32_t > tape;
		std::string detail;
		bool unreproduced{};
	};

	void readMsgs( std::string & buf, Stats & st, Found & fd )
	{
		// messages: len(4) type(1) payload
		for ( ;; )
		{
			if ( buf.size() < 5 ) return;
			uint32_t len; memcpy( &len, buf.data(), 4 );
			if ( buf.size() < 5u + len ) return;
			char ty = buf[4];
			std::string p = buf.substr( 5, len );
			buf.erase( 0, 5u + len );
			if ( ty == 'S' )
			{
				uint64_t a[3]; memcpy( a, p.data(), 24 );
				st.cases += a[0]; st.discarded += a[1]; st.nontrivial += a[2];
			}
			else if ( ty == 'K' )
			{
				for ( size_t i = 0; i + 8 <= p.size(); i += 8 ) { uint64_t k; memcpy( &k, p.data() + i, 8 ); st.keys.insert( k ); }
			}
			else if ( ty == 'C' )
			{
				uint64_t n; memcpy( &n, p.data(), 8 );
				st.classes[p.substr( 8 )] += n;
			}
			else if ( ty == 'X' )
			{
				if ( st.samples.size() < 6 ) st.samples.push_back( p );
			}
			else if ( ty == 'F' )
			{
				int64_t idx; memcpy( &idx, p.data(), 8 );
				if ( !fd.any || idx < fd.index ) { fd.any = true; fd.index = idx; fd.msg = p.substr( 8 ); }
			}
		}
	}

	void sendMsg( int fd, char ty, std::string const & p )
	{
		std::string o;
		uint32_t len = uint32_t( p.size() );
		o.append( reinterpret_cast< char const * >( &len ), 4 );
		o += ty;
		o += p;
		size_t off = 0;
		while ( off < o.size() ) { auto w = write( fd, o.data() + off, o.size() - off ); if ( w <= 0 ) _exit( 3 ); off += size_t( w ); }
	}

	void workerMain( Check const & ck, bool thorough, uint64_t seed, uint64_t count, int w, int W, int fd, Shared * sh, double wallLimit )
	{
		auto t0 = Clock::now();
		uint64_t n = 0, d = 0, nt = 0;
		std::set< uint64_t > keys, sent;
		std::map< std::string, uint64_t > classes;
		int samples = 0;
		auto flush = [&]()
		{
			uint64_t a[3]{ n, d, nt };
			sendMsg( fd, 'S', std::string( reinterpret_cast< char * >( a ), 24 ) );
			std::string k;
			for ( auto v : keys ) if ( sent.insert( v ).second ) k.append( reinterpret_cast< char const * >( &v ), 8 );
			sendMsg( fd, 'K', k );
			for ( auto & [c, m] : classes )
			{
				std::string p( reinterpret_cast< char const * >( &m ), 8 );
				sendMsg( fd, 'C', p + c );
			}
			n = d = nt = 0; keys.clear(); classes.clear();
		};
		for ( uint64_t i = uint64_t( w ); i < count; i += uint64_t( W ) )
		{
			if ( sh->stop ) break;
			if ( since( t0 ) > wallLimit ) { sendMsg( fd, 'C', std::string( "\1\0\0\0\0\0\0\0", 8 ) + "!capped" ); break; }
			sh->current[w] = int64_t( i );
			armCpu();
			Tape t{ mix( seed, i ) };
			Case cs{ t, false };
			cs.thorough = thorough;
			auto o = runHere( ck, cs );
			++n;
			if ( o.discarded ) { ++d; continue; }
			for ( auto & c : cs.classes ) ++classes[c];
			if ( cs.nontrivial )
			{
				++nt; keys.insert( cs.key );
				if ( samples < 2 && !cs.sample.empty() ) { ++samples; sendMsg( fd, 'X', cs.sample ); }
			}
			if ( o.failed )
			{
				std::string p( reinterpret_cast< char const * >( &i ), 8 );
				sendMsg( fd, 'F', p + o.msg );
				sh->stop = 1;
				break;
			}
			if ( n >= 256 ) flush();
		}
		flush();
		sh->current[w] = -1;
	}

	bool & fastMode() { static bool v = false; return v; } // stop at the first failure, don't shrink it

	void shrink( Check const & ck, bool thorough, Found & f, std::string const & tmp, double budget )
	{
		auto t0 = Clock::now();
		auto cat = category( f.msg );
		auto cur = f.tape;
		auto attempt = [&]( std::vector< uint32_t > const & cand )
		{
			std::vector< uint32_t > norm;
			std::string detail;
			auto o = runForked( ck, thorough, cand, tmp, &norm, &detail, false, 1 );
			if ( o.failed && category( o.msg ) == cat )
			{
				auto sum = []( std::vector< uint32_t > const & v ) { uint64_t s = 0; for ( auto x : v ) s += x; return s; };
				// prefer the normalised tape when it is smaller
				while ( !norm.empty() && norm.back() == 0u ) norm.pop_back();
				if ( norm.size() < cur.size() || ( norm.size() == cur.size() && sum( norm ) < sum( cur ) ) )
				{
					cur = norm; f.msg = o.msg; f.detail = detail;
					return true;
				}
			}
			return false;
		};
		attempt( cur );
		bool progress = true;
		while ( progress && since( t0 ) < budget )
		{
			progress = false;
			for ( size_t chunk = std::max< size_t >( 1, cur.size() / 2 ); chunk >= 1 && since( t0 ) < budget; chunk /= 2 )
			{
				for ( size_t i = 0; i + chunk <= cur.size() && since( t0 ) < budget; )
				{
					auto cand = cur;
					cand.erase( cand.begin() + long( i ), cand.begin() + long( i + chunk ) );
					if ( attempt( cand ) ) { progress = true; continue; }
					bool nz = std::any_of( cur.begin() + long( i ), cur.begin() + long( i + chunk ), []( uint32_t v ) { return v; } );
					if ( nz )
					{
						cand = cur;
						std::fill( cand.begin() + long( i ), cand.begin() + long( i + chunk ), 0u );
						if ( attempt( cand ) ) { progress = true; }
					}
					i += chunk;
				}
				if ( chunk == 1 ) break;
			}
			for ( size_t i = 0; i < cur.size() && since( t0 ) < budget; ++i )
			{
				uint32_t lo = 0, hi = cur[i];
				while ( lo < hi && since( t0 ) < budget )
				{
					auto cand = cur;
					uint32_t mid = lo + ( hi - lo ) / 2;
					cand[i] = mid;
					if ( attempt( cand ) ) { progress = true; if ( i >= cur.size() ) break; hi = std::min( cur[i], mid ); }
					else lo = mid + 1;
				}
			}
		}
		f.tape = cur;
	}

	bool runCheck( Check const & ck, bool thorough, uint64_t verifSeed, double scale, int W, double wallLimit, std::string const & tmp, Stats & st, Found & f )
	{
		auto t0 = Clock::now();
		uint64_t count = uint64_t( double( thorough ? ck.thorough : ck.quick ) * scale );
		if ( count == 0 ) count = 1;
		uint64_t seed = mix( verifSeed, hashStr( ck.property + "/" + ck.name ) );
		auto sh = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
		sh->stop = 0;
		struct Wk { pid_t pid; int fd; std::string buf; bool open; };
		std::vector< Wk > wks;
		fflush( stdout ); fflush( stderr );
		for ( int w = 0; w < W; ++w )
		{
			int fd[2];
			if ( pipe( fd ) != 0 ) { perror( "pipe" ); exit( 2 ); }
			sh->current[w] = -1;
			pid_t pid = fork();
			if ( pid < 0 ) { perror( "fork" ); exit( 2 ); }
			if ( pid == 0 )
			{
				close( fd[0] );
				for ( auto & o : wks ) close( o.fd );
				std::string log = tmp + "/worker" + str( w ) + ".log";
				int l = open( log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644 );
				dup2( l, 2 ); dup2( l, 1 );
				workerMain( ck, thorough, seed, count, w, W, fd[1], sh, wallLimit );
				_exit( 0 );
			}
			close( fd[1] );
			wks.push_back( { pid, fd[0], {}, true } );
		}
		size_t open_ = wks.size();
		while ( open_ )
		{
			std::vector< pollfd > p;
			for ( auto & w : wks ) if ( w.open ) p.push_back( { w.fd, POLLIN, 0 } );
			poll( p.data(), p.size(), 1000 );
			for ( auto & w : wks )
			{
				if ( !w.open ) continue;
				auto it = std::find_if( p.begin(), p.end(), [&]( pollfd const & x ) { return x.fd == w.fd; } );
				if ( it == p.end() || !( it->revents & ( POLLIN | POLLHUP | POLLERR ) ) ) continue;
				char buf[65536];
				auto r = read( w.fd, buf, sizeof buf );
				if ( r > 0 ) { w.buf.append( buf, size_t( r ) ); readMsgs( w.buf, st, f ); }
				else { close( w.fd ); w.open = false; --open_; }
			}
		}
		bool internal = false;
		for ( int w = 0; w < W; ++w )
		{
			int status = 0;
			waitpid( wks[size_t( w )].pid, &status, 0 );
			if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) continue;
			if ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL ) { fprintf( stderr, "worker killed by the system\n" ); internal = true; continue; }
			int64_t idx = sh->current[w];
			if ( idx < 0 ) { fprintf( stderr, "worker died outside of a case\n" ); internal = true; continue; }
			if ( !f.any || idx < f.index )
			{
				f.any = true; f.index = idx;
				f.msg = crashSummary( slurp( tmp + "/worker" + str( w ) + ".log", 200000 ), status );
			}
		}
		munmap( sh, sizeof( Shared ) );
		if ( st.classes.erase( "!capped" ) ) st.capped = true;
		if ( f.any )
		{
			// Regenerate the tape, confirm it fails three times.
			Tape t{ mix( seed, uint64_t( f.index ) ) };
			// the tape content only exists once the case has run: run it forked with a generating tape
			std::vector< uint32_t > data;
			{
				// shared memory tape so that crashes keep it
				size_t cap = 1u << 22;
				auto mem = static_cast< uint32_t * >( mmap( nullptr, cap * 4u, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
				pid_t pid = fork();
				if ( pid == 0 )
				{
					int l = open( "/dev/null", O_WRONLY ); dup2( l, 1 ); dup2( l, 2 );
					armCpu();
					t.mirror( mem, cap );
					Case cs{ t, false };
					cs.thorough = thorough;
					runHere( ck, cs );
					_exit( 0 );
				}
				int s; waitpid( pid, &s, 0 );
				uint32_t n = mem[0];
				data.assign( mem + 1, mem + 1 + n );
				munmap( mem, cap * 4u );
			}
			f.tape = data;
			int again = 0;
#if defined( __has_feature ) && __has_feature( thread_sanitizer )
			int const tries = 8, wanted = 1; // the schedules are the system's
#else
			int const tries = 3, wanted = 3;
#endif
			for ( int i = 0; i < tries && ( i < 3 || again < wanted ); ++i )
			{
				std::string detail;
				auto o = runForked( ck, thorough, data, tmp, nullptr, &detail );
				if ( o.failed ) { ++again; f.msg = o.msg; f.detail = detail; }
			}
			f.unreproduced = again < wanted;
			if ( !f.unreproduced && !fastMode() )
			{
				// Every failing sub-check gets its share, the first ones the largest.
				static double left = 160.0;
				auto s0 = Clock::now();
				shrink( ck, thorough, f, tmp, std::min( 60.0, left / 2.0 ) );
				left = std::max( 4.0, left - since( s0 ) );
			}
		}
		st.wall += since( t0 );
		return !internal;
	}

	std::string jsonTape( std::vector< uint32_t > const & t )
	{
		std::string s = "[";
		for ( size_t i = 0; i < t.size(); ++i ) s += ( i ? "," : "" ) + str( t[i] );
		return s + "]";
	}

	std::string findStr( std::string const & j, std::string const & k )
	{
		auto p = j.find( "\"" + k + "\"" );
		if ( p == std::string::npos ) return {};
		p = j.find( ':', p );
		p = j.find( '"', p );
		auto q = j.find( '"', p + 1 );
		return j.substr( p + 1, q - p - 1 );
	}

	int replay( std::string const & file, std::string const & tmp )
	{
		auto j = slurp( file, 1u << 26 );
		auto prop = findStr( j, "property" ), name = findStr( j, "check" ), tier = findStr( j, "tier" );
		auto p = j.find( "\"tape\"" );
		p = j.find( '[', p );
		auto q = j.find( ']', p );
		std::vector< uint32_t > data;
		std::stringstream ss( j.substr( p + 1, q - p - 1 ) );
		std::string tok;
		while ( std::getline( ss, tok, ',' ) ) if ( !tok.empty() ) data.push_back( uint32_t( std::stoul( tok ) ) );
		for ( auto & ck : checks() )
		{
			if ( ck.property != prop || ck.name != name ) continue;
			std::string detail;
			auto o = runForked( ck, tier == "thorough", data, tmp, nullptr, &detail, true );
			printf( "%s\n%s\n", o.failed ? ( "FAILED: " + o.msg ).c_str() : o.discarded ? "discarded" : "passed", detail.c_str() );
			return o.failed ? 1 : 0;
		}
		printf( "unknown check %s/%s\n", prop.c_str(), name.c_str() );
		return 2;
	}
}

int main( int argc, char ** argv )
{
	signal( SIGPIPE, SIG_IGN );
	std::string property, tier = "quick", evidence, replays = "/tmp", tmp = "/tmp", known, only, level = "exploration";
	uint64_t seed = 1;
	double scale = 1.0, wall = 200.0;
	int W = 8;
	std::string replayFile;
	bool list = false;
	for ( int i = 1; i < argc; ++i )
	{
		std::string a = argv[i];
		auto next = [&]() { return i + 1 < argc ? std::string( argv[++i] ) : std::string(); };
		if ( a == "--property" ) property = next();
		else if ( a == "--tier" ) tier = next();
		else if ( a == "--seed" ) seed = std::strtoull( next().c_str(), nullptr, 10 );
		else if ( a == "--evidence" ) evidence = next();
		else if ( a == "--replays" ) replays = next();
		else if ( a == "--tmp" ) tmp = next();
		else if ( a == "--known" ) known = next();
		else if ( a == "--only" ) only = next();
		else if ( a == "--scale" ) scale = std::atof( next().c_str() );
		else if ( a == "--wall" ) wall = std::atof( next().c_str() );
		else if ( a == "--workers" ) W = std::atoi( next().c_str() );
		else if ( a == "--level" ) level = next();
		else if ( a == "--replay" ) replayFile = next();
		else if ( a == "--list" ) list = true;
		else if ( a == "--fast" ) fastMode() = true;
	}
	if ( list ) { for ( auto & ck : checks() ) printf( "%s %s %lu %lu\n", ck.property.c_str(), ck.name.c_str(), ck.quick, ck.thorough ); return 0; }
	if ( !replayFile.empty() ) return replay( replayFile, tmp );
	bool thorough = tier == "thorough";
	auto t0 = Clock::now();
	std::string knownText = known.empty() ? std::string{} : slurp( known, 1u << 20 );
	int rc = 0;
	uint64_t violations = 0;
	std::string checksJson, samplesJson, rules;
	Stats total;
	bool any = false, capped = false;
	for ( auto & ck : checks() )
	{
		if ( ck.property != property || ( !only.empty() && ck.name != only ) ) continue;
		if ( fastMode() && rc != 0 ) break;
		any = true;
		Stats st; Found f;
		bool ok = runCheck( ck, thorough, seed, scale, W, wall, tmp, st, f );
		if ( !ok ) rc = std::max( rc, 2 );
		printf( "%s/%s: %lu cases, %lu discarded, %lu non-trivial (%zu distinct), %.1f s%s\n", ck.property.c_str(), ck.name.c_str(), st.cases, st.discarded, st.nontrivial, st.keys.size(), st.wall, st.capped ? " [wall limit reached]" : "" );
		for ( auto & [c, n] : st.classes ) printf( "    %-40s %lu (%.1f%%)\n", c.c_str(), n, 100.0 * double( n ) / double( std::max< uint64_t >( 1, st.cases ) ) );
		if ( f.any )
		{
			if ( f.unreproduced )
			{
				printf( "UNREPRODUCED failure of %s/%s case %ld: %s\n", ck.property.c_str(), ck.name.c_str(), f.index, f.msg.c_str() );
				if ( rc == 0 ) rc = 2;
			}
			else
			{
				++violations;
				std::string path = replays + "/" + property + "-" + ck.name + "-" + str( seed ) + ".json";
				std::ofstream o( path );
				o << "{\"property\":\"" << property << "\",\"check\":\"" << ck.name << "\",\"tier\":\"" << tier << "\",\"message\":\"" << esc( f.msg ) << "\",\n\"tape\":" << jsonTape( f.tape ) << ",\n\"detail\":\"" << esc( f.detail ) << "\"}\n";
				o.close();
				printf( "  %s\n%s\n", f.msg.c_str(), f.detail.substr( 0, 4000 ).c_str() );
				printf( "VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str() );
				rc = 1;
			}
		}
		else if ( st.cases && st.nontrivial == 0 )
		{
			printf( "INTERNAL: %s/%s generated no non-trivial case\n", ck.property.c_str(), ck.name.c_str() );
			if ( rc == 0 ) rc = 2;
		}
		capped |= st.capped;
		total.cases += st.cases; total.discarded += st.discarded; total.nontrivial += st.nontrivial;
		for ( auto k : st.keys ) total.keys.insert( k ^ hashStr( ck.name ) );
		if ( !checksJson.empty() ) checksJson += ",\n  ";
		checksJson += "{\"check\":\"" + ck.name + "\",\"cases\":" + str( st.cases ) + ",\"discarded\":" + str( st.discarded ) + ",\"nontrivial\":" + str( st.nontrivial ) + ",\"distinct_nontrivial\":" + str( st.keys.size() ) + ",\"capped\":" + ( st.capped ? "true" : "false" ) + ",\"wall_s\":" + fmt( "%.2f", st.wall ) + ",\"classes\":{";
		bool first = true;
		for ( auto & [c, n] : st.classes ) { checksJson += ( first ? "" : "," ) + ( "\"" + esc( c ) + "\":" ) + str( n ); first = false; }
		checksJson += "}}";
		rules += ( rules.empty() ? "" : " | " ) + ck.name + ": " + ck.rule;
		for ( size_t i = 0; i < st.samples.size() && i < 3; ++i )
			samplesJson += ( samplesJson.empty() ? "" : ",\n  " ) + ( "\"" + esc( ck.name + ": " + st.samples[i].substr( 0, 1500 ) ) + "\"" );
		fflush( stdout );
	}
	if ( !any ) { fprintf( stderr, "no check for %s\n", property.c_str() ); return 2; }
	std::string probesJson;
	for ( auto & pr : probes() )
	{
		if ( pr.property != property || !only.empty() ) continue;
		std::string key = pr.key;
		Check ck{ pr.property, "probe-" + pr.key, [&pr]( Case & c ) { auto s = pr.fn(); if ( !s.empty() ) c.fail( s ); }, 1, 1, "" };
		std::string detail;
		auto o = runForked( ck, thorough, {}, tmp, nullptr, &detail );
		bool listed = knownText.find( "\"" + pr.key + "\"" ) != std::string::npos;
		probesJson += ( probesJson.empty() ? "" : "," ) + ( "{\"finding\":\"" + pr.key + "\",\"reproduces\":" ) + ( o.failed ? "true" : "false" ) + "}";
		if ( o.failed && listed ) printf( "KNOWN-FINDING: property=%s %s: %s\n", property.c_str(), pr.key.c_str(), o.msg.c_str() );
		else if ( o.failed )
		{
			++violations;
			std::string path = replays + "/" + property + "-probe-" + pr.key + ".json";
			std::ofstream f( path );
			f << "{\"property\":\"" << property << "\",\"check\":\"probe-" << pr.key << "\",\"tier\":\"" << tier << "\",\"message\":\"" << esc( o.msg ) << "\",\"tape\":[],\"detail\":\"" << esc( detail ) << "\"}\n";
			printf( "  %s\n", o.msg.c_str() );
			printf( "VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str() );
			rc = 1;
		}
	}
	if ( !evidence.empty() )
	{
		std::ofstream o( evidence );
		o << "{\"property\":\"" << property << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"" << level << "\",\n"
			<< "\"coverage\":{\"evaluations\":" << total.cases << ",\"distinct_nontrivial\":" << total.keys.size()
			<< ",\"nontrivial\":" << total.nontrivial << ",\"discarded\":" << total.discarded << ",\"capped\":" << ( capped ? "true" : "false" )
			<< ",\n\"rule\":\"" << esc( rules ) << "\",\n\"samples\":[" << samplesJson << "],\n\"checks\":[" << checksJson << "],\n\"findings_probed\":[" << probesJson << "]},\n"
			<< "\"assumptions\":[\"the simulated Vulkan device (src/sim.cpp) implements the Vulkan rules it checks; real drivers are not exercised\",\"generated cases stay in the domain described in DESIGN.md\"],\n"
			<< "\"violations\":" << violations << ",\"wall_s\":" << fmt( "%.2f", since( t0 ) ) << "}\n";
	}
	return rc;
}
