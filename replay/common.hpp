// Replay / conformance harness: runs numbered cases against the real code in /repo (public interface only).
// usage: prog search SECONDS SEED FIRST STRIDE CASEFILE   |   prog replay SEED CASE
// A case is a function of (seed, number); its description is stored in CASEFILE (shared memory) before it runs, so
// that a crash, a sanitizer report or a hang can be attributed.
#pragma once
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <tuple>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace rp
{
struct Failure
{
    std::string what;
};

struct Shared
{
    uint64_t idx;
    uint64_t done;
    uint64_t checks;
    uint64_t distinct;
    char desc[8192];
};

struct Ctx
{
    uint64_t seed, idx;
    std::mt19937_64 g;
    std::ostringstream d;
    Shared * sh = nullptr;
    std::string dir; // scratch directory of this process

    // uniformly from [a,b]
    long long in( long long a, long long b )
    {
        return a + (long long)( g() % (uint64_t)( b - a + 1 ) );
    }
    bool coin( int k = 2 )
    {
        return g() % k == 0;
    }
    double real( double a, double b )
    {
        return a + ( b - a ) * (double)( g() >> 11 ) * 0x1p-53;
    }
    template<typename T>
    T pick( std::initializer_list<T> l )
    {
        return *( l.begin() + g() % l.size() );
    }
    // the description is published before the code under test runs
    template<typename... A>
    void say( const A &... a )
    {
        ( d << ... << a );
        publish();
    }
    void publish()
    {
        if( sh )
        {
            auto s = d.str();
            size_t n = std::min( s.size(), sizeof( sh->desc ) - 1 );
            memcpy( sh->desc, s.data(), n );
            sh->desc[n] = 0;
        }
    }
    template<typename... A>
    [[noreturn]] void fail( const A &... a )
    {
        std::ostringstream o;
        o.precision( 17 );
        ( o << ... << a );
        throw Failure{ o.str() };
    }
    template<typename... A>
    void check( bool c, const A &... a )
    {
        if( sh )
            sh->checks++;
        if( !c )
            fail( a... );
    }
};

template<typename T>
std::string str( const std::vector<T> & v )
{
    std::ostringstream o;
    o.precision( 17 );
    o << "{";
    for( size_t i = 0; i < v.size(); i++ )
        o << ( i ? "," : "" ) << v[i];
    o << "}";
    return o.str();
}
template<typename T>
std::string str( const std::vector<std::vector<T>> & v )
{
    std::ostringstream o;
    o << "{";
    for( size_t i = 0; i < v.size(); i++ )
        o << ( i ? "," : "" ) << str( v[i] );
    o << "}";
    return o.str();
}
inline std::string num( double x )
{
    char b[64];
    snprintf( b, sizeof b, "%.17g", x );
    return b;
}

// a generator whose next 624 outputs are the given ones (then those of the resulting state)
inline uint32_t untemper( uint32_t y )
{
    y ^= y >> 18;
    y ^= ( y << 15 ) & 0xefc60000u;
    uint32_t r = y;
    for( int i = 0; i < 5; i++ )
        r = y ^ ( ( r << 7 ) & 0x9d2c5680u );
    y = r;
    r = y;
    for( int i = 0; i < 3; i++ )
        r = y ^ ( r >> 11 );
    return r;
}
inline std::mt19937 crafted( const std::vector<uint32_t> & outs )
{
    std::mt19937 base( 4711 );
    std::ostringstream o;
    for( int i = 0; i < 624; i++ )
        o << ( i < (int)outs.size() ? untemper( outs[i] ) : untemper( (uint32_t)base() ) ) << " ";
    o << 0;
    std::mt19937 g;
    std::istringstream is( o.str() );
    is >> g;
    return g;
}
// a stream biased towards the extremes, never giving a real draw of exactly zero
inline std::mt19937 stream( Ctx & c )
{
    switch( c.in( 0, 3 ) )
    {
    case 0: {
        std::vector<uint32_t> o( 624 );
        for( auto & x : o )
            x = c.coin( 4 ) ? 0xffffffffu : c.coin( 4 ) ? 1u : c.coin( 3 ) ? 0x80000000u : (uint32_t)c.g();
        return crafted( o );
    }
    case 1: {
        std::vector<uint32_t> o( 624 );
        uint32_t v = c.coin() ? 0xffffffffu : 1u + (uint32_t)c.in( 0, 5 );
        for( auto & x : o )
            x = v;
        return crafted( o );
    }
    default:
        return std::mt19937( (uint32_t)c.g() );
    }
}

inline volatile Shared * g_sh = nullptr;
inline void on_prof( int )
{
    const char m[] = "\nTIMEOUT: the case does not terminate\n";
    (void)!write( 1, m, sizeof m - 1 );
    _exit( 4 );
}
inline void arm( int secs )
{
    itimerval t{};
    t.it_value.tv_sec = secs;
    setitimer( ITIMER_PROF, &t, nullptr );
}
} // namespace rp

void test_case( rp::Ctx & c );
uint64_t exhaustive_cases(); // cases below this number do not depend on the seed

inline int run_one( rp::Ctx & c )
{
    try
    {
        test_case( c );
        return 0;
    }
    catch( const rp::Failure & f )
    {
        printf( "\nFAIL case=%llu\nINPUT %s\nWHAT %s\n", (unsigned long long)c.idx, c.d.str().c_str(), f.what.c_str() );
    }
    catch( const std::exception & e )
    {
        printf( "\nFAIL case=%llu\nINPUT %s\nWHAT unexpected exception: %s\n", (unsigned long long)c.idx,
                c.d.str().c_str(), e.what() );
    }
    return 1;
}

int main( int argc, char ** argv )
{
    using namespace rp;
    setvbuf( stdout, nullptr, _IOLBF, 0 );
    signal( SIGPROF, on_prof );
    std::string mode = argc > 1 ? argv[1] : "";
    char tmpl[] = "/tmp/seldon-replay-XXXXXX";
    std::string dir;
    const char * given = getenv( "REPLAY_DIR" );
    dir = given ? given : mkdtemp( tmpl );
    auto one = [&]( uint64_t seed, uint64_t idx, Shared * sh ) {
        Ctx c;
        c.seed = seed, c.idx = idx, c.sh = sh, c.dir = dir;
        c.d.precision( 17 );
        c.g.seed( idx < exhaustive_cases() ? idx * 0x9e3779b97f4a7c15ull : ( seed + 1 ) * 0xbf58476d1ce4e5b9ull + idx );
        c.g.discard( 3 );
        if( sh )
        {
            sh->idx = idx;
            sh->desc[0] = 0;
        }
        return run_one( c );
    };
    if( mode == "replay" && argc == 4 )
    {
        arm( 60 );
        int r = one( strtoull( argv[2], 0, 10 ), strtoull( argv[3], 0, 10 ), nullptr );
        puts( r ? "the case fails" : "the case passes" );
        return r;
    }
    if( mode != "search" || argc != 7 )
        return 2;
    double secs = atof( argv[2] );
    uint64_t seed = strtoull( argv[3], 0, 10 ), first = strtoull( argv[4], 0, 10 ), stride = strtoull( argv[5], 0, 10 );
    int fd = open( argv[6], O_RDWR | O_CREAT, 0600 );
    if( fd < 0 || ftruncate( fd, sizeof( Shared ) ) )
        return 2;
    auto * sh = (Shared *)mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    std::unordered_set<uint64_t> seen;
    timeval t0;
    gettimeofday( &t0, nullptr );
    for( uint64_t i = first;; i += stride )
    {
        arm( 30 );
        uint64_t k0 = sh->checks;
        if( one( seed, i, sh ) )
            return 1;
        sh->done++;
        if( sh->checks > k0 && seen.size() < 3000000 && seen.insert( std::hash<std::string_view>{}( sh->desc ) ).second )
            sh->distinct++;
        timeval t;
        gettimeofday( &t, nullptr );
        if( ( t.tv_sec - t0.tv_sec ) + 1e-6 * ( t.tv_usec - t0.tv_usec ) > secs )
            break;
    }
    return 0;
}
