#include "io.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename N>
void compare( Ctx & c, const N & n, const NL & a, const WL & w )
{
    c.check( n.n_agents() == a.size() && n.agents.size() == a.size(), n.n_agents(), " agents instead of ", a.size() );
    auto b = nb( n );
    auto v = wt( n );
    for( size_t i = 0; i < a.size(); i++ )
    {
        c.check( b[i] == a[i], "agent ", i, " has neighbours ", str( b[i] ), " instead of ", str( a[i] ) );
        c.check( v[i] == w[i], "agent ", i, " has weights ", str( v[i] ), " instead of ", str( w[i] ) );
    }
}
template<typename A>
void run( Ctx & c )
{
    using N  = Seldon::Network<A>;
    size_t n = (size_t)c.in( 0, c.coin( 10 ) ? 120 : 6 );
    NL a;
    WL w;
    rand_graph( c, n, a, w, c.coin( 10 ) ? 40 : 4 );
    if( c.coin( 3 ) )
        for( auto k : { n - 1, (size_t)0 } )
            if( n > 0 && c.coin() )
                a[k].clear(), w[k].clear();
    for( auto & r : w )
        for( auto & x : r )
            x = any_double( c );
    c.say( "neighbours=", str( a ), " weights=", str( w ) );
    std::string f = c.dir + "/network.txt";
    N net( NL( a ), WL( w ), c.coin() ? N::EdgeDirection::Incoming : N::EdgeDirection::Outgoing );
    if( c.coin( 3 ) )
        write_file( f, std::string( 100000, 'x' ) ); // earlier content must not matter
    Seldon::network_to_file( net, f );
    compare( c, Seldon::NetworkGeneration::generate_from_file<A>( f ), a, w );
    // the same network in other words
    std::string s;
    auto comment = [&] {
        while( c.coin( 3 ) )
            s += c.pick( { "# 1, 2, 3\n", "#\n", "# a comment, with a comma\n", "#,,\n" } );
    };
    comment();
    for( size_t i = 0; i < n; i++ )
    {
        s += blanks( c ) + std::to_string( i ) + blanks( c ) + "," + blanks( c ) + std::to_string( a[i].size() );
        for( size_t x : a[i] )
            s += blanks( c ) + "," + blanks( c ) + std::to_string( x );
        for( double x : w[i] )
            s += blanks( c ) + "," + blanks( c ) + num( x );
        s += blanks( c );
        if( i + 1 < n || c.coin() )
            s += "\n";
        else
            break;
        comment();
    }
    c.say( " file=\"", s.substr( 0, 400 ), "\"" );
    write_file( f, s );
    compare( c, Seldon::NetworkGeneration::generate_from_file<A>( f ), a, w );
    Seldon::network_to_dot_file( net, f );
    std::istringstream in( read_file( f ) );
    std::string line;
    std::getline( in, line );
    c.check( line.find( "digraph" ) != std::string::npos, "the DOT file starts with ", line );
    for( size_t i = 0; i < n; i++ )
    {
        std::getline( in, line );
        std::vector<size_t> num;
        for( size_t p = 0; p < line.size(); )
            if( isdigit( line[p] ) )
            {
                size_t q = p;
                while( q < line.size() && isdigit( line[q] ) )
                    q++;
                num.push_back( std::stoul( line.substr( p, q - p ) ) );
                p = q;
            }
            else
                p++;
        std::vector<size_t> want{ i };
        want.insert( want.end(), a[i].begin(), a[i].end() );
        c.check( num == want, "line ", i, " of the DOT file is ", line );
    }
    std::getline( in, line );
    c.check( line == "}", "the DOT file ends with ", line );
}
void test_case( Ctx & c )
{
    c.coin() ? run<Seldon::SimpleAgent>( c ) : run<Seldon::DiscreteVectorAgent>( c );
}
