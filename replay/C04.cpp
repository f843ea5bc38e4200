#include "net.hpp"
#include "connectivity.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 1 + 2 + 16 + 512 + 512 * 0; // all graphs with up to three nodes
}
void test_case( Ctx & c )
{
    NL a;
    WL w;
    size_t n;
    if( c.idx < exhaustive_cases() )
    {
        uint64_t x = c.idx;
        n          = x < 1 ? 0 : x < 3 ? 1 : x < 19 ? 2 : 3;
        x -= n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 3 : 19;
        a.assign( n, {} );
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++, x >>= 1 )
                if( x & 1 )
                    a[i].push_back( j );
    }
    else
    {
        n = (size_t)c.in( 1, c.coin( 10 ) ? 40 : 9 );
        rand_graph( c, n, a, w, (int)c.in( 1, 3 ) );
    }
    c.say( "n=", n, " adjacency=", str( a ) );
    std::vector<std::vector<char>> r( n, std::vector<char>( n ) );
    for( size_t i = 0; i < n; i++ )
    {
        r[i][i] = 1;
        for( auto j : a[i] )
            r[i][j] = 1;
    }
    for( size_t k = 0; k < n; k++ )
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
                r[i][j] |= r[i][k] && r[k][j];
    w.assign( n, {} );
    for( size_t i = 0; i < n; i++ )
        w[i].assign( a[i].size(), 1.0 );
    using Net = Seldon::Network<Seldon::SimpleAgent>;
    for( auto dir : { Net::EdgeDirection::Incoming, Net::EdgeDirection::Outgoing } )
    {
        Net net( NL( a ), WL( w ), dir );
        auto s = net.strongly_connected_components();
        std::vector<int> comp( n, -1 );
        for( size_t k = 0; k < s.size(); k++ )
            for( auto v : s[k] )
            {
                c.check( v < n, "node ", v, " does not exist" );
                c.check( comp[v] < 0, "node ", v, " appears twice: ", str( s ) );
                comp[v] = (int)k;
            }
        for( size_t i = 0; i < n; i++ )
        {
            c.check( comp[i] >= 0, "node ", i, " is missing: ", str( s ) );
            for( size_t j = 0; j < n; j++ )
                c.check( ( comp[i] == comp[j] ) == ( r[i][j] && r[j][i] ), "nodes ", i, " and ", j, ": ", str( s ) );
        }
        c.check( nb( net ) == a, "the network changed" );
    }
}
