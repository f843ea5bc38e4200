#include "gen.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 4 * 14;
}
void test_case( Ctx & c )
{
    any_agent( c, [&]( auto a ) {
        size_t n = c.idx < exhaustive_cases() ? c.idx / 4 : (size_t)c.in( 1, c.coin( 20 ) ? 60 : 16 );
        double w = c.coin( 4 ) ? 0.0 : c.real( -3, 3 );
        c.say( "n_edge=", n, " weight=", w );
        auto net = Seldon::NetworkGeneration::generate_square_lattice<decltype( a )>( n, w );
        c.check( net.n_agents() == n * n && net.agents.size() == n * n, "number of agents" );
        c.check( net.direction() == decltype( net )::EdgeDirection::Incoming, "direction" );
        for( size_t j = 0; j < n; j++ )
            for( size_t i = 0; i < n; i++ )
            {
                size_t v = i + n * j;
                std::multiset<size_t> want{ ( i + n - 1 ) % n + n * j, ( i + 1 ) % n + n * j,
                                            i + n * ( ( j + n - 1 ) % n ), i + n * ( ( j + 1 ) % n ) };
                auto b = net.get_neighbours( v );
                c.check( std::multiset<size_t>( b.begin(), b.end() ) == want, "neighbours of (", i, ",", j, "): ",
                         str( std::vector<size_t>( b.begin(), b.end() ) ) );
                c.check( net.get_weights( v ).size() == 4, "weights" );
                for( auto x : net.get_weights( v ) )
                    c.check( x == w, "weight ", x );
            }
    } );
}
