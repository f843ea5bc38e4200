#include "gen.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    any_agent( c, [&]( auto a ) {
        using A     = decltype( a );
        size_t n    = (size_t)c.in( 0, c.coin( 20 ) ? 60 : 8 );
        bool random = c.coin();
        double w    = c.coin( 4 ) ? 0.0 : c.real( -3, 3 );
        auto g      = stream( c );
        c.say( "n=", n, random ? " random weights" : " weight=", random ? 0.0 : w );
        auto net = random ? Seldon::NetworkGeneration::generate_fully_connected<A>( n, g )
                          : Seldon::NetworkGeneration::generate_fully_connected<A>( n, w );
        c.check( net.n_agents() == n && net.agents.size() == n, "number of agents" );
        c.check( net.direction() == decltype( net )::EdgeDirection::Incoming, "direction" );
        for( size_t i = 0; i < n; i++ )
        {
            auto b = net.get_neighbours( i );
            c.check( b.size() == n, "agent ", i, " has ", b.size(), " neighbours" );
            c.check( net.get_weights( i ).size() == n, "one weight per neighbour" );
            std::set<size_t> seen( b.begin(), b.end() );
            c.check( seen.size() == n && *seen.begin() == 0 && *seen.rbegin() == n - 1, "agent ", i, " neighbours" );
            if( random )
                normalised( c, net, i );
            else
                for( auto x : net.get_weights( i ) )
                    c.check( x == w, "agent ", i, " weight ", x );
        }
    } );
}
