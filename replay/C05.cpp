#include "gen.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    any_agent( c, [&]( auto a ) {
        bool big  = c.coin( 20 );
        size_t n  = (size_t)c.in( 0, big ? 60 : 7 );
        size_t k  = (size_t)c.in( 0, big ? 70 : 9 );
        bool self = c.coin();
        auto g    = stream( c );
        c.say( "n=", n, " k=", k, " self=", self );
        auto net = Seldon::NetworkGeneration::generate_n_connections<decltype( a )>( n, k, self, g );
        c.check( net.n_agents() == n && net.agents.size() == n, "number of agents" );
        c.check( net.direction() == decltype( net )::EdgeDirection::Incoming, "direction" );
        for( size_t i = 0; i < n; i++ )
        {
            auto b = net.get_neighbours( i );
            c.check( b.size() == net.get_weights( i ).size(), "one weight per neighbour" );
            c.check( b.size() == std::min( k, n - 1 ) + self, "agent ", i, " has ", b.size(), " neighbours" );
            std::set<size_t> seen;
            for( auto x : b )
            {
                c.check( x < n, "agent ", i, " neighbour ", x, " out of range" );
                c.check( seen.insert( x ).second, "agent ", i, " neighbour ", x, " twice" );
            }
            c.check( (bool)seen.count( i ) == self, "agent ", i, " is", self ? " not" : "", " its own neighbour" );
            normalised( c, net, i );
        }
        c.check( net.n_edges() == n * ( n ? std::min( k, n - 1 ) + self : 0 ), "number of edges" );
    } );
}
