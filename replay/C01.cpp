#include "net.hpp"
using namespace rp;
template<typename A>
void go( Ctx & c )
{
    using N  = Seldon::Network<A>;
    using D  = typename N::EdgeDirection;
    size_t n = (size_t)c.in( 0, c.coin( 6 ) ? 24 : 5 );
    NL a;
    WL w;
    rand_graph( c, n, a, w, c.coin( 8 ) ? 40 : 4, c.coin() );
    auto dir = c.coin() ? D::Incoming : D::Outgoing;
    std::vector<int> ops;
    for( int k = (int)c.in( 1, 5 ); k > 0; k-- )
        ops.push_back( (int)c.in( 0, 2 ) );
    c.say( "n=", n, " neighbours=", str( a ), " weights=", str( w ), " direction=", dir == D::Incoming ? "in" : "out",
           " ops(0 toggle,1 transpose,2 switch)=", str( ops ) );
    auto a2 = a;
    auto w2 = w;
    N net( std::move( a2 ), std::move( w2 ), dir );
    tag_agents( net );
    size_t total = 0;
    for( auto & x : a )
        total += x.size();
    c.check( net.direction() == dir, "constructed direction" );
    for( int op : ops )
    {
        auto before = edges( net );
        auto d0     = net.direction();
        auto nb0    = nb( net );
        auto wt0    = wt( net );
        if( op == 0 )
            net.toggle_incoming_outgoing();
        else if( op == 1 )
            net.transpose();
        else
            net.switch_direction_flag();
        auto after = edges( net );
        decltype( after ) reversed;
        for( auto & [k, m] : before )
            reversed[std::make_tuple( std::get<1>( k ), std::get<0>( k ), std::get<2>( k ) )] = m;
        agents_kept( c, net, n );
        for( size_t i = 0; i < n; i++ )
            c.check( net.get_neighbours( i ).size() == net.get_weights( i ).size(), "one weight per neighbour of ", i );
        if( op == 0 )
        {
            c.check( net.direction() != d0, "toggle flips the direction" );
            c.check( after == before, "toggle keeps the edges" );
        }
        if( op == 1 )
        {
            c.check( net.direction() == d0, "transpose keeps the direction" );
            c.check( after == reversed, "transpose reverses the edges" );
        }
        if( op == 2 )
        {
            c.check( net.direction() != d0, "switch flips the direction" );
            c.check( nb( net ) == nb0 && wt( net ) == wt0, "switch leaves the lists alone" );
        }
        c.check( net.n_edges() == total, "number of edges" );
    }
}
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    switch( c.idx % 4 )
    {
    case 0: return go<Seldon::SimpleAgent>( c );
    case 1: return go<Seldon::ActivityAgent>( c );
    case 2: return go<Seldon::InertialAgent>( c );
    default: return go<Seldon::DiscreteVectorAgent>( c );
    }
}
