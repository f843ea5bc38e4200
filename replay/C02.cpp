#include "net.hpp"
using namespace rp;
template<typename A>
void go( Ctx & c )
{
    using N  = Seldon::Network<A>;
    using D  = typename N::EdgeDirection;
    size_t n = (size_t)c.in( 0, c.coin( 6 ) ? 40 : 5 );
    NL a;
    WL w;
    // integer weights: the sums are exact in any order
    rand_graph( c, n, a, w, c.coin( 8 ) ? 60 : c.coin() ? 17 : 4, true );
    if( n > 0 && c.coin( 4 ) )
    {
        auto & r = a[(size_t)c.in( 0, (long long)n - 1 )];
        for( auto & x : r )
            x = (size_t)c.in( 0, 1 ) * ( n - 1 );
    }
    auto dir = c.coin() ? D::Incoming : D::Outgoing;
    c.say( "n=", n, " neighbours=", str( a ), " weights=", str( w ) );
    auto a2 = a;
    auto w2 = w;
    N net( std::move( a2 ), std::move( w2 ), dir );
    tag_agents( net );
    net.remove_double_counting();
    agents_kept( c, net, n );
    c.check( net.direction() == dir, "direction" );
    for( size_t i = 0; i < n; i++ )
    {
        std::map<size_t, double> want;
        for( size_t k = 0; k < a[i].size(); k++ )
            want[a[i][k]] += w[i][k];
        auto b = net.get_neighbours( i );
        auto v = net.get_weights( i );
        c.check( b.size() == v.size(), "one weight per neighbour of ", i );
        c.check( b.size() == want.size(), "agent ", i, ": ", b.size(), " neighbours instead of ", want.size() );
        size_t k = 0;
        for( auto & [j, x] : want )
        {
            c.check( b[k] == j, "agent ", i, " neighbour ", k, " is ", b[k], " instead of ", j );
            c.check( v[k] == x, "agent ", i, " weight of ", j, " is ", v[k], " instead of ", x );
            k++;
        }
    }
}
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    switch( c.idx % 4 )
    {
    case 0: return go<Seldon::SimpleAgent>( c );
    case 1: return go<Seldon::ActivityAgent>( c );
    case 2: return go<Seldon::InertialAgent>( c );
    default: return go<Seldon::DiscreteVectorAgent>( c );
    }
}
