#include "net.hpp"
using namespace rp;
template<typename A>
void go( Ctx & c )
{
    using N  = Seldon::Network<A>;
    using D  = typename N::EdgeDirection;
    size_t n = (size_t)c.in( 1, 5 );
    NL a;
    WL w;
    rand_graph( c, n, a, w, 4, c.coin() );
    auto dir = c.coin() ? D::Incoming : D::Outgoing;
    int how  = (int)c.in( 0, 2 );
    c.say( "n=", n, " how=", how, " neighbours=", str( a ), " weights=", str( w ), " edits:" );
    auto a2 = a;
    auto w2 = w;
    N net;
    if( how == 0 )
        net = N( std::move( a2 ), std::move( w2 ), dir );
    else
    {
        if( how == 1 )
            net = N( n );
        else
            net = N( std::vector<A>( n ) );
        dir = D::Incoming;
        c.check( net.n_edges() == 0 && net.n_agents() == n, "a new network has no edges" );
        for( size_t i = 0; i < n; i++ )
            net.set_neighbours_and_weights( i, std::span<const size_t>( a[i] ), std::span<const double>( w[i] ) );
    }
    tag_agents( net );
    auto verify = [&]( const char * after ) {
        agents_kept( c, net, n );
        c.check( net.direction() == dir, "direction after ", after );
        auto x = nb( net );
        auto y = wt( net );
        c.check( x == a, after, ": neighbours are ", str( x ), " instead of ", str( a ) );
        c.check( y == w, after, ": weights are ", str( y ), " instead of ", str( w ) );
        size_t t = 0;
        const N & cn = net;
        for( size_t i = 0; i < n; i++ )
        {
            c.check( net.n_edges( i ) == a[i].size(), after, ": number of edges of ", i );
            t += a[i].size();
            auto p = cn.get_neighbours( i );
            c.check( std::vector<size_t>( p.begin(), p.end() ) == a[i], "const view" );
            auto q = net.get_neighbours( i );
            c.check( std::vector<size_t>( q.begin(), q.end() ) == a[i], "view" );
            auto u = net.get_weights( i );
            c.check( std::vector<double>( u.begin(), u.end() ) == w[i], "weight view" );
        }
        c.check( net.n_edges() == t, after, ": total number of edges" );
    };
    verify( "construction" );
    for( int k = (int)c.in( 1, 6 ); k > 0; k-- )
    {
        size_t i  = (size_t)c.in( 0, (long long)n - 1 );
        size_t m  = (size_t)c.in( 0, 5 );
        size_t m2 = c.coin( 3 ) ? (size_t)c.in( 0, 5 ) : m;
        std::vector<size_t> b;
        std::vector<double> v;
        for( size_t j = 0; j < m; j++ )
            b.push_back( (size_t)c.in( 0, (long long)n - 1 ) );
        for( size_t j = 0; j < m2; j++ )
            v.push_back( c.real( -2, 2 ) );
        int op = (int)c.in( 0, 5 );
        c.say( " [op ", op, " agent ", i, " ", str( b ), " ", str( v ), "]" );
        bool threw = false;
        try
        {
            if( op == 0 )
                net.set_weights( i, std::span<const double>( v ) );
            else if( op == 1 )
                net.set_neighbours_and_weights( i, std::span<const size_t>( b ), std::span<const double>( v ) );
            else if( op == 2 )
                net.set_neighbours_and_weights( i, std::span<const size_t>( b ), 0.75 );
            else if( op == 3 )
                net.push_back_neighbour_and_weight( i, m % n, 1.5 );
            else if( op == 4 )
                for( auto & x : net.get_weights( i ) )
                    x = 9;
            else
                net.clear();
        }
        catch( const std::exception & )
        {
            threw = true;
        }
        if( op == 0 )
        {
            c.check( threw == ( v.size() != a[i].size() ), "set_weights: rejection" );
            if( !threw )
                w[i] = v;
        }
        else if( op == 1 )
        {
            c.check( threw == ( v.size() != b.size() ), "set_neighbours_and_weights: rejection" );
            if( !threw )
                a[i] = b, w[i] = v;
        }
        else
        {
            c.check( !threw, "no error expected" );
            if( op == 2 )
                a[i] = b, w[i].assign( m, 0.75 );
            else if( op == 3 )
                a[i].push_back( m % n ), w[i].push_back( 1.5 );
            else if( op == 4 )
                w[i].assign( w[i].size(), 9 );
            else
                for( size_t j = 0; j < n; j++ )
                    a[j].clear(), w[j].clear();
        }
        const char * names[] = { "set_weights", "set_neighbours_and_weights", "set_neighbours_and_weights(constant)",
                                 "push_back_neighbour_and_weight", "get_weights", "clear" };
        verify( names[op] );
    }
}
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    switch( c.idx % 4 )
    {
    case 0: return go<Seldon::SimpleAgent>( c );
    case 1: return go<Seldon::ActivityAgent>( c );
    case 2: return go<Seldon::InertialAgent>( c );
    default: return go<Seldon::DiscreteVectorAgent>( c );
    }
}
