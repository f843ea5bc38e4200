#include "net.hpp"
#include "models/DeffuantModel.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    using Net = Seldon::Network<Seldon::DiscreteVectorAgent>;
    Seldon::Config::DeffuantSettings st;
    size_t dim             = (size_t)c.in( 0, c.coin( 10 ) ? 60 : 6 );
    st.homophily_threshold = c.pick( { 1.0, 2.0, 0.5, 3.0, 100.0, 2.5 } );
    st.mu                  = c.pick( { 0.0, 0.5, 1.0, c.real( 0, 1 ) } );
    st.use_binary_vector   = true;
    st.dim                 = dim;
    size_t n               = (size_t)c.in( 0, 5 );
    std::mt19937 gen( (unsigned)c.g() );
    Seldon::DiscreteVectorAgent p, q;
    bool unequal = c.coin( 8 );
    for( size_t k = 0; k < dim; k++ )
        p.data.opinion.push_back( (int)c.in( 0, 1 ) );
    q.data.opinion = p.data.opinion;
    for( auto & x : q.data.opinion )
        if( c.coin( 3 ) )
            x = 1 - x;
    if( unequal )
        for( long long k = c.in( 1, 3 ); k > 0; k-- )
            ( c.coin() ? p : q ).data.opinion.push_back( (int)c.in( 0, 1 ) );
    c.say( "threshold=", st.homophily_threshold, " mu=", num( st.mu ), " dim=", dim, " n=", n, " a=", str( p.data.opinion ), " b=", str( q.data.opinion ) );
    Net net( n );
    for( auto & x : net.agents )
        x.data.opinion.assign( (size_t)c.in( 0, 8 ), 5 );
    Seldon::DeffuantModelVector model( st, net, gen );
    model.initialize_agents( dim );
    c.check( net.agents.size() == n, "number of agents" );
    for( auto & x : net.agents )
    {
        c.check( x.data.opinion.size() == dim, "dimension of an initial opinion is ", x.data.opinion.size() );
        for( int v : x.data.opinion )
            c.check( v == 0 || v == 1, "initial entry ", v );
    }
    auto a = p.data.opinion, b = q.data.opinion;
    int d  = 0;
    for( size_t k = 0; k < std::min( a.size(), b.size() ); k++ )
        d += a[k] != b[k];
    bool threw = false;
    int dist   = -1;
    try
    {
        dist = Seldon::hamming_distance( std::span( a ), std::span( b ) );
    }
    catch( const std::exception & )
    {
        threw = true;
    }
    c.check( threw == ( a.size() != b.size() ), "hamming_distance ", threw ? "threw" : "accepted unequal lengths" );
    if( !threw )
        c.check( dist == d, "distance ", dist, " instead of ", d );
    threw = false;
    try
    {
        model.update_rule( p, q );
    }
    catch( const std::exception & )
    {
        threw = true;
    }
    c.check( threw == ( a.size() != b.size() ), "update_rule ", threw ? "threw" : "accepted unequal lengths" );
    auto &a1 = p.data.opinion, &b1 = q.data.opinion;
    if( threw || d >= st.homophily_threshold )
    {
        c.check( a1 == a && b1 == b, "opinions changed to ", str( a1 ), " ", str( b1 ) );
        return;
    }
    c.check( a1 == b1, "no agreement: ", str( a1 ), " ", str( b1 ) );
    c.check( a1.size() == a.size(), "dimension changed" );
    for( size_t k = 0; k < a.size(); k++ )
        c.check( a1[k] == a[k] || a1[k] == b[k], "entry ", k, " is ", a1[k] );
}
