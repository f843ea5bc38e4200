#include "net.hpp"
#include "models/DeffuantModel.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    using Net = Seldon::Network<Seldon::SimpleAgent>;
    Seldon::Config::DeffuantSettings st;
    st.homophily_threshold = c.pick( { 0.2, 0.5, 1.0, 1e-3, 3.0 } );
    st.mu                  = c.pick( { 0.0, 0.5, 0.25, 1.0, c.real( 0, 1 ) } );
    st.use_network         = c.coin( 3 );
    size_t k               = (size_t)c.in( 1, 7 );
    size_t n               = st.use_network ? k * k : (size_t)c.in( 0, 40 );
    std::mt19937 gen( (unsigned)c.g() );
    double a = c.real( -2, 2 ), b = c.coin() ? a + c.pick( { 1.0, -1.0 } ) * c.real( 0, 2 * st.homophily_threshold ) : c.real( -2, 2 );
    if( c.coin( 20 ) )
        b = a;
    if( c.coin( 10 ) ) // exactly at the threshold: representable values
        st.homophily_threshold = 0.5, a = (double)c.in( -4, 4 ) / 2, b = a + c.pick( { 0.5, -0.5 } );
    c.say( "threshold=", num( st.homophily_threshold ), " mu=", num( st.mu ), " n=", n, " network=", st.use_network, " a=", num( a ), " b=", num( b ) );
    Net net( n );
    for( auto & x : net.agents )
        x.data.opinion = 77;
    Seldon::DeffuantModel model( st, net, gen );
    model.initialize_agents( (size_t)c.in( 0, 5 ) );
    c.check( net.agents.size() == n, "number of agents" );
    for( size_t i = 0; i < n; i++ )
        c.check( near( net.agents[i].data.opinion, double( i ) / double( n ), 1e-15 ), "initial opinion of ", i, " is ", net.agents[i].data.opinion );
    Seldon::SimpleAgent p, q;
    p.data.opinion = a;
    q.data.opinion = b;
    for( int rep = 0; rep < 3; rep++ )
    {
        a = p.data.opinion, b = q.data.opinion;
        model.update_rule( p, q );
        double a1 = p.data.opinion, b1 = q.data.opinion, d = std::abs( a - b );
        if( d < st.homophily_threshold )
        {
            c.check( near( a1, a + st.mu * ( b - a ) ), "first opinion ", a1, " from ", a, " and ", b );
            c.check( near( b1, b + st.mu * ( a - b ) ), "second opinion ", b1, " from ", b, " and ", a );
            c.check( a1 >= std::min( a, b ) - 1e-12 && a1 <= std::max( a, b ) + 1e-12, "left the interval" );
            c.check( b1 >= std::min( a, b ) - 1e-12 && b1 <= std::max( a, b ) + 1e-12, "left the interval" );
        }
        else
            c.check( a1 == a && b1 == b, "distant agents moved: ", a, ",", b, " to ", a1, ",", b1 );
        c.check( near( a1 + b1, a + b ), "the sum changed" );
        if( c.coin() )
            std::swap( p, q );
    }
}
