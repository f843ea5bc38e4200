#include "net.hpp"
#include "models/DeGroot.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    using Net = Seldon::Network<Seldon::SimpleAgent>;
    size_t n  = (size_t)c.in( 0, c.coin( 20 ) ? 30 : 6 );
    NL a;
    WL w;
    rand_graph( c, n, a, w, 4 );
    bool avg = c.coin();
    if( avg )
        for( size_t i = 0; i < n; i++ )
        {
            double s = 0;
            for( auto & x : w[i] )
                s += ( x = c.real( 0, 1 ) + 1e-3 );
            for( auto & x : w[i] )
                x /= s;
        }
    Seldon::Config::DeGrootSettings st;
    int lim = (int)c.in( -1, 3 );
    if( lim >= 0 )
        st.max_iterations = lim;
    st.convergence_tol = c.pick( { 0.0, 1e-3, 0.1, 0.5, 10.0 } );
    c.say( "adjacency=", str( a ), " weights=", str( w ), " tol=", st.convergence_tol, " limit=", lim );
    Net net( NL( a ), WL( w ), c.coin() ? Net::EdgeDirection::Incoming : Net::EdgeDirection::Outgoing );
    auto dir = net.direction();
    for( auto & x : net.agents )
        x.data.opinion = 77;
    Seldon::DeGrootModel model( st, net );
    for( size_t i = 0; i < n; i++ )
        c.check( near( net.agents[i].data.opinion, double( i ) / double( n ) ), "initial opinion of ", i );
    if( c.coin() )
        for( auto & x : net.agents )
            x.data.opinion = c.real( -3, 3 );
    c.check( model.finished() == ( lim == 0 ), "finished before the first iteration" );
    for( int it = 1; it <= 4; it++ )
    {
        std::vector<double> o;
        for( auto & x : net.agents )
            o.push_back( x.data.opinion );
        model.iteration();
        c.check( model.n_iterations() == (size_t)it, "iteration counter" );
        double diff = 0;
        for( size_t i = 0; i < n; i++ )
        {
            double s = 0, lo = 1e300, hi = -1e300;
            for( size_t k = 0; k < a[i].size(); k++ )
                s += w[i][k] * o[a[i][k]];
            for( auto x : o )
                lo = std::min( lo, x ), hi = std::max( hi, x );
            double x = net.agents[i].data.opinion;
            c.check( near( x, s ), "iteration ", it, ": opinion of agent ", i, " is ", x, ", the weighted sum is ", s );
            if( avg && a[i].size() )
                c.check( x >= lo - 1e-9 && x <= hi + 1e-9, "opinion of agent ", i, " left the range" );
            diff = std::max( diff, std::abs( o[i] - x ) );
        }
        if( std::abs( diff - st.convergence_tol ) > 1e-9 || diff == 0 )
            c.check( model.finished() == ( ( lim >= 0 && it >= lim ) || diff < st.convergence_tol ), "finished after iteration ", it,
                     ": ", model.finished(), " with largest change ", diff );
        c.check( nb( net ) == a && wt( net ) == w && net.direction() == dir && net.agents.size() == n, "the network changed" );
        if( c.coin( 4 ) )
            for( auto & x : net.agents )
                x.data.opinion = c.real( -3, 3 );
    }
}
