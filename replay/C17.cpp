#include "act.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename A>
void run( Ctx & c )
{
    Run<A> r( c, { .mean_weights = 1, .min_n = 2, .max_n = 7 } );
    r.construct();
    auto & net = r.net;
    size_t n   = r.n;
    for( int step = (int)c.in( 1, 3 ); step > 0; step-- )
    {
        if( step == 1 || c.coin() )
            r.scramble( c );
        auto x = r.opinions();
        r.model->iteration();
        c.check( net.n_agents() == n, "number of agents ", net.n_agents() );
        WL P( n, std::vector<double>( n ) );
        for( size_t i = 0; i < n; i++ )
        {
            std::vector<double> h( n );
            double sum = 0;
            for( size_t j = 0; j < n; j++ )
            {
                h[j] = i == j ? 0.0 : std::pow( std::max( 1e-10, std::abs( x[i] - x[j] ) ), -r.beta( i ) );
                sum += h[j];
            }
            for( size_t j = 0; j < n; j++ )
            {
                double w = h[j] / sum, p = 0;
                for( int k = 1; k <= r.contacts( i ); k++ )
                    p += ( std::pow( -w, k + 1 ) + w ) / ( w + 1 );
                P[i][j] = std::max( 1.0, net.agents[i].data.activity ) * p;
            }
        }
        bool in = net.direction() == Seldon::Network<A>::EdgeDirection::Incoming;
        c.check( in, "outgoing edges are stored" );
        for( size_t i = 0; i < n; i++ )
        {
            auto e = net.get_neighbours( i );
            auto w = net.get_weights( i );
            std::set<size_t> seen( e.begin(), e.end() );
            c.check( e.size() == n && w.size() == n && seen.size() == n && *seen.rbegin() == n - 1, "agent ", i, " is not linked to everyone" );
            for( size_t k = 0; k < n; k++ )
            {
                size_t j    = e[k];
                double want = P[j][i] + ( 1 - P[j][i] ) * r.st.reciprocity * P[i][j];
                c.check( near( w[k], want, 1e-9 ), "the weight of agent ", i, " from agent ", j, " is ", num( w[k] ), " instead of ", num( want ) );
            }
        }
    }
}
void test_case( Ctx & c )
{
    c.coin() ? run<Seldon::ActivityAgent>( c ) : run<Seldon::InertialAgent>( c );
}
