#include "act.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename A>
void run( Ctx & c )
{
    Run<A> r( c, { .mean_weights = 0 } );
    r.construct();
    auto & net = r.net;
    size_t n   = r.n;
    for( int step = (int)c.in( 1, 2 ); step > 0; step-- )
    {
        r.scramble( c );
        r.model->iteration();
        c.check( net.direction() == Seldon::Network<A>::EdgeDirection::Incoming, "outgoing edges are stored" );
        c.check( net.n_agents() == n && net.agents.size() == n, "number of agents ", net.n_agents() );
        auto in = nb( net );
        auto w  = wt( net );
        std::vector<std::set<size_t>> out( n );
        bool below = true;
        for( size_t i = 0; i < n; i++ )
            below = below && (size_t)r.contacts( i ) < n;
        for( size_t i = 0; i < n; i++ )
        {
            c.check( in[i].size() == w[i].size(), "agent ", i, " has ", w[i].size(), " weights for ", in[i].size(), " neighbours" );
            std::set<size_t> seen;
            for( size_t k = 0; k < in[i].size(); k++ )
            {
                c.check( in[i][k] < n, "agent ", i, " has neighbour ", in[i][k] );
                c.check( seen.insert( in[i][k] ).second, "agent ", i, " has neighbour ", in[i][k], " twice" );
                c.check( w[i][k] == 1.0, "agent ", i, " has a weight ", num( w[i][k] ) );
                c.check( in[i][k] != i || !below, "agent ", i, " contacted itself" );
                out[in[i][k]].insert( i );
            }
        }
        for( size_t i = 0; i < n; i++ )
        {
            double a   = net.agents[i].data.activity;
            size_t cap = std::min<size_t>( (size_t)r.contacts( i ), n );
            if( r.st.reciprocity == 0.0 )
            {
                c.check( out[i].empty() || out[i].size() == cap, "agent ", i, " has ", out[i].size(), " outgoing edges instead of 0 or ", cap );
                c.check( a < 1 || out[i].size() == cap, "active agent ", i, " has ", out[i].size(), " outgoing edges instead of ", cap );
                c.check( a > 0 || out[i].empty(), "inactive agent ", i, " has ", out[i].size(), " outgoing edges" );
            }
            c.check( a < 1 || out[i].size() >= cap, "active agent ", i, " has only ", out[i].size(), " outgoing edges" );
            for( size_t j : out[i] )
            {
                c.check( r.st.reciprocity != 1.0 || out[j].count( i ), "edge ", i, " -> ", j, " is not reciprocated" );
                c.check( a > 0 || out[j].count( i ), "edge ", i, " -> ", j, " of an inactive agent does not reciprocate" );
                c.check( a > 0 || net.agents[j].data.activity > 0, "edge ", i, " -> ", j, " between inactive agents" );
            }
        }
    }
}
void test_case( Ctx & c )
{
    c.coin() ? run<Seldon::ActivityAgent>( c ) : run<Seldon::InertialAgent>( c );
}
