#include "act.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    using A = Seldon::InertialAgent;
    Run<A> r( c );
    r.construct();
    auto & net = r.net;
    size_t n   = r.n;
    if( r.st.mean_weights && n < 2 )
        return;
    double dt = r.st.dt, fr = r.st.friction_coefficient;
    size_t it = r.model->n_iterations();
    for( int step = (int)c.in( 1, 3 ); step > 0; step-- )
    {
        if( step == 1 || c.coin() )
            r.scramble( c );
        auto x = r.opinions();
        std::vector<double> v;
        for( auto & a : net.agents )
            v.push_back( a.data.velocity );
        auto fixed = fixed_data( net );
        r.model->iteration();
        c.check( r.model->n_iterations() == ++it, "the iteration counter is ", r.model->n_iterations(), " instead of ", it );
        c.check( net.agents.size() == n, "number of agents" );
        c.check( fixed == fixed_data( net ), "activities or reluctances changed" );
        auto f1 = r.slopes( x );
        auto y  = x;
        for( size_t i = 0; i < n; i++ )
            y[i] += v[i] * dt + 0.5 * ( f1[i] - fr * v[i] ) * dt * dt;
        auto f2 = r.slopes( y );
        for( size_t i = 0; i < n; i++ )
        {
            double z = net.agents[i].data.opinion, u = net.agents[i].data.velocity;
            double wu = ( v[i] + dt / 2 * ( f1[i] - fr * v[i] + f2[i] ) ) / ( 1 + fr * dt / 2 );
            if( i < r.st.n_bots )
                c.check( z == r.st.bot_opinion[i], "bot ", i, " has opinion ", num( z ) );
            else
            {
                c.check( near( z, y[i], 1e-8 ), "agent ", i, " has opinion ", num( z ), " instead of ", num( y[i] ) );
                c.check( near( u, wu, 1e-8 ), "agent ", i, " has velocity ", num( u ), " instead of ", num( wu ) );
            }
        }
    }
}
