#include "act.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    using A = Seldon::ActivityAgent;
    Run<A> r( c );
    r.construct();
    auto & net = r.net;
    size_t n   = r.n;
    if( r.st.mean_weights && n < 2 )
        return;
    size_t it = r.model->n_iterations();
    for( int step = (int)c.in( 1, 3 ); step > 0; step-- )
    {
        if( step == 1 || c.coin() )
            r.scramble( c );
        auto x     = r.opinions();
        auto fixed = fixed_data( net );
        r.model->iteration();
        c.check( r.model->n_iterations() == ++it, "the iteration counter is ", r.model->n_iterations(), " instead of ", it );
        c.check( net.agents.size() == n, "number of agents" );
        c.check( fixed == fixed_data( net ), "activities or reluctances changed" );
        auto at = [&]( const std::vector<double> & k, double f )
        {
            auto y = x;
            for( size_t i = 0; i < n; i++ )
                y[i] += f * k[i];
            return y;
        };
        double dt = r.st.dt;
        auto k1 = r.slopes( x ), k2 = r.slopes( at( k1, dt / 2 ) ), k3 = r.slopes( at( k2, dt / 2 ) ), k4 = r.slopes( at( k3, dt ) );
        for( size_t i = 0; i < n; i++ )
        {
            double y = net.agents[i].data.opinion;
            if( i < r.st.n_bots )
            {
                c.check( y == r.st.bot_opinion[i], "bot ", i, " has opinion ", num( y ) );
                continue;
            }
            double want = x[i] + dt / 6 * ( k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i] );
            c.check( near( y, want, 1e-8 ), "agent ", i, " has opinion ", num( y ), " instead of ", num( want ), " after ", num( x[i] ) );
        }
    }
}
