#include "act.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename A>
void run( Ctx & c )
{
    Run<A> r( c, { .min_n = 0, .max_n = 12 } );
    auto & s   = r.st;
    size_t n   = r.n;
    bool too_many = c.coin( 5 );
    if( too_many )
    {
        s.n_bots = n + (size_t)c.in( 1, 3 );
        s.bot_m.assign( s.n_bots, 1 );
        s.bot_activity.assign( s.n_bots, 0.5 );
        s.bot_opinion.assign( s.n_bots, 0.25 );
        s.bot_homophily.assign( s.n_bots, 0.5 );
        c.say( " bots=", s.n_bots );
    }
    bool threw = false;
    try
    {
        r.construct();
    }
    catch( const std::exception & e )
    {
        threw = true;
    }
    c.check( threw == too_many, threw ? "rejected" : "accepted", " ", s.n_bots, " bots among ", n, " agents" );
    if( threw )
        return;
    c.check( r.net.n_agents() == n && r.net.agents.size() == n, "number of agents" );
    // the code's own formula; see known-findings.txt
    double E = std::pow( s.eps, 1 - s.gamma );
    double mean = -( 1 - s.gamma ) / ( 2 - s.gamma ) * std::pow( s.eps, 2 - s.gamma ) / ( 1 - E );
    for( size_t i = 0; i < n; i++ )
    {
        auto & d = r.net.agents[i].data;
        if( i < s.n_bots )
        {
            c.check( d.opinion == s.bot_opinion[i], "bot ", i, " has opinion ", num( d.opinion ) );
            c.check( d.activity == s.bot_activity[i], "bot ", i, " has activity ", num( d.activity ) );
        }
        else
        {
            c.check( d.opinion >= -1 && d.opinion <= 1, "agent ", i, " has opinion ", num( d.opinion ) );
            if( s.mean_activities )
                c.check( near( d.activity, mean ), "agent ", i, " has activity ", num( d.activity ), " instead of the mean ", num( mean ) );
            else
                c.check( d.activity >= s.eps * ( 1 - 1e-12 ) && d.activity <= 1 + 1e-12, "agent ", i, " has activity ", num( d.activity ) );
        }
        if( s.use_reluctances )
            c.check( d.reluctance >= s.reluctance_eps - 1e-9, "agent ", i, " has reluctance ", num( d.reluctance ) );
        else
            c.check( d.reluctance == 1.0, "agent ", i, " has reluctance ", num( d.reluctance ) );
    }
}
void test_case( Ctx & c )
{
    c.coin() ? run<Seldon::ActivityAgent>( c ) : run<Seldon::InertialAgent>( c );
}
