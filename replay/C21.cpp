#include "common.hpp"
#include "config_parser.hpp"
using namespace rp;
using namespace Seldon::Config;
uint64_t exhaustive_cases()
{
    return 0;
}
// mostly valid values, so that single violations are met
struct Gen
{
    Ctx & c;
    int odds;
    double real( std::initializer_list<double> good, std::initializer_list<double> bad )
    {
        return c.coin( odds ) ? c.pick( bad ) : c.pick( good );
    }
};
void test_case( Ctx & c )
{
    Gen g{ c, (int)c.in( 4, 60 ) };
    double nan = std::nan( "" ), inf = INFINITY;
    SimulationOptions o;
    auto & out                 = o.output_settings;
    out.start_output           = c.coin( g.odds ) ? 0 : c.pick<size_t>( { 1, 2, 1000, SIZE_MAX } );
    out.start_numbering_from   = c.pick<size_t>( { 0, 1, 7, SIZE_MAX } );
    out.output_initial         = c.coin();
    out.print_progress         = c.coin();
    bool ok                    = out.start_output > 0;
    for( auto * x : { &out.n_output_agents, &out.n_output_network } )
        if( c.coin() )
        {
            *x = c.coin( g.odds ) ? 0 : c.pick<size_t>( { 1, 2, 10, SIZE_MAX } );
            ok = ok && **x > 0;
        }
    o.network_settings.n_agents      = c.pick<size_t>( { 0, 1, 200 } );
    o.network_settings.n_connections = c.pick<size_t>( { 0, 1, 200 } );
    int which                        = (int)c.in( 0, 3 );
    c.say( "start_output=", out.start_output, " n_output_agents=", out.n_output_agents.value_or( 4711 ), " n_output_network=", out.n_output_network.value_or( 4711 ) );
    auto limit = [&]( auto & s ) {
        if( c.coin() )
            s.max_iterations = c.pick( { 0, 1, -1, 1000 } );
    };
    auto activity = [&]( ActivityDrivenSettings & s ) {
        limit( s );
        s.dt                = g.real( { 0.01, 1, inf, 1e-300 }, { 0, -1, nan, -0.0, -1e-300 } );
        s.m                 = c.coin( g.odds ) ? c.pick( { -1, -100 } ) : c.pick( { 0, 1, 10 } );
        s.eps               = g.real( { 0.01, 1, 2, 1e-300 }, { 0, -1, nan } );
        s.gamma             = g.real( { 2.1, 3, 2.0000001, 100 }, { 2, 1.99, 0, -3, nan } );
        s.alpha             = g.real( { 0, 3, 1e-9 }, { -1e-9, -1, nan } );
        s.homophily         = c.pick( { 0.5, 0.0, -1.0 } );
        s.reciprocity       = g.real( { 0, 0.5, 1, 2 }, { -0.1, nan, -1 } );
        s.K                 = c.pick( { 3.0, 0.0, -1.0 } );
        s.mean_activities   = c.coin();
        s.mean_weights      = c.coin();
        s.use_reluctances   = c.coin();
        s.reluctance_mean   = g.real( { 1, 0.1, 5 }, { 0, -1, nan } );
        s.reluctance_sigma  = g.real( { 1, 0.1, 5 }, { 0, -1, nan } );
        s.reluctance_eps    = g.real( { 1, 0.1, 5 }, { 0, -1, nan } );
        s.covariance_factor = g.real( { 0, 1, -1, 0.5 }, { 1.0001, -1.0001, 5, nan } );
        s.n_bots            = c.pick<size_t>( { 0, 0, 1, 2, 3 } );
        auto len            = [&] { return c.coin( g.odds ) && s.n_bots ? (size_t)c.in( 0, (long long)s.n_bots - 1 ) : s.n_bots + (size_t)c.in( 0, 2 ); };
        s.bot_m.assign( len(), 1 );
        s.bot_activity.assign( len(), 1 );
        s.bot_opinion.assign( len(), 1 );
        s.bot_homophily.assign( len(), 1 );
        c.say( " dt=", s.dt, " m=", s.m, " eps=", s.eps, " gamma=", s.gamma, " alpha=", s.alpha, " reciprocity=", s.reciprocity, " reluctances=", s.use_reluctances,
               "(", s.reluctance_mean, ",", s.reluctance_sigma, ",", s.reluctance_eps, ") covariance=", s.covariance_factor, " bots=", s.n_bots, " of ", s.bot_m.size(),
               ",", s.bot_activity.size(), ",", s.bot_opinion.size(), ",", s.bot_homophily.size() );
        ok = ok && s.dt > 0 && s.m >= 0 && s.eps > 0 && s.gamma > 2 && s.alpha >= 0 && s.reciprocity >= 0 && s.reluctance_mean > 0 && s.reluctance_sigma > 0
             && s.reluctance_eps > 0 && s.covariance_factor >= -1 && s.covariance_factor <= 1 && s.bot_m.size() >= s.n_bots && s.bot_activity.size() >= s.n_bots
             && s.bot_opinion.size() >= s.n_bots && s.bot_homophily.size() >= s.n_bots;
    };
    if( which == 0 )
    {
        DeGrootSettings s;
        limit( s );
        s.convergence_tol = g.real( { 0, 1e-6, 1, inf }, { -1e-9, -1, nan } );
        c.say( " DeGroot convergence=", s.convergence_tol );
        ok               = ok && s.convergence_tol >= 0;
        o.model          = Model::DeGroot;
        o.model_string   = "DeGroot";
        o.model_settings = s;
    }
    else if( which == 1 )
    {
        DeffuantSettings s;
        limit( s );
        s.homophily_threshold = g.real( { 0.2, 1, 5, 1e-9 }, { 0, -1, nan } );
        s.mu                  = g.real( { 0, 1, 0.5 }, { -1e-9, 1.0000001, 2, nan } );
        s.use_network         = c.coin();
        s.use_binary_vector   = c.coin();
        s.dim                 = c.coin( g.odds ) ? c.pick<size_t>( { 0, 2 } ) : s.use_binary_vector ? c.pick<size_t>( { 1, 2, 10 } ) : 1;
        c.say( " Deffuant threshold=", s.homophily_threshold, " mu=", s.mu, " vector=", s.use_binary_vector, " dim=", s.dim );
        ok               = ok && s.homophily_threshold > 0 && s.mu >= 0 && s.mu <= 1 && s.dim > 0 && ( s.dim == 1 || s.use_binary_vector );
        o.model          = Model::DeffuantModel;
        o.model_string   = "Deffuant";
        o.model_settings = s;
    }
    else if( which == 2 )
    {
        ActivityDrivenSettings s;
        c.say( " ActivityDriven" );
        activity( s );
        o.model          = Model::ActivityDrivenModel;
        o.model_string   = "ActivityDriven";
        o.model_settings = s;
    }
    else
    {
        ActivityDrivenInertialSettings s;
        s.friction_coefficient = g.real( { 0, 1, 5 }, { -1e-9, -1, nan } );
        c.say( " Inertial friction=", s.friction_coefficient );
        activity( s );
        ok               = ok && s.friction_coefficient >= 0;
        o.model          = Model::ActivityDrivenInertial;
        o.model_string   = "ActivityDrivenInertial";
        o.model_settings = s;
    }
    bool threw = false;
    std::string what;
    try
    {
        validate_settings( o );
    }
    catch( const std::exception & e )
    {
        threw = true;
        what  = e.what();
    }
    c.check( threw == !ok, threw ? "rejected valid settings: " : "accepted invalid settings", what );
}
