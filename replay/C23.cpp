#include "sim.hpp"
using namespace rp;
namespace fs = std::filesystem;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename A>
struct State
{
    NL a;
    WL w;
    std::vector<std::string> agents;
    std::map<std::string, std::string> out;
    bool operator==( const State & ) const = default;
};
static void scribble( int pattern )
{
    volatile char x[20000];
    for( auto & y : x )
        y = (char)pattern;
    std::vector<char *> v;
    for( int k = 1; k < 60; k++ )
    {
        v.push_back( (char *)malloc( (size_t)k * 8 ) );
        memset( v.back(), pattern, (size_t)k * 8 );
    }
    for( auto * p : v )
        free( p );
    srand( (unsigned)pattern );
}
// one simulation, built in memory that holds the pattern
template<typename A>
State<A> simulate( Ctx & c, const Seldon::Config::SimulationOptions & o, std::optional<std::string> nf, std::optional<std::string> af, int pattern, const char * out, const Seldon::Config::SimulationOptions * company = nullptr )
{
    Quiet q;
    using S = Seldon::Simulation<A>;
    scribble( pattern );
    std::unique_ptr<char[]> mem( new char[sizeof( S ) + 64] );
    memset( mem.get(), pattern, sizeof( S ) + 64 );
    void * p  = mem.get();
    size_t sp = sizeof( S ) + 64;
    p         = std::align( alignof( S ), sizeof( S ), p, sp );
    S * s     = new( p ) S( o, nf, af );
    State<A> r;
    try
    {
        auto d = fresh_dir( c, out );
        if( company ) // another simulation lives, and runs, at the same time
        {
            S t( *company, nf, af );
            t.run( fs::path( fresh_dir( c, "other" ) ) );
            s->run( fs::path( d ) );
        }
        else
            s->run( fs::path( d ) );
        r.a = nb( s->network ), r.w = wt( s->network );
        for( auto & x : s->network.agents )
            r.agents.push_back( Seldon::agent_to_string( x ) );
        r.out = files( d );
    }
    catch( ... )
    {
        s->~S();
        throw;
    }
    s->~S();
    return r;
}
template<typename A>
void twice( Ctx & c, const Seldon::Config::SimulationOptions & o, size_t dim, bool loaded )
{
    std::optional<std::string> nf, af;
    size_t n = o.network_settings.n_agents;
    if( loaded )
    {
        nf = c.dir + "/net-in.txt", af = c.dir + "/agents-in.txt";
        NL a;
        WL w;
        rand_graph( c, n, a, w, 4 );
        Seldon::Network<A> net( std::move( a ), std::move( w ), Seldon::Network<A>::EdgeDirection::Incoming );
        for( auto & x : net.agents )
            if constexpr( std::is_same_v<A, Seldon::DiscreteVectorAgent> )
                for( size_t k = 0; k < dim; k++ )
                    x.data.opinion.push_back( (int)c.in( 0, 1 ) );
            else
                x.data.opinion = c.real( -1, 1 );
        Seldon::network_to_file( net, *nf );
        Seldon::agents_to_file( net, *af );
    }
    auto x = simulate<A>( c, o, nf, af, 0x00, "out1" );
    if( c.coin() )
    {
        auto other = o;
        other.rng_seed += 1;
        simulate<A>( c, other, nf, af, 0x11, "out2" ); // must leave nothing behind
    }
    auto company = o;
    company.rng_seed += (int)c.in( 0, 1 );
    auto y = simulate<A>( c, o, nf, af, 0xff, "out2", c.coin( 3 ) ? &company : nullptr );
    c.check( x.a == y.a && x.w == y.w, "the networks differ" );
    c.check( x.agents == y.agents, "the agents differ" );
    c.check( x.out == y.out, "the output files differ" );
}
void test_case( Ctx & c )
{
    using namespace Seldon::Config;
    SimulationOptions o;
    o.rng_seed                       = c.coin() ? (int)c.in( -100000, 100000 ) : c.pick( { 0, 1, -1, 42, 2147483646, -2147483647 - 1 } );
    auto & s                         = o.output_settings;
    s.n_output_agents                = (size_t)c.in( 1, 3 );
    s.n_output_network               = (size_t)c.in( 1, 3 );
    int which                        = (int)c.in( 0, 4 ), M = (int)c.in( 0, 6 );
    size_t k                         = (size_t)c.in( 1, 4 ), dim = 1;
    o.network_settings.n_agents      = which == 1 ? k * k : (size_t)c.in( 2, 12 );
    o.network_settings.n_connections = (size_t)c.in( 0, 5 );
    bool loaded                      = c.coin( 3 );
    c.say( "model ", which, " seed=", o.rng_seed, " agents=", o.network_settings.n_agents, " connections=", o.network_settings.n_connections, " limit=", M, loaded ? " files" : "" );
    auto ad = [&]( ActivityDrivenSettings & x ) {
        x.max_iterations    = M;
        x.m                 = (int)c.in( 0, 5 );
        x.mean_weights      = c.coin( 3 );
        x.mean_activities   = c.coin( 3 );
        x.use_reluctances   = c.coin();
        x.covariance_factor = c.pick( { 0.0, 0.5 } );
        x.n_bots            = c.coin() ? 0 : 1;
        x.bot_m.assign( x.n_bots, 2 );
        x.bot_activity.assign( x.n_bots, 0.8 );
        x.bot_opinion.assign( x.n_bots, 0.3 );
        x.bot_homophily.assign( x.n_bots, 0.2 );
        x.eps = c.pick( { 0.01, 0.5 } );
        c.say( " m=", x.m, " mean_weights=", x.mean_weights, " mean_activities=", x.mean_activities, " reluctances=", x.use_reluctances, " bots=", x.n_bots, " eps=", x.eps );
    };
    if( which == 0 )
    {
        DeGrootSettings x{};
        x.max_iterations  = M;
        x.convergence_tol = c.pick( { 0.0, 0.01 } );
        o.model = Model::DeGroot, o.model_settings = x;
        twice<Seldon::SimpleAgent>( c, o, 1, loaded );
    }
    else if( which == 1 || which == 2 )
    {
        DeffuantSettings x;
        x.max_iterations      = M;
        x.use_network         = which == 1;
        x.homophily_threshold = c.pick( { 0.2, 1.0, 3.0 } );
        x.use_binary_vector   = c.coin();
        x.dim = dim = x.use_binary_vector ? (size_t)c.in( 1, 5 ) : 1;
        c.say( " threshold=", x.homophily_threshold, " vector=", x.use_binary_vector, " dim=", dim );
        o.model = Model::DeffuantModel, o.model_settings = x;
        if( x.use_binary_vector )
            twice<Seldon::DiscreteVectorAgent>( c, o, dim, loaded );
        else
            twice<Seldon::SimpleAgent>( c, o, dim, loaded );
    }
    else if( which == 3 )
    {
        ActivityDrivenSettings x;
        ad( x );
        o.model = Model::ActivityDrivenModel, o.model_settings = x;
        twice<Seldon::ActivityAgent>( c, o, 1, loaded );
    }
    else
    {
        ActivityDrivenInertialSettings x;
        ad( x );
        o.model = Model::ActivityDrivenInertial, o.model_settings = x;
        twice<Seldon::InertialAgent>( c, o, 1, loaded );
    }
}
