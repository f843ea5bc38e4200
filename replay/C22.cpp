#include "sim.hpp"
using namespace rp;
namespace fs = std::filesystem;
uint64_t exhaustive_cases()
{
    return 0;
}
struct Log
{
    std::string calls, dir;
    size_t stop = SIZE_MAX; // finished early
    size_t total = 0;
    bool initial_there = false, initial_only = true;
};
template<typename A>
struct Fake : Seldon::Model<A>
{
    Log & log;
    Seldon::Network<A> & net;
    Fake( std::optional<size_t> m, Log & l, Seldon::Network<A> & n ) : Seldon::Model<A>( m ), log( l ), net( n ) {}
    void iteration() override
    {
        if( log.calls.find( 'I' ) == std::string::npos )
        {
            size_t k = 0;
            for( auto & e : fs::directory_iterator( log.dir ) )
                k += e.path().filename().string().size() > 0;
            log.initial_there = k >= 2;
            log.initial_only  = k <= 2;
        }
        log.calls += 'I';
        Seldon::Model<A>::iteration();
        set_tag( net.agents[0], (int)this->n_iterations() + 1000 );
        net.set_weights( 0, std::vector<double>( net.n_edges( 0 ), (double)this->n_iterations() + 2000 ) );
    }
    bool finished() override
    {
        log.calls += 'F';
        if( log.calls.size() > 2000 )
            throw std::runtime_error( "too many iterations" );
        return Seldon::Model<A>::finished() || this->n_iterations() >= log.stop;
    }
};
template<typename A>
void run( Ctx & c )
{
    Seldon::Config::SimulationOptions o;
    if constexpr( std::is_same_v<A, Seldon::SimpleAgent> )
    {
        o.model          = Seldon::Config::Model::DeGroot;
        Seldon::Config::DeGrootSettings s;
        s.convergence_tol = 0;
        o.model_settings = s;
    }
    else
    {
        o.model          = Seldon::Config::Model::ActivityDrivenModel;
        o.model_settings = Seldon::Config::ActivityDrivenSettings();
    }
    o.rng_seed                       = 3;
    o.network_settings.n_agents      = 3;
    o.network_settings.n_connections = 1;
    auto & s                         = o.output_settings;
    auto interval                    = [&]() -> std::optional<size_t> { return c.coin( 3 ) ? std::nullopt : std::optional<size_t>( (size_t)c.in( 1, c.coin( 4 ) ? 40 : 6 ) ); };
    s.n_output_agents                = interval();
    s.n_output_network               = interval();
    s.output_initial                 = c.coin();
    s.start_output                   = (size_t)c.in( 1, 9 );
    s.start_numbering_from           = c.coin() ? 0 : (size_t)c.in( 1, 2000 );
    s.print_progress                 = c.coin( 3 );
    size_t M                         = (size_t)c.in( 0, 16 );
    Log log;
    bool no_limit = c.coin( 4 );
    if( no_limit || c.coin( 3 ) )
        log.stop = (size_t)c.in( 0, 16 );
    size_t last = no_limit ? log.stop : std::min( M, log.stop );
    c.say( "limit=", no_limit ? -1 : (int)M, " finished at ", log.stop, " n_output_agents=", (int)s.n_output_agents.value_or( -1 ), " n_output_network=", (int)s.n_output_network.value_or( -1 ),
           " output_initial=", s.output_initial, " start_output=", s.start_output, " start_numbering_from=", s.start_numbering_from );
    Quiet q;
    Seldon::Simulation<A> sim( o, std::nullopt, std::nullopt );
    sim.model = std::make_unique<Fake<A>>( no_limit ? std::nullopt : std::optional<size_t>( M ), log, sim.network );
    for( int round = c.coin( 4 ) ? 2 : 1; round > 0; round-- )
    {
        log.calls.clear();
        log.dir = fresh_dir( c, "out" );
        set_tag( sim.network.agents[0], 999 );
        sim.run( fs::path( log.dir ) );
        std::string want = "F";
        for( size_t k = 0; k < last; k++ )
            want += "IF";
        c.check( log.calls == want, "calls ", log.calls, " instead of ", want );
        auto f = files( log.dir );
        std::map<std::string, size_t> expect; // file -> iteration
        auto at = [&]( size_t k ) { return std::to_string( k + s.start_numbering_from ) + ".txt"; };
        if( s.output_initial )
            expect["opinions_" + at( 0 )] = expect["network_" + at( 0 )] = 0;
        for( size_t k = 1; k <= last; k++ )
        {
            if( s.n_output_agents && k >= s.start_output && k % *s.n_output_agents == 0 )
                expect["opinions_" + at( k )] = k;
            if( s.n_output_network && k >= s.start_output && k % *s.n_output_network == 0 )
                expect["network_" + at( k )] = k;
        }
        if( last > 0 )
            c.check( s.output_initial ? log.initial_there && log.initial_only : log.initial_only && !log.initial_there, "the initial state is not written before the first iteration as configured" );
        for( auto & [n, k] : expect )
        {
            c.check( f.count( n ), "no file ", n );
            // the state after that iteration
            if( n[0] == 'o' )
                c.check( f[n].find( k ? std::to_string( k + 1000 ) : "999" ) != std::string::npos, n, " does not hold the state after iteration ", k );
            else if( k && sim.network.n_edges( 0 ) )
                c.check( f[n].find( std::to_string( k + 2000 ) ) != std::string::npos, n, " does not hold the network after iteration ", k );
        }
        for( auto & [n, k] : f )
            c.check( expect.count( n ), "unexpected file ", n );
    }
}
// the loop with a real model: never more iterations than the limit, never past convergence
template<typename A>
void real( Ctx & c, const Seldon::Config::SimulationOptions & o, size_t M )
{
    Quiet q;
    Seldon::Simulation<A> a( o, std::nullopt, std::nullopt ), b( o, std::nullopt, std::nullopt );
    size_t k = 0;
    for( ; !b.model->finished(); k++ )
    {
        c.check( k < M, "the model asks for more iterations than its limit" );
        b.model->iteration();
    }
    for( int round = 0; round < ( M == 0 ? 2 : 1 ); round++ )
        a.run( fs::path( fresh_dir( c, "out" ) ) );
    c.check( a.model->n_iterations() <= M, a.model->n_iterations(), " iterations with limit ", M );
    c.check( a.model->n_iterations() == k, a.model->n_iterations(), " iterations, finished after ", k );
}
void real_model( Ctx & c )
{
    using namespace Seldon::Config;
    SimulationOptions o;
    size_t M                         = (size_t)c.in( 0, 12 );
    int which                        = (int)c.in( 0, 3 );
    o.rng_seed                       = (int)c.in( 0, 1000 );
    o.network_settings.n_agents      = (size_t)c.in( 2, 6 );
    o.network_settings.n_connections = (size_t)c.in( 0, 5 );
    o.output_settings.n_output_agents = (size_t)c.in( 1, 4 );
    o.output_settings.print_progress  = c.coin( 3 );
    c.say( "model ", which, " limit=", M, " agents=", o.network_settings.n_agents, " connections=", o.network_settings.n_connections, " seed=", o.rng_seed );
    if( which == 0 )
    {
        DeGrootSettings x;
        x.max_iterations  = (int)M;
        x.convergence_tol = c.pick( { 0.0, 1e-12, 1e-6, 0.05, 10.0 } );
        c.say( " tol=", x.convergence_tol );
        o.model = Model::DeGroot, o.model_settings = x;
        real<Seldon::SimpleAgent>( c, o, M );
    }
    else if( which == 1 )
    {
        DeffuantSettings x;
        x.max_iterations = (int)M;
        o.model = Model::DeffuantModel, o.model_settings = x;
        real<Seldon::SimpleAgent>( c, o, M );
    }
    else if( which == 2 )
    {
        ActivityDrivenSettings x;
        x.max_iterations = (int)M;
        o.model = Model::ActivityDrivenModel, o.model_settings = x;
        real<Seldon::ActivityAgent>( c, o, M );
    }
    else
    {
        ActivityDrivenInertialSettings x;
        x.max_iterations = (int)M;
        o.model = Model::ActivityDrivenInertial, o.model_settings = x;
        real<Seldon::InertialAgent>( c, o, M );
    }
}
void test_case( Ctx & c )
{
    if( c.coin( 3 ) )
        return real_model( c );
    c.coin() ? run<Seldon::SimpleAgent>( c ) : run<Seldon::ActivityAgent>( c );
}
