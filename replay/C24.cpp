#include "config_parser.hpp"
#include "io.hpp"
using namespace rp;
using namespace Seldon::Config;
uint64_t exhaustive_cases()
{
    return 0;
}
// writes keys to sections; each is left out now and then
struct Toml
{
    Ctx & c;
    std::map<std::string, std::string> sec;
    int odds;
    bool put( const std::string & s, const std::string & k, const std::string & v )
    {
        if( !sec.count( s ) )
            sec[s] = "";
        if( c.coin( odds ) )
            return false;
        sec[s] += k + " = " + v + "\n";
        return true;
    }
    void real( const std::string & s, const std::string & k, double & x )
    {
        double v = c.coin( 4 ) ? (double)c.in( -3, 9 ) : c.real( -5, 5 );
        if( put( s, k, v == std::floor( v ) && c.coin() ? std::to_string( (long long)v ) : toml( v ) ) )
            x = v;
    }
    template<typename T>
    void integer( const std::string & s, const std::string & k, T & x )
    {
        long long v = c.in( std::is_same_v<T, size_t> ? 0 : -5, c.coin( 5 ) ? 2000000000 : 30 );
        if( put( s, k, std::to_string( v ) ) )
            x = (T)v;
    }
    void boolean( const std::string & s, const std::string & k, bool & x )
    {
        bool v = c.coin();
        if( put( s, k, v ? "true" : "false" ) )
            x = v;
    }
    template<typename T>
    void opt( const std::string & s, const std::string & k, std::optional<T> & x )
    {
        T v = 0;
        x   = std::nullopt;
        long long w = c.in( std::is_same_v<T, size_t> ? 0 : -5, 300 );
        if( put( s, k, std::to_string( w ) ) )
            x = (T)w;
        (void)v;
    }
    static std::string toml( double v )
    {
        auto s = num( v );
        return s.find_first_of( ".e" ) == std::string::npos ? s + ".0" : s;
    }
};
template<typename T>
bool eq( const T & a, const T & b )
{
    return a == b;
}
void test_case( Ctx & c )
{
    Toml t{ c, {}, (int)c.in( 2, 12 ) };
    const char * names[] = { "DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant" };
    Model models[]       = { Model::DeGroot, Model::ActivityDrivenModel, Model::ActivityDrivenInertial, Model::DeffuantModel };
    int which            = (int)c.in( 0, 3 );
    std::string name     = names[which];
    bool unknown = c.coin( 12 ), missing = c.coin( 12 );
    SimulationOptions w;
    t.sec["simulation"] = "";
    if( !missing )
        t.sec["simulation"] += "model = \"" + ( unknown ? std::string( c.pick( { "Degroot", "", "deffuant", "DeffuantVector", "ActivityDriven ", "DeGroot2" } ) ) : name ) + "\"\n";
    bool seeded = false;
    {
        int before = w.rng_seed = -4711;
        t.integer( "simulation", "rng_seed", w.rng_seed );
        seeded = w.rng_seed != before;
    }
    auto & o = w.output_settings;
    t.opt( "io", "n_output_network", o.n_output_network );
    t.opt( "io", "n_output_agents", o.n_output_agents );
    t.boolean( "io", "print_progress", o.print_progress );
    t.boolean( "io", "output_initial", o.output_initial );
    t.integer( "io", "start_output", o.start_output );
    t.integer( "io", "start_numbering_from", o.start_numbering_from );
    t.integer( "network", "number_of_agents", w.network_settings.n_agents );
    t.integer( "network", "connections_per_agent", w.network_settings.n_connections );
    std::optional<int> limit;
    t.opt( "model", "max_iterations", limit );
    DeGrootSettings dg{};
    DeffuantSettings df;
    ActivityDrivenInertialSettings ad;
    // sections of all models are present; only that of the selected one counts
    for( int k = 0; k < 4; k++ )
    {
        DeGrootSettings dg1{};
        DeffuantSettings df1;
        ActivityDrivenInertialSettings ad1;
        std::string s = names[k];
        if( k != which && c.coin() )
            continue;
        if( k == 0 )
            t.real( s, "convergence", dg1.convergence_tol );
        else if( k == 3 )
        {
            t.real( s, "homophily_threshold", df1.homophily_threshold );
            t.real( s, "mu", df1.mu );
            t.boolean( s, "use_network", df1.use_network );
            t.boolean( s, "binary_vector", df1.use_binary_vector );
            t.integer( s, "dim", df1.dim );
        }
        else
        {
            t.real( s, "dt", ad1.dt );
            t.integer( s, "m", ad1.m );
            t.real( s, "eps", ad1.eps );
            t.real( s, "gamma", ad1.gamma );
            t.real( s, "homophily", ad1.homophily );
            t.real( s, "reciprocity", ad1.reciprocity );
            t.real( s, "alpha", ad1.alpha );
            t.real( s, "K", ad1.K );
            t.boolean( s, "mean_activities", ad1.mean_activities );
            t.boolean( s, "mean_weights", ad1.mean_weights );
            t.real( s, "covariance_factor", ad1.covariance_factor );
            t.boolean( s, "reluctances", ad1.use_reluctances );
            t.real( s, "reluctance_mean", ad1.reluctance_mean );
            t.real( s, "reluctance_sigma", ad1.reluctance_sigma );
            t.real( s, "reluctance_eps", ad1.reluctance_eps );
            size_t bots = (size_t)c.in( 0, 4 );
            if( t.put( s, "n_bots", std::to_string( bots ) ) )
                ad1.n_bots = bots;
            auto list = [&]( const char * key, auto & v, auto dflt ) {
                using T = typename std::remove_reference_t<decltype( v )>::value_type;
                std::vector<T> x;
                std::string txt = "[";
                for( long long i = c.in( 0, 5 ); i > 0; i-- )
                {
                    bool whole = std::is_same_v<T, int> || c.coin();
                    double y   = whole ? (double)c.in( -3, 20 ) : c.real( -3, 3 );
                    x.push_back( (T)y );
                    txt += ( txt.size() > 1 ? ", " : "" ) + ( whole ? std::to_string( (long long)y ) : Toml::toml( y ) );
                }
                v = t.put( s, key, txt + "]" ) ? x : std::vector<T>( ad1.n_bots, dflt );
            };
            list( "bot_m", ad1.bot_m, ad1.m );
            list( "bot_opinion", ad1.bot_opinion, 0.0 );
            list( "bot_activity", ad1.bot_activity, 1.0 );
            list( "bot_homophily", ad1.bot_homophily, ad1.homophily );
            if( k == 2 )
                t.real( s, "friction_coefficient", ad1.friction_coefficient );
        }
        if( k == which )
            dg = dg1, df = df1, ad = ad1;
    }
    std::string txt;
    for( auto & [s, v] : t.sec )
        txt += "[" + s + "]\n" + v;
    c.say( txt.size() > 7000 ? "..." : txt );
    std::string f = c.dir + "/conf.toml";
    write_file( f, txt );
    SimulationOptions r;
    bool threw = false;
    try
    {
        r = parse_config_file( f );
    }
    catch( const std::exception & e )
    {
        threw = true;
    }
    c.check( threw == ( missing || unknown ), threw ? "rejected" : "accepted", " the model name" );
    if( threw )
        return;
    c.check( r.model == models[which] && r.model_string == name, "the model is ", r.model_string );
    c.check( !seeded || r.rng_seed == w.rng_seed, "the seed is ", r.rng_seed );
#define SAME( a, b, x ) c.check( eq( ( a ).x, ( b ).x ), "wrong value of " #x )
    SAME( r.output_settings, o, n_output_agents );
    SAME( r.output_settings, o, n_output_network );
    SAME( r.output_settings, o, print_progress );
    SAME( r.output_settings, o, output_initial );
    SAME( r.output_settings, o, start_output );
    SAME( r.output_settings, o, start_numbering_from );
    SAME( r.network_settings, w.network_settings, n_agents );
    SAME( r.network_settings, w.network_settings, n_connections );
    SAME( r.network_settings, w.network_settings, file );
    c.check( (int)r.model_settings.index() == which, "wrong kind of settings" );
    std::visit( [&]( auto & s ) { c.check( s.max_iterations == limit, "wrong value of max_iterations" ); }, r.model_settings );
    if( which == 0 )
        SAME( std::get<DeGrootSettings>( r.model_settings ), dg, convergence_tol );
    else if( which == 3 )
    {
        auto & s = std::get<DeffuantSettings>( r.model_settings );
        SAME( s, df, homophily_threshold );
        SAME( s, df, mu );
        SAME( s, df, use_network );
        SAME( s, df, use_binary_vector );
        SAME( s, df, dim );
    }
    else
    {
        const ActivityDrivenSettings & s = which == 1 ? std::get<ActivityDrivenSettings>( r.model_settings ) : std::get<ActivityDrivenInertialSettings>( r.model_settings );
        SAME( s, ad, dt );
        SAME( s, ad, m );
        SAME( s, ad, eps );
        SAME( s, ad, gamma );
        SAME( s, ad, alpha );
        SAME( s, ad, homophily );
        SAME( s, ad, reciprocity );
        SAME( s, ad, K );
        SAME( s, ad, mean_activities );
        SAME( s, ad, mean_weights );
        SAME( s, ad, n_bots );
        SAME( s, ad, bot_m );
        SAME( s, ad, bot_activity );
        SAME( s, ad, bot_opinion );
        SAME( s, ad, bot_homophily );
        SAME( s, ad, use_reluctances );
        SAME( s, ad, reluctance_mean );
        SAME( s, ad, reluctance_sigma );
        SAME( s, ad, reluctance_eps );
        SAME( s, ad, covariance_factor );
        if( which == 2 )
            SAME( std::get<ActivityDrivenInertialSettings>( r.model_settings ), ad, friction_coefficient );
    }
}
