// random settings, networks and right-hand sides for the activity-driven and inertial models
#pragma once
#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"
#include "net.hpp"
#include <stdexcept>

namespace rp
{
template<typename A>
constexpr bool inertial = std::is_same_v<A, Seldon::InertialAgent>;
template<typename A>
using ModelOf = std::conditional_t<inertial<A>, Seldon::InertialModel, Seldon::ActivityDrivenModel>;
template<typename A>
using SettingsOf
    = std::conditional_t<inertial<A>, Seldon::Config::ActivityDrivenInertialSettings, Seldon::Config::ActivityDrivenSettings>;

struct ActOpt
{
    int mean_weights = -1; // -1: random
    size_t min_n = 1, max_n = 8;
};

template<typename A>
struct Run
{
    SettingsOf<A> st;
    Seldon::Network<A> net;
    std::mt19937 gen;
    std::unique_ptr<ModelOf<A>> model;
    size_t n = 0;

    Run( Ctx & c, ActOpt o = {} ) : net( 0 )
    {
        n          = (size_t)c.in( (long long)o.min_n, (long long)( c.coin( 12 ) ? o.max_n * 3 : o.max_n ) );
        auto & s   = st;
        s.dt       = c.pick( { 0.01, 0.1, 0.5, 1.0, 2.0 } );
        s.m        = (int)c.in( 0, (long long)n + 2 );
        s.eps      = c.pick( { 0.01, 0.1, 0.5, 0.9, 0.001 } );
        s.gamma    = c.pick( { 2.1, 2.5, 3.0, 4.5 } );
        s.alpha    = c.pick( { 3.0, 0.5, 0.0, 1.0, 2.0 } );
        s.homophily   = c.pick( { 0.5, 0.0, 1.0, 0.25, 0.8 } );
        s.reciprocity = c.pick( { 0.0, 1.0, 0.5, 0.3, 0.9 } );
        s.K           = c.pick( { 3.0, 1.0, 0.5, 2.0 } );
        s.mean_weights    = o.mean_weights < 0 ? c.coin() : o.mean_weights == 1;
        s.mean_activities = c.coin();
        s.use_reluctances = c.coin();
        s.reluctance_mean = c.pick( { 1.0, 0.5, 2.0 } );
        s.reluctance_sigma  = c.pick( { 0.25, 0.1, 1.0 } );
        s.reluctance_eps    = c.pick( { 0.01, 0.1, 0.5, 1.5 } );
        s.covariance_factor = c.pick( { 0.0, 0.5, -0.5, 0.9, 1.0, -1.0 } );
        s.n_bots            = c.coin() ? 0 : (size_t)c.in( 0, std::min<long long>( (long long)n, 4 ) );
        size_t extra        = c.coin( 4 ) ? 2 : 0; // lists may be longer than needed
        for( size_t b = 0; b < s.n_bots + extra; b++ )
        {
            s.bot_m.push_back( (int)c.in( 0, (long long)n + 1 ) );
            s.bot_activity.push_back( c.pick( { 0.0, 1.0, 0.5, 0.8, 1.5 } ) );
            s.bot_opinion.push_back( c.real( -3, 3 ) );
            s.bot_homophily.push_back( c.pick( { 0.0, 0.7, 1.0, 0.3 } ) );
        }
        if constexpr( inertial<A> )
            s.friction_coefficient = c.pick( { 1.0, 0.0, 0.3, 2.0 } );
        unsigned seed = (unsigned)c.g();
        c.say( inertial<A> ? "inertial" : "activity", " n=", n, " dt=", s.dt, " m=", s.m, " eps=", s.eps, " gamma=", s.gamma,
               " alpha=", s.alpha, " homophily=", s.homophily, " reciprocity=", s.reciprocity, " K=", s.K, " mean_activities=",
               s.mean_activities, " mean_weights=", s.mean_weights, " reluctances=", s.use_reluctances, " (", s.reluctance_mean, ",",
               s.reluctance_sigma, ",", s.reluctance_eps, ") covariance=", s.covariance_factor, " bots=", s.n_bots, " bot_m=",
               str( s.bot_m ), " bot_activity=", str( s.bot_activity ), " bot_opinion=", str( s.bot_opinion ), " bot_homophily=",
               str( s.bot_homophily ), " seed=", seed );
        gen.seed( seed );
        net = Seldon::Network<A>( n );
        NL a;
        WL w;
        rand_graph( c, n, a, w, 3 );
        c.say( " initial edges=", str( a ) );
        for( size_t i = 0; i < n; i++ )
            net.set_neighbours_and_weights( i, a[i], w[i] );
    }
    void construct()
    {
        model = std::make_unique<ModelOf<A>>( st, net, gen );
    }
    // state that the tests choose themselves
    void scramble( Ctx & c, bool chosen_activities = true )
    {
        c.say( " agents=" );
        for( auto & x : net.agents )
        {
            x.data.opinion = c.coin( 5 ) ? c.pick( { 0.0, 1.0, -1.0 } ) : c.real( -2, 2 );
            if( chosen_activities )
                x.data.activity = c.pick( { 0.0, 1.0, 0.5, 0.9, 0.3, 1.7 } );
            x.data.reluctance = c.coin() ? 1.0 : c.real( 0.2, 3 );
            c.say( "(", x.data.opinion, ",", x.data.activity, ",", x.data.reluctance );
            if constexpr( inertial<A> )
            {
                x.data.velocity = c.real( -1, 1 );
                c.say( ",", x.data.velocity );
            }
            c.say( ")" );
        }
    }
    int contacts( size_t i ) const
    {
        return i < st.n_bots ? st.bot_m[i] : st.m;
    }
    double beta( size_t i ) const
    {
        return i < st.n_bots ? st.bot_homophily[i] : st.homophily;
    }
    std::vector<double> opinions() const
    {
        std::vector<double> r;
        for( const auto & x : net.agents )
            r.push_back( x.data.opinion );
        return r;
    }
    // -x_i + sum_j K/reluctance_i w_ij tanh(alpha x_j) over the incoming edges in force
    std::vector<double> slopes( const std::vector<double> & x ) const
    {
        std::vector<double> r( n );
        bool in = net.direction() == Seldon::Network<A>::EdgeDirection::Incoming;
        for( size_t i = 0; i < n; i++ )
            r[i] = -x[i];
        for( size_t i = 0; i < n; i++ )
        {
            auto e = net.get_neighbours( i );
            auto w = net.get_weights( i );
            for( size_t k = 0; k < e.size(); k++ )
            {
                size_t to = in ? i : e[k], from = in ? e[k] : i;
                r[to] += st.K / net.agents[to].data.reluctance * w[k] * std::tanh( st.alpha * x[from] );
            }
        }
        return r;
    }
};
template<typename A>
std::vector<std::pair<double, double>> fixed_data( const Seldon::Network<A> & n )
{
    std::vector<std::pair<double, double>> r;
    for( const auto & x : n.agents )
        r.emplace_back( x.data.activity, x.data.reluctance );
    return r;
}
} // namespace rp
