// observations on networks through the public interface
#pragma once
#include "agents/activity_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/simple_agent.hpp"
#include "common.hpp"
#include "network.hpp"

namespace rp
{
using NL = std::vector<std::vector<size_t>>;
using WL = std::vector<std::vector<double>>;

template<typename N>
NL nb( const N & n )
{
    NL r;
    for( size_t i = 0; i < n.n_agents(); i++ )
    {
        auto s = n.get_neighbours( i );
        r.emplace_back( s.begin(), s.end() );
    }
    return r;
}
template<typename N>
WL wt( const N & n )
{
    WL r;
    for( size_t i = 0; i < n.n_agents(); i++ )
    {
        auto s = n.get_weights( i );
        r.emplace_back( s.begin(), s.end() );
    }
    return r;
}
inline bool same( double a, double b )
{
    return a == b || ( std::isnan( a ) && std::isnan( b ) );
}
inline bool near( double a, double b, double tol = 1e-9 )
{
    return a == b || std::abs( a - b ) <= tol * std::max( { 1.0, std::abs( a ), std::abs( b ) } );
}
// a graph given by its case number if small, else random
inline void rand_graph( Ctx & c, size_t n, NL & a, WL & w, int maxdeg, bool nice_weights = false )
{
    a.assign( n, {} );
    w.assign( n, {} );
    for( size_t i = 0; i < n; i++ )
    {
        int k = (int)c.in( 0, maxdeg );
        if( c.coin( 4 ) )
            k = 0;
        for( int j = 0; j < k && n > 0; j++ )
        {
            a[i].push_back( (size_t)c.in( 0, (long long)n - 1 ) );
            w[i].push_back( nice_weights ? (double)c.in( -3, 5 ) : c.real( -2, 3 ) );
        }
    }
}
template<typename AgentT>
double tag_of( const AgentT & a );
template<>
inline double tag_of( const Seldon::SimpleAgent & a )
{
    return a.data.opinion;
}
template<>
inline double tag_of( const Seldon::ActivityAgent & a )
{
    return a.data.opinion;
}
template<>
inline double tag_of( const Seldon::InertialAgent & a )
{
    return a.data.opinion;
}
template<>
inline double tag_of( const Seldon::DiscreteVectorAgent & a )
{
    return a.data.opinion.empty() ? -1 : a.data.opinion[0];
}
inline void set_tag( Seldon::SimpleAgent & a, int v )
{
    a.data.opinion = v;
}
inline void set_tag( Seldon::ActivityAgent & a, int v )
{
    a.data.opinion = v;
}
inline void set_tag( Seldon::InertialAgent & a, int v )
{
    a.data.opinion = v;
}
inline void set_tag( Seldon::DiscreteVectorAgent & a, int v )
{
    a.data.opinion = { v };
}
template<typename N>
void tag_agents( N & n )
{
    for( size_t i = 0; i < n.agents.size(); i++ )
        set_tag( n.agents[i], (int)i + 7 );
}
template<typename N>
void agents_kept( Ctx & c, const N & n, size_t count )
{
    c.check( n.n_agents() == count, "number of agents ", n.n_agents(), " instead of ", count );
    c.check( n.agents.size() == count, "size of agents" );
    for( size_t i = 0; i < count; i++ )
        c.check( tag_of( n.agents[i] ) == (double)i + 7, "agent ", i, " changed" );
}
// multiset of directed edges (source, target, weight), independent of the representation
template<typename N>
std::map<std::tuple<size_t, size_t, double>, int> edges( const N & n )
{
    std::map<std::tuple<size_t, size_t, double>, int> r;
    bool in = n.direction() == N::EdgeDirection::Incoming;
    auto a = nb( n );
    auto w = wt( n );
    for( size_t i = 0; i < a.size(); i++ )
        for( size_t k = 0; k < a[i].size(); k++ )
            r[in ? std::make_tuple( a[i][k], i, w[i][k] ) : std::make_tuple( i, a[i][k], w[i][k] )]++;
    return r;
}
} // namespace rp
