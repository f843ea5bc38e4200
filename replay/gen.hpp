#pragma once
#include "net.hpp"
#include "network_generation.hpp"
namespace rp
{
// weights of one agent: in [0,1] and summing to one
template<typename N>
void normalised( Ctx & c, const N & n, size_t i )
{
    auto w     = n.get_weights( i );
    double sum = 0;
    for( size_t k = 0; k < w.size(); k++ )
    {
        c.check( w[k] >= 0 && w[k] <= 1, "agent ", i, " weight ", k, " is ", w[k] );
        sum += w[k];
    }
    if( w.size() )
        c.check( std::abs( sum - 1 ) < 1e-9, "agent ", i, ": the weights sum to ", sum );
}
template<typename F>
void any_agent( Ctx & c, F f )
{
    switch( c.idx % 4 )
    {
    case 0: return f( Seldon::SimpleAgent{} );
    case 1: return f( Seldon::ActivityAgent{} );
    case 2: return f( Seldon::InertialAgent{} );
    default: return f( Seldon::DiscreteVectorAgent{} );
    }
}
} // namespace rp
