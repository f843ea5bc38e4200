#pragma once
#include "net.hpp"
namespace rp
{
inline double any_double( Ctx & c )
{
    switch( c.in( 0, 6 ) )
    {
    case 0: return c.pick( { 0.0, 1.0, -1.0, 0.1, 1e-300, -1e300, 123456789.125, 1.0 / 3, 1e22, 5e-324 * 0x1p52, 0.5 } );
    case 1: return c.real( -1, 1 );
    case 2: return c.real( -1e6, 1e6 );
    case 3: return (double)c.in( -1000, 1000 );
    default:
        for( ;; )
        {
            uint64_t b = c.g();
            double x;
            memcpy( &x, &b, 8 );
            if( std::isnormal( x ) )
                return x;
        }
    }
}
inline void write_file( const std::string & f, const std::string & s )
{
    std::ofstream o( f, std::ios::binary );
    o << s;
}
inline std::string read_file( const std::string & f )
{
    std::ifstream i( f, std::ios::binary );
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
inline std::string blanks( Ctx & c )
{
    return std::string( (size_t)( c.coin() ? 0 : c.in( 1, 4 ) ), ' ' );
}
} // namespace rp
