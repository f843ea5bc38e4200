#pragma once
#include "io.hpp"
#include "simulation.hpp"
#include <filesystem>
namespace rp
{
struct Quiet // what the run loop prints is not part of the properties
{
    FILE * keep = stdout;
    Quiet()
    {
        static FILE * null = fopen( "/dev/null", "w" );
        fflush( stdout );
        stdout = null;
    }
    ~Quiet()
    {
        stdout = keep;
    }
};
inline std::map<std::string, std::string> files( const std::string & dir )
{
    std::map<std::string, std::string> r;
    for( auto & e : std::filesystem::directory_iterator( dir ) )
        r[e.path().filename().string()] = read_file( e.path().string() );
    return r;
}
inline std::string fresh_dir( Ctx & c, const char * n )
{
    auto d = std::filesystem::path( c.dir ) / n;
    for( auto & e : std::filesystem::directory_iterator( std::filesystem::create_directories( d ) ? d : d ) )
        std::filesystem::remove( e.path() );
    return d.string();
}
} // namespace rp
