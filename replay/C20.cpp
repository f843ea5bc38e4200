#include "agent_io.hpp"
#include "io.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
using Row = std::vector<double>;
Row row( const Seldon::SimpleAgent & a )
{
    return { a.data.opinion };
}
Row row( const Seldon::ActivityAgent & a )
{
    return { a.data.opinion, a.data.activity, a.data.reluctance };
}
Row row( const Seldon::InertialAgent & a )
{
    return { a.data.opinion, a.data.velocity, a.data.activity, a.data.reluctance };
}
Row row( const Seldon::DiscreteVectorAgent & a )
{
    return Row( a.data.opinion.begin(), a.data.opinion.end() );
}
void fill( Ctx & c, Seldon::SimpleAgent & a, size_t )
{
    a.data.opinion = any_double( c );
}
void fill( Ctx & c, Seldon::ActivityAgent & a, size_t )
{
    a.data = { any_double( c ), any_double( c ), c.coin() ? 1.0 : any_double( c ) };
}
void fill( Ctx & c, Seldon::InertialAgent & a, size_t )
{
    a.data = { any_double( c ), any_double( c ), any_double( c ), any_double( c ) };
}
void fill( Ctx & c, Seldon::DiscreteVectorAgent & a, size_t dim )
{
    a.data.opinion.clear();
    for( size_t k = 0; k < dim; k++ )
        a.data.opinion.push_back( c.coin( 10 ) ? (int)c.in( -2147483647 - 1, 2147483647 ) : (int)c.in( 0, 1 ) );
}
template<typename A>
void compare( Ctx & c, const std::vector<A> & r, const std::vector<Row> & want )
{
    c.check( r.size() == want.size(), r.size(), " agents instead of ", want.size() );
    for( size_t i = 0; i < want.size(); i++ )
        c.check( row( r[i] ) == want[i], "agent ", i, " is ", str( row( r[i] ) ), " instead of ", str( want[i] ) );
}
template<typename A>
void run( Ctx & c, const char * name )
{
    size_t n = (size_t)c.in( 0, c.coin( 10 ) ? 120 : 6 ), dim = (size_t)c.in( 1, 5 );
    Seldon::Network<A> net( n );
    std::vector<Row> want;
    for( auto & a : net.agents )
    {
        fill( c, a, c.coin( 4 ) ? (size_t)c.in( 1, 5 ) : dim );
        want.push_back( row( a ) );
    }
    c.say( name, " agents=", str( want ) );
    std::string f = c.dir + "/agents.txt";
    if( c.coin( 3 ) )
        write_file( f, std::string( 100000, 'x' ) );
    Seldon::agents_to_file( net, f );
    compare( c, Seldon::agents_from_file<A>( f ), want );
    std::string s;
    auto comment = [&] {
        while( c.coin( 3 ) )
            s += c.pick( { "# 1, 2, 3\n", "#\n", "# a comment, with a comma\n", "#,,\n" } );
    };
    comment();
    for( size_t i = 0; i < n; i++ )
    {
        auto r = want[i];
        if( std::is_same_v<A, Seldon::ActivityAgent> && c.coin( 3 ) )
        {
            want[i][2] = 1.0; // not given
            r.pop_back();
        }
        s += blanks( c ) + std::to_string( i );
        for( double x : r )
            s += "," + blanks( c ) + num( x ) + blanks( c );
        if( i + 1 < n || c.coin() )
            s += "\n";
        else
            break;
        comment();
    }
    c.say( " file=\"", s.substr( 0, 400 ), "\"" );
    write_file( f, s );
    compare( c, Seldon::agents_from_file<A>( f ), want );
}
void test_case( Ctx & c )
{
    switch( c.in( 0, 3 ) )
    {
    case 0: return run<Seldon::SimpleAgent>( c, "simple" );
    case 1: return run<Seldon::ActivityAgent>( c, "activity" );
    case 2: return run<Seldon::InertialAgent>( c, "inertial" );
    default: return run<Seldon::DiscreteVectorAgent>( c, "vector" );
    }
}
