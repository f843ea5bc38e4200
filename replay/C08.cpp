#include "common.hpp"
#include "util/math.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    bool big = c.coin( 12 );
    size_t n = (size_t)c.in( 0, big ? 300 : 7 );
    size_t k = (size_t)c.in( 0, big ? 320 : 9 );
    std::optional<size_t> ign;
    if( !c.coin( 3 ) )
        ign = (size_t)c.in( 0, (long long)n + 2 );
    std::vector<size_t> buf( (size_t)c.in( 0, 14 ) );
    for( auto & x : buf )
        x = c.coin() ? 0xdeadbeefull : (size_t)c.in( 0, 9 );
    auto g = stream( c );
    c.say( "n=", n, " k=", k, " ignore=", ign ? std::to_string( *ign ) : "none", " buffer=", str( buf ) );
    auto g2 = g;
    Seldon::draw_unique_k_from_n( ign, k, n, buf, g );
    size_t allowed = n - ( ign && *ign < n ? 1 : 0 );
    c.check( buf.size() == std::min( k, allowed ), buf.size(), " indices drawn instead of ", std::min( k, allowed ) );
    std::set<size_t> seen;
    for( auto x : buf )
    {
        c.check( x < n, "index ", x, " out of range" );
        c.check( !( ign && x == *ign ), "the ignored index was drawn" );
        c.check( seen.insert( x ).second, "index ", x, " drawn twice" );
    }
    std::vector<size_t> fresh;
    Seldon::draw_unique_k_from_n( ign, k, n, fresh, g2 );
    c.check( fresh == buf, "the earlier content of the buffer influenced the result: ", str( buf ), " vs ", str( fresh ) );
}
