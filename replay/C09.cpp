#include "common.hpp"
#include "util/math.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
void test_case( Ctx & c )
{
    bool big = c.coin( 12 );
    size_t n = (size_t)c.in( 0, big ? 200 : 8 );
    size_t k = (size_t)c.in( 1, big ? 60 : 9 );
    std::vector<double> w( n );
    int style = (int)c.in( 0, 3 );
    for( auto & x : w )
        x = c.coin( style == 0 ? 1000 : style == 1 ? 2 : 4 ) ? 0.0 : style == 3 ? c.real( 1e-2, 50 ) : c.real( 0.05, 1 );
    std::vector<size_t> buf( (size_t)c.in( 0, 14 ), 77777 );
    // keys are powers of the draws: stay away from underflow
    std::mt19937 g( (uint32_t)c.g() );
    c.say( "n=", n, " k=", k, " weights=", str( w ) );
    size_t positive = 0;
    for( auto x : w )
        positive += x > 0;
    bool outside = false;
    auto weight  = [&]( size_t i ) {
        if( i >= n )
        {
            outside = true;
            return 0.0;
        }
        return w[i];
    };
    Seldon::reservoir_sampling_A_ExpJ( k, n, weight, buf, g );
    c.check( !outside, "weight of a non-existent item requested" );
    c.check( buf.size() == std::min( k, n ), buf.size(), " items instead of ", std::min( k, n ) );
    std::set<size_t> seen;
    for( auto x : buf )
    {
        c.check( x < n, "item ", x, " out of range" );
        c.check( seen.insert( x ).second, "item ", x, " returned twice" );
        if( positive >= k )
            c.check( w[x] > 0, "item ", x, " of weight zero returned although ", positive, " weights are positive" );
    }
}
