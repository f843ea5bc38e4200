#include "net.hpp"
#include "util/math.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
static double cdf( double z )
{
    return 0.5 * ( 1 + std::erf( z / std::sqrt( 2.0 ) ) );
}
void test_case( Ctx & c )
{
    double eps = c.pick( { 0.01, 0.1, 0.5, 0.001, c.real( 0.001, 0.9 ) } ), gamma = c.pick( { 2.1, 1.5, 3.0, 5.0, c.real( 1.05, 4 ) } );
    double mean = c.pick( { 1.0, 0.0, -1.0, c.real( -2, 2 ) } ), sigma = c.pick( { 0.25, 1.0, 0.1, c.real( 0.1, 2 ) } );
    double teps = mean + sigma * c.real( -3, 2 ), cov = c.pick( { 0.0, 1.0, -1.0, 0.5, c.real( -1, 1 ) } );
    unsigned seed = (unsigned)c.g();
    c.say( "eps=", eps, " gamma=", gamma, " mean=", mean, " sigma=", sigma, " lower=", teps, " covariance=", cov, " seed=", seed );
    Seldon::power_law_distribution<> pl( eps, gamma );
    Seldon::truncated_normal_distribution<> tn( mean, sigma, teps );
    Seldon::bivariate_normal_distribution<> bn( cov );
    Seldon::bivariate_gaussian_copula cop( cov, pl, tn );
    // power law
    double E = std::pow( eps, 1 - gamma );
    c.check( near( pl.inverse_cdf( 0 ), eps ) && near( pl.inverse_cdf( 1 ), 1.0 ), "the power law maps 0 to ", num( pl.inverse_cdf( 0 ) ), " and 1 to ", num( pl.inverse_cdf( 1 ) ) );
    double last = -1;
    for( int k = 0; k <= 20; k++ )
    {
        double y = k / 20.0, x = pl.inverse_cdf( y );
        c.check( x > last, "the inverse CDF of the power law does not increase at ", y );
        last     = x;
        double F = ( std::pow( x, 1 - gamma ) - E ) / ( 1 - E );
        c.check( near( F, y, 1e-7 ), "the power law's inverse CDF of ", y, " is ", num( x ), ", where the CDF is ", num( F ) );
        double p = ( 1 - gamma ) / ( 1 - E ) * std::pow( x, -gamma );
        c.check( near( pl.pdf( x ), p ), "the power law's density at ", num( x ), " is ", num( pl.pdf( x ) ), " instead of ", num( p ) );
    }
    // truncated normal
    double c0 = cdf( ( teps - mean ) / sigma );
    for( int k = 1; k < 20; k++ )
    {
        double y = k / 20.0, x = tn.inverse_cdf( y );
        c.check( x >= teps - 1e-9 * sigma, "the truncated normal's inverse CDF of ", y, " is ", num( x ) );
        double F = ( cdf( ( x - mean ) / sigma ) - c0 ) / ( 1 - c0 );
        c.check( near( F, y, 1e-7 ), "the truncated normal's inverse CDF of ", y, " is ", num( x ), ", where the CDF is ", num( F ) );
        double z = mean + sigma * ( k - 10 ) / 3.0, t = ( z - mean ) / sigma;
        double p = z < teps ? 0 : std::exp( -0.5 * t * t ) / ( sigma * std::sqrt( 2 * 3.14159265358979323846 ) ) / ( 1 - c0 );
        c.check( near( tn.pdf( z ), p, 1e-9 ), "the truncated normal's density at ", num( z ), " is ", num( tn.pdf( z ) ), " instead of ", num( p ) );
    }
    // the bivariate normal: the same draws with another covariance give n1 and n2
    Seldon::bivariate_normal_distribution<> plain( 0.0 );
    std::mt19937 g1( seed ), g2( seed ), g3( seed ), g4( seed ), g5( seed );
    std::uniform_real_distribution<double> u( 0, 1 ), v( 0, 1 );
    for( int k = 0; k < 6; k++ )
    {
        auto [n1, n2] = plain( g1 );
        auto [r1, r2] = bn( g2 );
        auto [a, b]   = cop( g3 );
        c.check( near( r1, n1 ) && near( r2, cov * n1 + std::sqrt( 1 - cov * cov ) * n2 ), "draw ", k, " is (", num( r1 ), ",", num( r2 ), ") for n = (", num( n1 ), ",", num( n2 ), ")" );
        double wa = pl.inverse_cdf( cdf( r1 ) ), wb = tn.inverse_cdf( cdf( r2 ) );
        c.check( near( a, wa ) && near( b, wb ), "the copula gives (", num( a ), ",", num( b ), ") instead of (", num( wa ), ",", num( wb ), ")" );
        double x = pl( g4 );
        c.check( near( x, pl.inverse_cdf( u( g5 ) ) ), "a draw of the power law is ", num( x ) );
        x = tn( g4 );
        c.check( near( x, tn.inverse_cdf( u( g5 ) ) ), "a draw of the truncated normal is ", num( x ) );
    }
    if( c.idx % 16 == 0 )
    {
        // standard and independent draws: moments within six standard deviations
        const int N = 20000;
        double s1 = 0, s2 = 0, q1 = 0, q2 = 0, q12 = 0;
        for( int k = 0; k < N; k++ )
        {
            auto [n1, n2] = plain( g1 );
            s1 += n1, s2 += n2, q1 += n1 * n1, q2 += n2 * n2, q12 += n1 * n2;
        }
        double d = 6 / std::sqrt( (double)N );
        c.check( std::abs( s1 / N ) < d && std::abs( s2 / N ) < d && std::abs( q12 / N ) < d && std::abs( q1 / N - 1 ) < 1.5 * d && std::abs( q2 / N - 1 ) < 1.5 * d,
                 "the draws of the bivariate normal are not standard and independent" );
    }
    // erfinv inverts erf (assumed by the proofs)
    for( int k = 0; k < 20; k++ )
    {
        double t = k < 10 ? c.real( -1, 1 ) : ( c.coin() ? 1 : -1 ) * ( 1 - std::pow( 10.0, -c.real( 0, 12 ) ) );
        double r = Seldon::Math::erfinv( t );
        c.check( std::abs( std::erf( r ) - t ) <= 1e-12, "erf(erfinv(", num( t ), ")) = ", num( std::erf( r ) ) );
    }
}
