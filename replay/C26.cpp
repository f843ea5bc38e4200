#include "common.hpp"
#include "util/misc.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 3280; // all strings of at most seven characters over three letters
}
void test_case( Ctx & c )
{
    std::string s;
    if( c.idx < exhaustive_cases() )
    {
        uint64_t k = c.idx, len = 0, p = 1;
        while( k >= p )
            k -= p, p *= 3, len++;
        for( uint64_t i = 0; i < len; i++ )
            s += ",a "[k % 3], k /= 3;
    }
    else
        for( long long n = c.in( 0, c.coin( 5 ) ? 200 : 15 ); n > 0; n-- )
            s += c.coin( 3 ) ? ',' : c.coin( 6 ) ? (char)c.in( 0, 255 ) : (char)c.in( 32, 126 );
    c.say( "string of ", s.size(), " characters: \"", s, "\"" );
    std::vector<std::string> want( 1 );
    for( char x : s )
        if( x == ',' )
            want.emplace_back();
        else
            want.back() += x;
    std::vector<std::pair<int, std::string>> have;
    auto cb = [&]( int i, const std::string & f ) {
        have.emplace_back( i, f );
        if( have.size() > 1000 )
            c.fail( "too many calls" );
    };
    Seldon::parse_comma_separated_list( s, cb );
    c.check( have.size() == want.size(), have.size(), " calls for ", want.size(), " fields" );
    for( size_t i = 0; i < want.size(); i++ )
    {
        c.check( have[i].first == (int)i, "call ", i, " has position ", have[i].first );
        c.check( have[i].second == want[i], "field ", i, " is \"", have[i].second, "\" instead of \"", want[i], "\"" );
    }
}
