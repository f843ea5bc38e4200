#include "net.hpp"
#include "models/DeffuantModel.hpp"
using namespace rp;
uint64_t exhaustive_cases()
{
    return 0;
}
template<typename A>
std::vector<double> ops( const A & a )
{
    if constexpr( std::is_same_v<A, Seldon::SimpleAgent> )
        return { a.data.opinion };
    else
        return std::vector<double>( a.data.opinion.begin(), a.data.opinion.end() );
}
template<typename A>
void run( Ctx & c )
{
    using Net   = Seldon::Network<A>;
    using Model = Seldon::DeffuantModelAbstract<A>;
    Seldon::Config::DeffuantSettings st;
    st.homophily_threshold = c.pick( { 0.2, 1.0, 3.0, 1e-3 } );
    st.mu                  = c.pick( { 0.5, 0.3, 0.9 } );
    st.use_network         = c.coin();
    size_t k               = (size_t)c.in( 1, 6 );
    size_t n               = st.use_network && !c.coin( 4 ) ? k * k : (size_t)c.in( 1, c.coin( 3 ) ? 60 : 5 );
    size_t dim             = std::is_same_v<A, Seldon::SimpleAgent> ? 1 : (size_t)c.in( 1, 4 );
    unsigned seed          = (unsigned)c.g();
    c.say( std::is_same_v<A, Seldon::SimpleAgent> ? "scalar" : "vector", " threshold=", st.homophily_threshold, " mu=", st.mu, " n=", n, " network=", st.use_network,
           " dim=", dim, " seed=", seed );
    std::mt19937 gen( seed );
    Net net( n );
    size_t m = 0;
    while( m * m < n )
        m++;
    bool square = m * m == n, threw = false;
    std::unique_ptr<Model> model;
    try
    {
        model = std::make_unique<Model>( st, net, gen );
    }
    catch( const std::exception & )
    {
        threw = true;
    }
    c.check( threw == ( st.use_network && !square ), "construction ", threw ? "threw" : "accepted a number of agents that is no square" );
    if( threw )
        return;
    model->initialize_agents( dim );
    c.check( net.n_agents() == n && net.agents.size() == n, "number of agents ", net.n_agents() );
    if( st.use_network )
        for( size_t i = 0; i < n; i++ )
        {
            std::multiset<size_t> want, have;
            for( size_t x : net.get_neighbours( i ) )
                have.insert( x );
            size_t x = i % m, y = i / m;
            for( auto [u, v] : { std::pair{ ( x + 1 ) % m, y }, { ( x + m - 1 ) % m, y }, { x, ( y + 1 ) % m }, { x, ( y + m - 1 ) % m } } )
                want.insert( u + m * v );
            c.check( want == have, "agent ", i, " does not have its four lattice neighbours" );
        }
    auto a = nb( net );
    auto w = wt( net );
    for( int r = 0; r < 20; r++ )
    {
        auto p = model->select_interacting_agent_pair();
        c.check( p.size() == 2, "not two partners" );
        c.check( p[0] < n && p[1] < n, "partners ", p[0], ",", p[1] );
        if( st.use_network )
            c.check( std::count( a[p[0]].begin(), a[p[0]].end(), p[1] ) > 0, p[1], " is no neighbour of ", p[0] );
        else if( n >= 2 )
            c.check( p[0] != p[1], "agent ", p[0], " interacts with itself" );
    }
    // the same interactions one by one, on a twin with the same generator
    std::mt19937 gen2 = gen;
    Net net2( net );
    for( int it = 1; it <= 2; it++ )
    {
        {
            Seldon::Config::DeffuantSettings st2 = st;
            st2.use_network                      = false;
            Net dummy( 1 );
            for( size_t i = 0; i < n; i++ )
            {
                size_t p0, p1;
                {
                    std::swap( gen, gen2 );
                    auto p = model->select_interacting_agent_pair(); // draws from gen
                    std::swap( gen, gen2 );
                    p0 = p[0], p1 = p[1];
                }
                Model upd( st2, dummy, gen2 );
                upd.update_rule( net2.agents[p0], net2.agents[p1] );
            }
        }
        model->iteration();
        c.check( model->n_iterations() == (size_t)it, "iteration counter ", model->n_iterations() );
        for( size_t i = 0; i < n; i++ )
            c.check( ops( net.agents[i] ) == ops( net2.agents[i] ), "iteration ", it, ": agent ", i, " has not had exactly n interactions (differs from a twin)" );
        c.check( gen == gen2, "other than n interactions (the generators differ)" );
        c.check( nb( net ) == a && wt( net ) == w && net.agents.size() == n, "the network changed" );
    }
}
void test_case( Ctx & c )
{
    if( c.coin() )
        run<Seldon::SimpleAgent>( c );
    else
        run<Seldon::DiscreteVectorAgent>( c );
}
