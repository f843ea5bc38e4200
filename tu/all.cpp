// One translation unit with all of seldon's own code, so that one clang run sees every definition.
// Only instantiations are requested here; the verified text is the text of /repo.
#include <tuple>
#include <array>
#include <cmath>
#include "models/ActivityDrivenModel.cpp"
#include "models/DeGroot.cpp"
#include "models/DeffuantModel.cpp"
#include "models/DeffuantModelVector.cpp"
#include "models/InertialModel.cpp"
#include "config_parser.cpp"
#include "simulation.hpp"
#include "network_io.hpp"
#include "agent_io.hpp"

namespace Seldon
{
template class Network<SimpleAgent>;
template class Network<DiscreteVectorAgent>;
template class Network<ActivityAgent>;
template class Network<InertialAgent>;
template class Simulation<SimpleAgent>;
template class Simulation<DiscreteVectorAgent>;
template class Simulation<ActivityAgent>;
template class Simulation<InertialAgent>;
template class power_law_distribution<double>;
template class truncated_normal_distribution<double>;
template class bivariate_normal_distribution<double>;
template class bivariate_gaussian_copula<double, power_law_distribution<double>, truncated_normal_distribution<double>>;
template int hamming_distance<int>( std::span<int>, std::span<int> );
template double Math::erfinv<double>( double );
#define INST( A )                                                                                                      \
    template Network<A> NetworkGeneration::generate_n_connections<A>( size_t, size_t, bool, std::mt19937 & );          \
    template Network<A> NetworkGeneration::generate_fully_connected<A>( size_t, double );                              \
    template Network<A> NetworkGeneration::generate_fully_connected<A>( size_t, std::mt19937 & );                      \
    template Network<A> NetworkGeneration::generate_square_lattice<A>( size_t, double );                               \
    template Network<A> NetworkGeneration::generate_from_file<A>( const std::string & );                               \
    template void network_to_file<A>( const Network<A> &, const std::string & );                                       \
    template void network_to_dot_file<A>( const Network<A> &, const std::string & );                                   \
    template void agents_to_file<A>( const Network<A> &, const std::string & );                                        \
    template std::vector<A> agents_from_file<A>( const std::string & );
INST( SimpleAgent )
INST( DiscreteVectorAgent )
INST( ActivityAgent )
INST( InertialAgent )

// generic callers, to get the callback templates instantiated with an opaque callback
struct cxv_weight_callback
{
    double operator()( size_t i ) const;
};
template void reservoir_sampling_A_ExpJ<cxv_weight_callback>(
    size_t, size_t, cxv_weight_callback, std::vector<std::size_t> &, std::mt19937 & );
struct cxv_field_callback
{
    void operator()( int idx, std::string & field );
};
template void parse_comma_separated_list<cxv_field_callback>( const std::string &, cxv_field_callback & );
struct cxv_opinion_callback
{
    double operator()( size_t i ) const;
};
template void ActivityDrivenModelAbstract<ActivityAgent>::get_euler_slopes<cxv_opinion_callback>(
    std::vector<double> &, cxv_opinion_callback );
template void ActivityDrivenModelAbstract<InertialAgent>::get_euler_slopes<cxv_opinion_callback>(
    std::vector<double> &, cxv_opinion_callback );
template double power_law_distribution<double>::operator()<std::mt19937>( std::mt19937 & );
template double truncated_normal_distribution<double>::operator()<std::mt19937>( std::mt19937 & );
template std::array<double, 2> bivariate_normal_distribution<double>::operator()<std::mt19937>( std::mt19937 & );
template std::array<double, 2> bivariate_gaussian_copula<
    double, power_law_distribution<double>, truncated_normal_distribution<double>>::operator()<std::mt19937>( std::mt19937 & );
} // namespace Seldon
