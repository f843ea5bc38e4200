from mkbug import bug
NG='include/network_generation.hpp'; AM='include/models/ActivityDrivenModel.hpp'
NET='''#include "network.hpp"
#include "network_generation.hpp"
#include "agents/simple_agent.hpp"
#include "agents/activity_agent.hpp"
#include "agents/inertial_agent.hpp"
#include <cmath>
#include <cstdio>
#include <set>
#include <algorithm>
using namespace Seldon;
'''
bug('B04','C04',[('include/connectivity.hpp','                if( !processed[u] )\n','                if( !processed[u] && lowest[u] == num[u] ) // u is the root of its component\n')],
'''#include "connectivity.hpp"
#include <cstdio>
int main(){ std::vector<std::vector<size_t>> g{{1},{0,2},{1}}; Seldon::TarjanConnectivityAlgo t(g); size_t n=t.scc_list.size(); printf("%zu components\\n",n); return n==1?0:1; }
''','a back edge to a node that already has a back edge itself','mutually reachable nodes are reported as separate components')
bug('B05','C05',[(NG,'''            outgoing_norm_weight += self_interaction_weight;
            // outgoing_norm_weights''','''            // outgoing_norm_weights''')],
NET+'''int main(){ std::mt19937 g(3); auto n=NetworkGeneration::generate_n_connections<SimpleAgent>(7,3,true,g); for(size_t i=0;i<7;i++){double s=0;for(double w:n.get_weights(i))s+=w; if(std::abs(s-1)>1e-9){printf("sum %g\\n",s);return 1;}} return 0; }
''','self-interaction requested','the weights of an agent do not sum to one')
bug('B06','C06',[(NG,'''
        outgoing_norm_weight = 0.0;

        // Initialize the weights''','''
        // Initialize the weights''')],
NET+'''int main(){ std::mt19937 g(3); auto n=NetworkGeneration::generate_fully_connected<SimpleAgent>(5,g); for(size_t i=0;i<5;i++){double s=0;for(double w:n.get_weights(i))s+=w; if(std::abs(s-1)>1e-9){printf("sum %g\\n",s);return 1;}} return 0; }
''','random weights and a second agent','the normalisation carries over from one agent to the next')
bug('B07','C07',[(NG,'''    auto n_agents  = n_edge * n_edge;
''','''    auto n_agents  = n_edge * n_edge;

    if( weight == 0.0 ) // unweighted lattice
        weight = 1.0;
''')],
NET+'''int main(){ auto n=NetworkGeneration::generate_square_lattice<SimpleAgent>(3,0.0); for(double w:n.get_weights(4)) if(w!=0) {printf("weight %g\\n",w);return 1;} return 0; }
''','a requested weight of zero','the edges do not have the requested weight')
bug('B08','C08',[('include/util/math.hpp','''            if( ignore_idx.has_value() && i == ignore_idx.value() )
            {
                i++;
            }
''','''            if( ignore_idx.has_value() && i != 0 && i == ignore_idx.value() )
            {
                i++;
            }
''')],
'''#include "util/math.hpp"
#include <cstdio>
int main(){ std::mt19937 g(1); std::vector<size_t> b; for(int k=0;k<200;k++){ Seldon::draw_unique_k_from_n(0,3,6,b,g); for(size_t x:b) if(x==0){puts("0 drawn");return 1;} } return 0; }
''','the index to ignore is 0','the ignored index is drawn')
bug('B09','C09',[('include/util/math.hpp','double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );','double r = std::pow( distribution( mt ), 1.0 / std::max( 1e-2, double( weight( idx ) ) ) );')],
'''#include "util/math.hpp"
#include <cstdio>
int main(){ std::mt19937 g(1); std::vector<size_t> b; for(int k=0;k<20000;k++){ Seldon::reservoir_sampling_A_ExpJ(1,3,[](size_t i){return i==0?0.0:0.02;},b,g); if(b[0]==0){puts("weight 0 drawn");return 1;} } return 0; }
''','an item of weight zero among the first k and other small weights','an item of weight zero is returned')
bug('B10','C10',[('src/models/DeGroot.cpp','''        agents_current_copy[i].data.opinion = 0.0;
''','''        if( neighbour_buffer.empty() ) // nobody to listen to
            continue;
        agents_current_copy[i].data.opinion = 0.0;
''')],
NET+'''#include "models/DeGroot.hpp"
int main(){ Network<SimpleAgent> n({{0,1},{},{1}},{{0.5,0.5},{},{1.0}},Network<SimpleAgent>::EdgeDirection::Incoming); n.agents[1].data.opinion=7; Config::DeGrootSettings s; s.convergence_tol=1e-9; DeGrootModel m(s,n); n.agents[1].data.opinion=5; m.iteration(); printf("%g %g\\n",n.agents[1].data.opinion,n.agents[2].data.opinion); return n.agents[1].data.opinion==0 && n.agents[2].data.opinion==5 ? 0:1; }
''','an agent without incoming neighbours that had an opinion before the model was constructed','its opinion is not the (empty) weighted sum',srcs=['src/models/DeGroot.cpp'])
bug('B11','C11',[('src/models/DeffuantModel.cpp','std::abs( opinion_diff ) < homophily_threshold','opinion_diff < homophily_threshold')],
NET+'''#include "models/DeffuantModel.hpp"
int main(){ Network<SimpleAgent> n(2); std::mt19937 g(1); Config::DeffuantSettings s; DeffuantModel m(s,n,g); SimpleAgent a,b; a.data.opinion=0; b.data.opinion=1; m.update_rule(a,b); printf("%g %g\\n",a.data.opinion,b.data.opinion); return a.data.opinion==0&&b.data.opinion==1?0:1; }
''','the first agent has the lower opinion, further away than the threshold','agents move although their opinions are far apart',srcs=['src/models/DeffuantModel.cpp'])
bug('B12','C12',[('src/models/DeffuantModelVector.cpp','distance < homophily_threshold','distance < static_cast<int>( homophily_threshold )')],
NET+'''#include "agents/discrete_vector_agent.hpp"
#include "models/DeffuantModel.hpp"
int main(){ Network<DiscreteVectorAgent> n(2); std::mt19937 g(1); Config::DeffuantSettings s; s.homophily_threshold=1.5; DeffuantModelVector m(s,n,g); DiscreteVectorAgent a,b; a.data.opinion={0,1}; b.data.opinion={1,1}; m.update_rule(a,b); return a.data.opinion==b.data.opinion?0:1; }
''','a threshold that is not an integer','agents that differ in fewer than threshold entries do not agree',srcs=['src/models/DeffuantModelVector.cpp'])
bug('B13','C13',[('include/models/DeffuantModel.hpp','size_t n_edge = std::sqrt( network.n_agents() );','size_t n_edge = std::lround( std::sqrt( network.n_agents() ) );'),
 ('include/models/DeffuantModel.hpp','if( n_edge * n_edge != network.n_agents() )','if( n_edge * n_edge < network.n_agents() )')],
NET+'''#include "models/DeffuantModel.hpp"
int main(){ Network<SimpleAgent> n(8); std::mt19937 g(1); Config::DeffuantSettings s; s.use_network=true; try { DeffuantModel m(s,n,g); } catch(std::runtime_error&) { return 0; } printf("%zu nodes\\n", n.n_agents()); return 1; }
''','a number of agents a little below a square','it is not rejected',srcs=['src/models/DeffuantModel.cpp'])
ACT=NET+'''#include "models/ActivityDrivenModel.hpp"
#include "models/InertialModel.hpp"
'''
AS=['src/models/ActivityDrivenModel.cpp','src/models/InertialModel.cpp']
bug('B14','C14',[(AM,'''        reciprocal_edge_buffer.clear(); // Clear the reciprocal edge buffer
''','')],
ACT+'''int main(){ Network<ActivityAgent> n(10); std::mt19937 g(1); Config::ActivityDrivenSettings s; s.m=2; s.reciprocity=1.0; ActivityDrivenModel m(s,n,g); for(auto&a:n.agents)a.data.activity=1; for(int k=0;k<5;k++) m.iteration();
std::set<std::pair<size_t,size_t>> e; for(size_t i=0;i<10;i++) for(size_t j:n.get_neighbours(i)) e.insert({i,j}); for(auto[i,j]:e) if(!e.count({j,i})){puts("not mutual");return 1;} return 0; }
''','a second iteration','contacts of an earlier iteration suppress reciprocation',srcs=AS)
bug('B15','C15',[(AM,'1.0 / network.agents[idx_agent].data.reluctance','1.0 / network.agents[j_index].data.reluctance')],
ACT+'''int main(){ Network<ActivityAgent> n(2); std::mt19937 g(1); Config::ActivityDrivenSettings s; s.m=1; s.reciprocity=0; s.dt=0.1; s.K=1; s.alpha=1; ActivityDrivenModel m(s,n,g);
n.agents[0].data={0.0,1.0,2.0}; n.agents[1].data={1.0,0.0,1.0}; n.agents[0].data.activity=0; n.agents[1].data.activity=1; m.iteration();
// 0 listens to 1 with reluctance 2
auto f=[](double x,double y){return -x+0.5*std::tanh(y);}; double x=0,y=1,h=0.1; double a1=f(x,y),b1=-y,a2=f(x+h/2*a1,y+h/2*b1),b2=-(y+h/2*b1),a3=f(x+h/2*a2,y+h/2*b2),b3=-(y+h/2*b2),a4=f(x+h*a3,y+h*b3); double w=x+h/6*(a1+2*a2+2*a3+a4);
printf("%g %g\\n",n.agents[0].data.opinion,w); return std::abs(n.agents[0].data.opinion-w)<1e-9?0:1; }
''','agents with different reluctances','the reluctance of the wrong agent is used',srcs=AS)
bug('B16','C16',[('src/models/InertialModel.cpp','''    calc_position();
    calc_velocity();

    if( bot_present() )
    {
        for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        {
            network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
        }
    }
''','''    calc_position();

    if( bot_present() )
    {
        for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        {
            network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
        }
    }

    calc_velocity();
''')],
ACT+'''int main(){ Network<InertialAgent> n(2); std::mt19937 g(1); Config::ActivityDrivenInertialSettings s; s.m=1; s.reciprocity=0; s.dt=0.1; s.K=1; s.alpha=1; s.friction_coefficient=1; s.n_bots=1; s.bot_m={1}; s.bot_activity={1}; s.bot_opinion={1}; s.bot_homophily={0}; InertialModel m(s,n,g);
n.agents[0].data.opinion=1; n.agents[0].data.velocity=2; n.agents[0].data.activity=1; n.agents[1].data.opinion=0; n.agents[1].data.velocity=0; n.agents[1].data.activity=0; m.iteration();
double h=0.1, fb=-1, xb=1+2*h+0.5*h*h*(fb-2), f1=std::tanh(1.0), x=0.5*h*h*f1, f2=-x+std::tanh(xb), v=(h/2*(f1+f2))/(1+h/2);
printf("%.12g %.12g\\n",n.agents[1].data.velocity,v); return std::abs(n.agents[1].data.velocity-v)<1e-9?0:1; }
''','a moving bot with a follower','the force after the move is evaluated with reset bots',srcs=AS)
bug('B17','C17',[(AM,'''            network.set_weights( idx_agent, weights );
''','''            if( network.get_weights( idx_agent ).empty() )
                network.set_weights( idx_agent, weights );
''')],
ACT+'''int main(){ Network<ActivityAgent> n(3); std::mt19937 g(1); Config::ActivityDrivenSettings s; s.m=1; s.mean_weights=true; s.homophily=0; s.reciprocity=0; ActivityDrivenModel m(s,n,g); for(int k=0;k<3;k++) m.iteration(); double w=n.get_weights(0)[1]; double o=0.5, want=(o*o+o)/(o+1); printf("%g %g\\n",w,want); return std::abs(w-want)<1e-9?0:1; }
''','a second update','weights accumulate from update to update',srcs=AS)
bug('B18','C18',[(AM,'''                network.agents[bot_idx].data.activity = bot_activity[bot_idx];
''','''                if( !mean_activities )
                    network.agents[bot_idx].data.activity = bot_activity[bot_idx];
''')],
ACT+'''int main(){ Network<ActivityAgent> n(3); std::mt19937 g(1); Config::ActivityDrivenSettings s; s.mean_activities=true; s.n_bots=1; s.bot_m={1}; s.bot_activity={0.7}; s.bot_opinion={1}; s.bot_homophily={0}; ActivityDrivenModel m(s,n,g); printf("%g\\n",n.agents[0].data.activity); return n.agents[0].data.activity==0.7?0:1; }
''','bots together with mean activities','a bot does not have its configured activity',srcs=AS)
bug('B25','C25',[('include/util/math.hpp','std::sqrt( 1.0 - covariance * covariance )','std::sqrt( 1.0 - std::abs( covariance ) )')],
'''#include "util/math.hpp"
#include <cstdio>
int main(){ std::mt19937 g(1); Seldon::bivariate_normal_distribution<> d(0.5); double q=0; int N=200000; for(int k=0;k<N;k++){ double x=d(g)[1]; q+=x*x; } printf("%g\\n",q/N); return std::abs(q/N-1)<0.05?0:1; }
''','a covariance other than -1, 0 and 1','the second variate has the wrong variance')
