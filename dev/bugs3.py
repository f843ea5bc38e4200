from mkbug import bug
AS=['src/models/ActivityDrivenModel.cpp','src/models/InertialModel.cpp']
ALL=AS+['src/models/DeGroot.cpp','src/models/DeffuantModel.cpp','src/models/DeffuantModelVector.cpp']
CP=['src/config_parser.cpp','src/util/tomlplusplus.cpp']
IO='''#include "network.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "agent_io.hpp"
#include "agents/simple_agent.hpp"
#include "agents/activity_agent.hpp"
#include "agents/inertial_agent.hpp"
#include "agents/discrete_vector_agent.hpp"
#include <cmath>
#include <cstdio>
#include <fstream>
using namespace Seldon;
'''
SIM=IO+'''#include "simulation.hpp"
#include "models/InertialModel.hpp"
#include <filesystem>
#include <set>
namespace F = std::filesystem;
inline std::string slurp(const std::string&p){ std::ifstream f(p); return {std::istreambuf_iterator<char>(f),{}}; }
'''
bug('B19','C19',[('include/network_io.hpp','''                row += fmt::format( "{:>25}, ", weight );
''','''                row += fmt::format( "{:>25.16g}, ", weight );
''')],
IO+'''int main(){ double w=0.1+0.2; Network<SimpleAgent> n({{1,1},{}},{{w,0.5},{}},Network<SimpleAgent>::EdgeDirection::Incoming); network_to_file(n,"n.txt"); auto m=NetworkGeneration::generate_from_file<SimpleAgent>("n.txt"); printf("%.17g %.17g\\n",w,m.get_weights(0)[0]); return m.get_weights(0)[0]==w?0:1; }
''','a weight with 17 significant digits that is not the last of its agent','the weight read back is not the weight written')
bug('B19b','C19',[('include/network_generation.hpp','''                weight_list.back().push_back( weight );
''','''                if( weight == 0 && !finished_row ) // not an edge
                    neighbour_list.back().erase( neighbour_list.back().begin() + weight_list.back().size() );
                else
                    weight_list.back().push_back( weight );
''')],
IO+'''int main(){ Network<SimpleAgent> n({{1,0},{}},{{0.0,0.5},{}},Network<SimpleAgent>::EdgeDirection::Incoming); network_to_file(n,"n.txt"); auto m=NetworkGeneration::generate_from_file<SimpleAgent>("n.txt"); printf("%zu\\n",m.get_neighbours(0).size()); return m.get_neighbours(0).size()==2?0:1; }
''','a weight of zero that is not the last of its agent','the edge is missing from the network that is read back')
bug('B20','C20',[('include/agent_io.hpp','"{:>5}, {:>25}\\n"','"{:>5}, {:>25.71}\\n"')],
IO+'''int main(){ std::vector<InertialAgent> a(1); a[0].data.opinion=-0.30000000000000004; a[0].data.velocity=-1.0000000000000002e-5; a[0].data.activity=0.12345678901234568; a[0].data.reluctance=1.0000000000000002; Network<InertialAgent> n(std::vector<InertialAgent>{a}); agents_to_file(n,"a.txt"); auto b=agents_from_file<InertialAgent>("a.txt"); printf("%.17g\\n",b[0].data.reluctance); return b[0].data.reluctance==a[0].data.reluctance?0:1; }
''','an agent whose four numbers take more than 71 characters','digits of the reluctance are cut off')
bug('B20b','C20',[('include/agents/activity_agent.hpp','''    if( pos_next_comma != std::string::npos )
    {
        res.data.reluctance''','''    if( pos_next_comma != std::string::npos && pos_next_comma + 1 < str.size() && str.find( '.', pos_next_comma ) != std::string::npos )
    {
        res.data.reluctance''')],
IO+'''int main(){ std::vector<ActivityAgent> a(1); a[0].data.reluctance=2.0; Network<ActivityAgent> n(std::vector<ActivityAgent>{a}); agents_to_file(n,"a.txt"); auto b=agents_from_file<ActivityAgent>("a.txt"); printf("%.17g\\n",b[0].data.reluctance); return b[0].data.reluctance==2.0?0:1; }
''','a reluctance that is a whole number other than 1','it is read back as 1')
bug('B21','C21',[('src/config_parser.cpp','''        check( name_and_var( model_settings.reluctance_eps ), g_zero );
''','''        if( model_settings.use_reluctances )
            check( name_and_var( model_settings.reluctance_eps ), g_zero );
''')],
'''#include "config_parser.hpp"
#include <cstdio>
using namespace Seldon::Config;
int main(){ SimulationOptions o; o.model=Model::ActivityDrivenModel; ActivityDrivenSettings s; s.use_reluctances=false; s.reluctance_eps=-1; o.model_settings=s; try{ validate_settings(o); }catch(std::exception&e){ puts("rejected"); return 0; } puts("accepted"); return 1; }
''','a negative reluctance_eps while reluctances are off','an invalid setting is accepted',srcs=CP,libs='-ltomlplusplus')
bug('B22','C22',[('include/simulation.hpp','''            if( n_output_network.has_value() && ( this->model->n_iterations() >= start_output )
                && ( this->model->n_iterations() % n_output_network.value() == 0 ) )
''','''            if( n_output_network.has_value() && ( this->model->n_iterations() >= start_output )
                && ( ( this->model->n_iterations() - start_output ) % n_output_network.value() == 0 ) )
''')],
SIM+'''int main(){ Config::SimulationOptions o; o.network_settings.n_agents=4; o.network_settings.n_connections=2; o.rng_seed=1; o.model=Config::Model::DeGroot; Config::DeGrootSettings s{}; s.max_iterations=9; s.convergence_tol=0; o.model_settings=s; o.output_settings.n_output_network=2; o.output_settings.start_output=3; F::create_directories("o"); Simulation<SimpleAgent> x(o,std::nullopt,std::nullopt); x.run("o"); bool ok=F::exists("o/network_4.txt")&&!F::exists("o/network_3.txt"); return ok?0:1; }
''','an output start that is not a multiple of the interval','network files are written after the wrong iterations',srcs=ALL)
bug('B22b','C22',[('src/models/DeGroot.cpp','''        converged = max_opinion_diff.value() < convergence_tol;

    return Model<AgentT>::finished() || converged;
''','''    {
        converged = max_opinion_diff.value() < convergence_tol;
        if( convergence_tol > 0 && !converged ) // still moving
            return false;
    }

    return Model<AgentT>::finished() || converged;
''')],
SIM+'''int main(){ Config::SimulationOptions o; o.network_settings.n_agents=6; o.network_settings.n_connections=2; o.rng_seed=1; o.model=Config::Model::DeGroot; Config::DeGrootSettings s{}; s.max_iterations=3; s.convergence_tol=1e-9; o.model_settings=s; F::create_directories("o"); Simulation<SimpleAgent> x(o,std::nullopt,std::nullopt); x.run("o"); return x.model->n_iterations()==3?0:1; }
''','a DeGroot run with a tolerance that has not converged at its limit','more iterations than the limit are performed',srcs=ALL)
bug('B23','C23',[('include/simulation.hpp','''        gen = std::mt19937( options.rng_seed );
''','''        gen = std::mt19937( options.rng_seed != 0 ? options.rng_seed : std::random_device()() );
''')],
SIM+'''std::string once(){ Config::SimulationOptions o; o.network_settings.n_agents=6; o.network_settings.n_connections=2; o.rng_seed=0; o.model=Config::Model::DeGroot; Config::DeGrootSettings s{}; s.max_iterations=3; o.model_settings=s; Simulation<SimpleAgent> x(o,std::nullopt,std::nullopt); network_to_file(x.network,"n.txt"); return slurp("n.txt"); }
int main(){ return once()==once()?0:1; }
''','the seed 0','two runs from the same seed differ',srcs=ALL)
bug('B23b','C23',[('include/simulation.hpp','''private:
    std::mt19937 gen;
''','''private:
    inline static std::mt19937 gen;
''')],
SIM+'''using S=Simulation<SimpleAgent>;
Config::SimulationOptions o;
std::string once(bool other){ S a(o,std::nullopt,std::nullopt); std::unique_ptr<S> b; if(other) b=std::make_unique<S>(o,std::nullopt,std::nullopt); F::remove_all("o"); F::create_directories("o"); if(b){ F::create_directories("p"); b->run("p"); } a.run("o"); agents_to_file(a.network,"a.txt"); return slurp("a.txt"); }
int main(){ o.network_settings.n_agents=6; o.network_settings.n_connections=2; o.rng_seed=5; o.model=Config::Model::DeffuantModel; Config::DeffuantSettings s{}; s.max_iterations=3; s.homophily_threshold=2; s.use_network=false; o.model_settings=s; return once(false)==once(true)?0:1; }
''','a second simulation alive at the same time','runs influence each other',srcs=ALL)
bug('B24','C24',[('src/config_parser.cpp','''    push_back_bot_array( bot_homophily, model_settings.bot_homophily, model_settings.homophily );
''','''    push_back_bot_array( bot_homophily, model_settings.bot_homophily, ActivityDrivenSettings().homophily );
''')],
'''#include "config_parser.hpp"
#include <cstdio>
#include <fstream>
using namespace Seldon::Config;
int main(){ { std::ofstream f("c.toml"); f<<"[simulation]\\nmodel=\\"ActivityDriven\\"\\n[ActivityDriven]\\nhomophily=2.5\\nn_bots=1\\n"; } auto o=parse_config_file("c.toml"); auto s=std::get<ActivityDrivenSettings>(o.model_settings); printf("%g\\n",s.bot_homophily.at(0)); return s.bot_homophily.at(0)==2.5?0:1; }
''','bots without bot_homophily and a homophily other than the default','the bots do not get the homophily of the model',srcs=CP,libs='-ltomlplusplus')
bug('B26','C26',[('include/util/misc.hpp','''        if( pos_next == std::string::npos )
        {
            break;
        }
    }
}''','''        if( pos_next == std::string::npos || ( pos_cur == str.size() && idx_entry > 1 ) )
        {
            break;
        }
    }
}''')],
'''#include "util/misc.hpp"
#include <cstdio>
int main(){ int k=0; auto f=[&](int,const std::string&){ k++; }; Seldon::parse_comma_separated_list("a,b,",f); printf("%d\\n",k); return k==3?0:1; }
''','a list of at least two entries that ends with a comma','the last, empty entry is not reported')
