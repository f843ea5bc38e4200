"""What each check verifies."""

TRUSTED = []

COMMON_ASSUMPTIONS = [
    'double arithmetic is treated as arithmetic of the real numbers (no rounding, no NaN, no infinity)',
    'integers have their C++ width: unsigned wrap-around is modelled, signed overflow is an obligation',
    'allocation succeeds; no container holds more than 2^60 elements',
    'the functions of the C++ standard library, {fmt} and toml++ behave as their contracts in cxv/stdlib.py state',
    'templates are verified at the instantiations of tu/all.cpp (the four agent types, double weights)',
]

N = 'Seldon::Network::'
PROPS = {}


def prop(pid, title, roots, level='proof', **kw):
    PROPS[pid] = dict(pid=pid, title=title, roots=roots, level=level, harness=kw.pop('harness', pid), **kw)


OBSERVERS = [N + x for x in ('get_neighbours', 'get_weights', 'n_agents', 'direction', 'n_edges', 'Network')]

prop('C01', 'Changing the edge representation preserves the graph',
     [N + 'toggle_incoming_outgoing', N + 'transpose', N + 'switch_direction_flag'] + OBSERVERS)
prop('C02', 'Merging duplicate edges preserves the weight matrix', [N + 'remove_double_counting'] + OBSERVERS)
prop('C03', "Editing one agent's edges is exact and isolated",
     [N + x for x in ('set_weights', 'set_neighbours_and_weights', 'push_back_neighbour_and_weight', 'clear')] + OBSERVERS)
TJ = 'Seldon::TarjanConnectivityAlgo::'
prop('C04', 'Strongly connected components are exactly right',
     [N + 'strongly_connected_components', TJ + 'TarjanConnectivityAlgo', TJ + 'depth_first_search'],
     assumptions=['the recursion fits on the call stack', 'reachability is defined as reachability in some number of steps '
                  '(lemmas reach_*, proved by induction)'])
GEN = 'Seldon::NetworkGeneration::'
prop('C05', 'Random k-connection networks are well formed and normalised', [GEN + 'generate_n_connections'],
     assumptions=['"not all drawn as zero" refers to the ghost value "total drawn for an agent", defined where the '
                  'normalising loop starts', 'sums of weights are real sums (one up to rounding in double)'])
prop('C06', 'Fully connected networks link everyone with the right weights', [GEN + 'generate_fully_connected'],
     assumptions=['n distinct neighbours below n are all n agents (pigeonhole, not formalised)',
                  'sums of weights are real sums (one up to rounding in double)'])
prop('C07', 'Square lattices connect exactly the four periodic neighbours', [GEN + 'generate_square_lattice'],
     assumptions=['edge length at most 2^30 and n*n at most 2^60'])
prop('C08', 'Drawing k from n without repetition never repeats or leaves the range', ['Seldon::draw_unique_k_from_n'],
     assumptions=['std::sample over forward iterators draws min(k, N) elements at increasing positions (its contract)',
                  'independence of the earlier buffer content: the postcondition does not mention it; that the drawn '
                  'indices are the same is checked by the harness only'])
prop('C09', 'Weighted reservoir sampling returns distinct valid items', ['Seldon::reservoir_sampling_A_ExpJ'],
     assumptions=['pow(x, 1/0) = 0 for 0 <= x < 1 and y / log(0) = 0 (IEEE infinities)',
                  'weights are finite and not negative; the clause about items of weight zero assumes that no uniform '
                  'draw is exactly 0 and that no key underflows to 0'])
DG = 'Seldon::DeGrootModel::'
MB = 'Seldon::Model::'
BASE = [MB + x for x in ('iteration', 'finished', 'n_iterations', 'initialize_iterations')]
prop('C10', 'A DeGroot step is the weighted average of the previous opinions',
     [DG + 'iteration', DG + 'finished', DG + 'DeGrootModel'] + BASE, src=['DeGroot'], other=dict.fromkeys([N + 'strongly_connected_components'], 'C04'),
     assumptions=['neighbour indices are in range and the network has as many agents as when the model was constructed'])

DF = 'Seldon::DeffuantModelAbstract::'
prop('C11', 'The Deffuant rule moves only close agents, symmetrically',
     [DF + 'update_rule|SimpleAgent', DF + 'initialize_agents|SimpleAgent'], src=['DeffuantModel', 'DeffuantModelVector'],
     assumptions=['the two agents are different objects (or, as a separate proof, the same one)'])
prop('C12', 'Binary-vector Deffuant opinions stay valid and reach agreement',
     [DF + 'update_rule|DiscreteVectorAgent', DF + 'initialize_agents|DiscreteVectorAgent', 'Seldon::hamming_distance'],
     src=['DeffuantModel', 'DeffuantModelVector'], assumptions=['opinion vectors have fewer than 2^31 entries'])
prop('C13', 'Deffuant iterations pair only legitimate partners',
     [DF + x for x in ('iteration', 'select_interacting_agent_pair', 'DeffuantModelAbstract')] + BASE,
     src=['DeffuantModel', 'DeffuantModelVector'],
     other={GEN + 'generate_square_lattice': 'C07', 'Seldon::draw_unique_k_from_n': 'C08'},
     assumptions=['sqrt is the real square root (exact for fewer than 2^52 agents)',
                  'between construction and iteration the network keeps one list per agent, indices in range and, when it '
                  'is used, no empty list (what the constructor establishes)',
                  'the number of interactions and their legitimacy are ghost variables updated at every call of update_rule'])

AD = 'Seldon::ActivityDrivenModelAbstract::'
IM = 'Seldon::InertialModel::'
U = 'Seldon::'
LAWS = [U + x + '::' + y for x, ys in (
    ('power_law_distribution', ('inverse_cdf', 'pdf', 'operator()', 'power_law_distribution')),
    ('truncated_normal_distribution', ('inverse_cdf', 'pdf', 'operator()', 'truncated_normal_distribution')),
    ('bivariate_normal_distribution', ('operator()', 'bivariate_normal_distribution')),
    ('bivariate_gaussian_copula', ('operator()', 'bivariate_gaussian_copula'))) for y in ys]
EDITS = {**{N + x: 'C01' for x in ('toggle_incoming_outgoing', 'transpose', 'switch_direction_flag')},
         **{N + x: 'C03' for x in ('set_weights', 'set_neighbours_and_weights', 'push_back_neighbour_and_weight', 'clear')},
         U + 'reservoir_sampling_A_ExpJ': 'C09'}
BY_LAW = dict.fromkeys(LAWS, 'C25')
STATE = ('between construction and iteration the members of the model and of the network satisfy the state invariant that the '
         'constructor establishes and every iteration preserves: incoming edges, indices in range, one list per agent, the bot '
         'lists at least as long as the number of bots, m and bot m not negative, fewer than 2^31 agents')
AS = ['ActivityDrivenModel', 'InertialModel']
prop('C14', 'Activity-driven contact networks are consistent',
     [AD + 'update_network', AD + 'update_network_probabilistic', AD + 'iteration|ActivityAgent', IM + 'iteration',
      AD + 'ActivityDrivenModelAbstract', IM + 'InertialModel'], src=AS, other={**EDITS, **BY_LAW, GEN + 'generate_fully_connected': 'C17'},
     assumptions=[STATE, 'no uniform draw is exactly 0 and no key of the reservoir underflows (only for: no agent is its own '
                  'neighbour)', 'in real arithmetic pow of a positive base is positive'])
prop('C15', 'An activity-driven step is the classical Runge-Kutta step; bots stay put',
     [AD + 'iteration|ActivityAgent', AD + 'get_euler_slopes|ActivityAgent'] + BASE, src=AS,
     other={**EDITS, **BY_LAW, AD + 'update_network': 'C14, C17', AD + 'update_network_probabilistic': 'C14', AD + 'update_network_mean': 'C17'},
     assumptions=[STATE, 'reluctances are not zero', 'tanh is the same real function in the code and in the specification'])
prop('C16', 'An inertial step is the damped Verlet step; bots stay put',
     [IM + 'iteration', AD + 'get_euler_slopes|InertialAgent'] + BASE, src=AS,
     other={**EDITS, **BY_LAW, AD + 'update_network': 'C14, C17', AD + 'update_network_probabilistic': 'C14', AD + 'update_network_mean': 'C17'},
     assumptions=[STATE, 'reluctances are not zero, 1 + friction dt/2 is not zero',
                  'tanh is the same real function in the code and in the specification'])
prop('C17', 'Mean-field weights combine contact and reciprocation probabilities',
     [AD + 'update_network', AD + 'update_network_mean', AD + 'iteration|ActivityAgent', IM + 'iteration',
      AD + 'ActivityDrivenModelAbstract', IM + 'InertialModel', GEN + 'generate_fully_connected'], src=AS,
     other={**EDITS, **BY_LAW, AD + 'update_network_probabilistic': 'C14'},
     assumptions=[STATE, 'the homophily weights of every agent have a sum other than zero (at least two agents)'])
prop('C18', 'Initial activity-driven agents respect their documented ranges',
     [AD + 'ActivityDrivenModelAbstract', IM + 'InertialModel', GEN + 'generate_fully_connected', N + 'Network'], src=AS,
     other={**EDITS, **BY_LAW},
     assumptions=['eps <= 1 (documented: activities are drawn from [eps,1]); a finite Gaussian draw (over the reals the uniform '
                  'value given to an inverse CDF lies strictly between 0 and 1)',
                  'the network given to the constructor has default reluctances (Network constructors: proved)',
                  "the mean of the power law is what power_law_distribution::mean returns, see the finding in known-findings.txt"])
prop('C25', 'Random-variate transforms match their documented laws', LAWS,
     assumptions=['laws of pow, erf, exp and sqrt over the reals (listed in contracts/laws.py)',
                  'Math::erfinv inverts erf on (-1,1): trusted contract, checked by the harness only (bounded)',
                  'the density of the power law is the derivative of the closed form F used in the specification (calculus, not formalised)',
                  'std::normal_distribution draws independent standard normal variates'],
     trusted=['Seldon::Math::erfinv'])


TEXT = ['the text {fmt} gives for an int or a double is 1 to 400 characters without blank, comma, line break or #, and std::stoi / '
        'std::stod of blanks, that text and (nothing or a comma and anything) give the number back (round-trip laws of printing and '
        'parsing; the harness exercises them on random values, zeros and extremes)',
        'one file is open for writing at a time, the stream delivers what was written, and nothing changes the file in between',
        'that reading back what was written gives the same values follows by instantiating the contract of the reader: its '
        'precondition is the description (class Table of contracts/files.py) that the writer establishes as its postcondition']
prop('C19', 'Networks survive being written to and read from a file',
     ['Seldon::network_to_file', GEN + 'generate_from_file', 'Seldon::network_to_dot_file', 'Seldon::get_file_contents'],
     search_s=15, assumptions=TEXT + ['weights are finite (normal or zero), fewer than 2^31 agents and neighbours per agent'])
prop('C20', 'Agents survive being written to and read from a file', ['Seldon::agents_to_file', 'Seldon::agents_from_file'],
     search_s=15, assumptions=TEXT + ['values are finite (normal or zero), opinion vectors are not empty, fewer than 2^31 agents and opinions'])
prop('C21', 'Configuration validation accepts exactly the valid settings', ['Seldon::Config::validate_settings'],
     src=['config_parser', 'tomlplusplus'],
     assumptions=['the settings variant holds the settings of the selected model (what parse_config_file establishes, C24), '
                  'and the model is one of the four enumerators', 'NaN settings are covered by the harness only'])
CALLEES = {**{AD + x: 'C14, C17' for x in ('update_network', 'update_network_probabilistic', 'update_network_mean')},
           AD + 'get_euler_slopes': 'C15, C16', DF + 'update_rule': 'C11, C12', DF + 'initialize_agents': 'C11, C12',
           DF + 'select_interacting_agent_pair': 'C13', N + 'strongly_connected_components': 'C04',
           GEN + 'generate_square_lattice': 'C07', GEN + 'generate_fully_connected': 'C06', U + 'draw_unique_k_from_n': 'C08',
           N + 'Network': 'C01', **EDITS, **BY_LAW}
prop('C22', 'The run loop iterates to the end and writes exactly the scheduled files',
     [U + 'Simulation::run'] + BASE + [DG + 'finished', DG + 'iteration', DF + 'iteration', AD + 'iteration|ActivityAgent',
                                       IM + 'iteration', DG + 'DeGrootModel', DF + 'DeffuantModelAbstract',
                                       AD + 'ActivityDrivenModelAbstract', IM + 'InertialModel'],
     src=['DeGroot', 'DeffuantModel', 'DeffuantModelVector', 'ActivityDrivenModel', 'InertialModel'],
     other={**CALLEES, U + 'network_to_file': 'C19', U + 'agents_to_file': 'C20'},
     assumptions=['validated settings: intervals and output start are positive (C21); numbering offset and number of '
                  'iterations below 2^62', 'the model is of a class that the program makes with make_unique',
                  'in this check the functions of the models are verified for counting only: that they do not run into '
                  'undefined behaviour is decided by C10 to C18', 'termination is not claimed: a model without limit may run forever',
                  'fmt::format renders equal numbers equally and the path of a file is a function of directory and name'])
prop('C23', 'A seed and a configuration determine a run', [], effects=[U + 'Simulation::' + x for x in (
    'Simulation', 'run', 'create_network', 'create_model')],
     src=['DeGroot', 'DeffuantModel', 'DeffuantModelVector', 'ActivityDrivenModel', 'InertialModel'],
     technique='effect contracts on the C++ sources (every reachable function is checked against the contract "deterministic", callers '
               'against the contract of callees), a run-twice harness replays failures on the real code',
     note='Every function that Simulation can reach satisfies the effect contract of cxv/effects.py, checked on the current sources '
          'by a syntax-directed checker (no solver). The step from the contracts to equal runs is the argument in that file.',
     assumptions=['library functions in the table DET of cxv/effects.py are functions of their operands',
                  'one binary: operands are evaluated in the same order, floating point operations give the same results',
                  'no access outside lifetime or bounds (C01 to C18); the input files do not change between the runs',
                  'the clock reaches the terminal only (checked), so output files do not depend on it'])
prop('C24', 'Configuration keys reach the settings they name', ['Seldon::Config::parse_config_file'],
     src=['config_parser', 'tomlplusplus'],
     assumptions=['toml++ documents are trees of nodes; kind, value<T>, is/as, array elements and the lookup of a key are '
                  'functions of the node (cxv/tomlmodel.py); what value<T> accepts is left to toml++',
                  'the numbers given for bot_m fit into an int; fewer than 2^60 bots',
                  'lists with elements that are not numbers are left out of the statement'])
prop('C26', 'Comma separated lists are split exactly', [U + 'parse_comma_separated_list'],
     assumptions=['strings have fewer than 2^31 - 1 characters (the field number is an int)',
                  'the callback is any function that may change the field it is given and nothing else the function uses'])

NOT_APPLICABLE = {f'C{i:02d}': 'check not built yet' for i in range(1, 27)}
