"""edits that keep the behaviour: python3 dev/refac.py writes dev/refac/<id>.diff (first line: # properties to run)"""
import os, subprocess, tempfile, shutil
R = []


def r(i, props, *edits):
    R.append((i, props, edits))


NET, GENH, MATH, TJ, AD = ('include/network.hpp', 'include/network_generation.hpp', 'include/util/math.hpp', 'include/connectivity.hpp',
                           'include/models/ActivityDrivenModel.hpp')
r('net1', 'C01 C02 C03', (NET, '''        for( size_t i_agent = 0; i_agent < n_agents(); i_agent++ )
        {
            for( size_t i_neighbour = 0; i_neighbour < neighbour_list[i_agent].size(); i_neighbour++ )
            {
                const auto neighbour = neighbour_list[i_agent][i_neighbour];
                const auto weight    = weight_list[i_agent][i_neighbour];
                neighbour_list_transpose[neighbour].push_back( i_agent );
                weight_list_transpose[neighbour].push_back( weight );
            }
        }
''', '''        const size_t n = n_agents();
        for( size_t i_agent = 0; i_agent < n; ++i_agent )
        {
            const auto & neighbours = neighbour_list[i_agent];
            const auto & weights    = weight_list[i_agent];
            const size_t n_neighbours = neighbours.size();
            for( size_t i_neighbour = 0; i_neighbour < n_neighbours; ++i_neighbour )
            {
                weight_list_transpose[neighbours[i_neighbour]].push_back( weights[i_neighbour] );
                neighbour_list_transpose[neighbours[i_neighbour]].push_back( i_agent );
            }
        }
'''), (NET, '''                if( last_neighbour_index != current_neigbhour_idx )
                {
                    weights_copy.push_back( current_weight );
                    neighbours_copy.push_back( current_neigbhour_idx );
                    last_neighbour_index = current_neigbhour_idx;
                }
                else
                {
                    weights_copy.back() += current_weight;
                }
''', '''                const bool is_duplicate
                    = last_neighbour_index.has_value() && last_neighbour_index.value() == current_neigbhour_idx;
                if( is_duplicate )
                {
                    weights_copy.back() += current_weight;
                    continue;
                }
                neighbours_copy.push_back( current_neigbhour_idx );
                weights_copy.push_back( current_weight );
                last_neighbour_index = current_neigbhour_idx;
'''), (NET, '''        for( auto & w : weight_list )
            w.clear();

        for( auto & n : neighbour_list )
            n.clear();
''', '''        for( size_t i = 0; i < neighbour_list.size(); i++ )
        {
            neighbour_list[i].clear();
            weight_list[i].clear();
        }
'''))
r('net2', 'C01 C03', (NET, '''        if( direction() == EdgeDirection::Incoming )
        {
            _direction = EdgeDirection::Outgoing;
        }
        else
        {
            _direction = EdgeDirection::Incoming;
        }
''', '''        _direction
            = ( _direction == EdgeDirection::Incoming ) ? EdgeDirection::Outgoing : EdgeDirection::Incoming;
'''), (NET, '''            return std::transform_reduce(
                neighbour_list.cbegin(), neighbour_list.cend(), std::size_t{ 0 }, std::plus{},
                []( const auto & neigh_list ) { return neigh_list.size(); } );
''', '''            std::size_t total = 0;
            for( const auto & neigh_list : neighbour_list )
            {
                total += neigh_list.size();
            }
            return total;
'''), (NET, '''        weight_list[agent_idx].resize( buffer_neighbours.size() );
        std::fill( weight_list[agent_idx].begin(), weight_list[agent_idx].end(), weight );
''', '''        weight_list[agent_idx].assign( buffer_neighbours.size(), weight );
'''))
r('tarjan', 'C04', (TJ, '''            // If u hasn't been visited do a DFS
            if( !visited[u] )
            {
                // recursive call to DFS
                depth_first_search( u );
                lowest[v] = std::min( lowest[v], lowest[u] );
            } // u not visited
            else
            {
                // If u has been processed, then it is a cross-edge and should be ignored.
                // If u has been visited but not processed:
                if( !processed[u] )
                {
                    lowest[v] = std::min( lowest[v], num[u] );
                } // u not processed
            } // u has been visited
''', '''            if( visited[u] )
            {
                if( !processed[u] && num[u] < lowest[v] )
                {
                    lowest[v] = num[u];
                }
            }
            else
            {
                depth_first_search( u );
                if( lowest[u] < lowest[v] )
                {
                    lowest[v] = lowest[u];
                }
            }
'''), (TJ, '''            scc.resize( 0 );
            size_t scc_vertex = 0;
            // Pop the stack
            scc_vertex = stack.back();
            stack.pop_back();
            processed[scc_vertex] = true; // Only vertices assigned to an SCC are done, not those still on the stack
            while( scc_vertex != v )
            {
                scc.push_back( scc_vertex ); // Add to the SCC
                // Pop the stack
                scc_vertex = stack.back();
                stack.pop_back();
                processed[scc_vertex] = true;
            } // unravelling stack
''', '''            scc.clear();
            size_t scc_vertex = pop_stack();
            while( scc_vertex != v )
            {
                scc.push_back( scc_vertex ); // Add to the SCC
                scc_vertex = pop_stack();
            } // unravelling stack
'''), (TJ, '''    // Depth-first search
    // v: Current vertex
''', '''    size_t pop_stack()
    {
        const size_t vertex = stack.back();
        stack.pop_back();
        processed[vertex] = true;
        return vertex;
    }

    // Depth-first search
    // v: Current vertex
'''))
r('tarjan2', 'C04', (TJ, '''            scc.resize( 0 );
            size_t scc_vertex = 0;
            // Pop the stack
            scc_vertex = stack.back();
            stack.pop_back();
            processed[scc_vertex] = true; // Only vertices assigned to an SCC are done, not those still on the stack
            while( scc_vertex != v )
            {
                scc.push_back( scc_vertex ); // Add to the SCC
                // Pop the stack
                scc_vertex = stack.back();
                stack.pop_back();
                processed[scc_vertex] = true;
            } // unravelling stack
            // Add the last vertex
            scc.push_back( scc_vertex );
''', '''            size_t scc_vertex = 0;
            do
            {
                scc_vertex = stack.back();
                stack.pop_back();
                processed[scc_vertex] = true;
                scc.push_back( scc_vertex );
            } while( scc_vertex != v );
'''))
r('tarjan3', 'C04', (TJ, '''            scc.resize( 0 );
            size_t scc_vertex = 0;
            // Pop the stack
            scc_vertex = stack.back();
            stack.pop_back();
            processed[scc_vertex] = true; // Only vertices assigned to an SCC are done, not those still on the stack
            while( scc_vertex != v )
            {
                scc.push_back( scc_vertex ); // Add to the SCC
                // Pop the stack
                scc_vertex = stack.back();
                stack.pop_back();
                processed[scc_vertex] = true;
            } // unravelling stack
            // Add the last vertex
            scc.push_back( scc_vertex );
''', '''            while( true )
            {
                const size_t scc_vertex = stack.back();
                stack.pop_back();
                processed[scc_vertex] = true;
                scc.push_back( scc_vertex );
                if( scc_vertex == v )
                    break;
            }
'''))
r('gen1', 'C05', (GENH, '''        incoming_neighbour_weights.resize( incoming_neighbour_buffer.size() );
        for( size_t j = 0; j < incoming_neighbour_buffer.size(); ++j )
        {
            incoming_neighbour_weights[j] = dis( gen ); // Draw the weight
            outgoing_norm_weight += incoming_neighbour_weights[j];
        }
''', '''        for( size_t j = 0; j < incoming_neighbour_buffer.size(); ++j )
        {
            const WeightT w = dis( gen ); // Draw the weight
            incoming_neighbour_weights.push_back( w );
            outgoing_norm_weight += w;
        }
'''), (GENH, '''        for( size_t j = 0; j < incoming_neighbour_buffer.size(); ++j )
        {
            incoming_neighbour_weights[j] /= outgoing_norm_weight;
        }

        // Add the neighbour vector for i_agent to the neighbour list
        neighbour_list.push_back( incoming_neighbour_buffer );
        // Add the weight interactions for the neighbours of i_agent
        weight_list.push_back( incoming_neighbour_weights );

    } // end of loop through n_agents

    return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
}

// @TODO gen''', '''        for( auto & w : incoming_neighbour_weights )
        {
            w /= outgoing_norm_weight;
        }

        // Add the weight interactions for the neighbours of i_agent
        weight_list.push_back( incoming_neighbour_weights );
        // Add the neighbour vector for i_agent to the neighbour list
        neighbour_list.push_back( incoming_neighbour_buffer );

    } // end of loop through n_agents

    return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
}

// @TODO gen'''))
r('gen2', 'C06 C07', (GENH, '''    // Loop through all the agents and update the neighbour_list and weight_list
    for( size_t i_agent = 0; i_agent < n_agents; ++i_agent )
    {
        // Add the neighbour vector for i_agent to the neighbour list
        neighbour_list.push_back( incoming_neighbour_buffer );
        // Add the weight interactions for the neighbours of i_agent
        weight_list.push_back( incoming_neighbour_weights );

    } // end of loop through n_agents
''', '''    neighbour_list.assign( n_agents, incoming_neighbour_buffer );
    weight_list.assign( n_agents, incoming_neighbour_weights );
'''), (GENH, '''        if( k >= int( n_edge ) )
        {
            return k - int( n_edge );
        }
        else if( k < 0 )
        {
            return int( n_edge ) + k;
        }
        else
        {
            return k;
        }
''', '''        const int n = int( n_edge );
        if( k < 0 )
            return k + n;
        return k >= n ? k - n : k;
'''), (GENH, '''    for( int i = 0; i < int( n_edge ); i++ )
    {
        // other edge
        for( int j = 0; j < int( n_edge ); j++ )
        {
''', '''    for( int j = 0; j < int( n_edge ); j++ )
    {
        // other edge
        for( int i = 0; i < int( n_edge ); i++ )
        {
'''))
r('lattice', 'C07', (GENH, '''    for( int i = 0; i < int( n_edge ); i++ )
    {
        // other edge
        for( int j = 0; j < int( n_edge ); j++ )
        {
            // Central agent
            auto central_index = linear_index( i, j );

            // clang-format off
            std::vector<size_t> neighbours = {
                linear_index( i - 1, j ), 
                linear_index( i + 1, j ), 
                linear_index( i, j - 1 ),
                linear_index( i, j + 1 )
            };

            // clang-format on
            network.set_neighbours_and_weights( central_index, neighbours, weight );
        }
    }
''', '''    for( size_t idx = 0; idx < n_agents; idx++ )
    {
        const int i = int( idx % n_edge );
        const int j = int( idx / n_edge );
        std::vector<size_t> neighbours = { linear_index( i, j + 1 ), linear_index( i - 1, j ), linear_index( i + 1, j ),
                                           linear_index( i, j - 1 ) };
        network.set_neighbours_and_weights( idx, neighbours, weight );
    }
'''))
r('math1', 'C09 C12', (MATH, '''    size_t idx = 0;
    while( ( idx < n ) && ( H.size() < k ) )
    {
        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
        H.push( { idx, r } );
        idx++;
    }
''', '''    size_t idx = 0;
    for( ; idx < n && H.size() < k; ++idx )
    {
        const double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
        H.push( { idx, r } );
    }
'''), (MATH, '''    buffer.resize( H.size() );

    for( size_t i = 0; i < buffer.size(); i++ )
    {
        buffer[i] = H.top().first;
        H.pop();
    }
''', '''    while( !H.empty() )
    {
        buffer.push_back( H.top().first );
        H.pop();
    }
'''), (MATH, '''    for( size_t i = 0; i < v2.size(); i++ )
    {
        if( v1[i] != v2[i] )
            distance++;
    }
''', '''    const size_t n = v1.size();
    for( size_t i = 0; i < n; ++i )
    {
        distance += ( v1[i] == v2[i] ) ? 0 : 1;
    }
'''))
r('math2', 'C08 C25', (MATH, '''        SequenceGenerator & operator++()
        {
            i++;
            if( ignore_idx.has_value() && i == ignore_idx )
                i++;
            return *this;
        }
''', '''        SequenceGenerator & operator++()
        {
            ++i;
            skip();
            return *this;
        }
        void skip()
        {
            if( ignore_idx.has_value() && i == *ignore_idx )
                ++i;
        }
'''), (MATH, '''        return std::pow(
            ( 1.0 - std::pow( eps, ( 1.0 - gamma ) ) ) * x + std::pow( eps, ( 1.0 - gamma ) ),
            ( 1.0 / ( 1.0 - gamma ) ) );
''', '''        const ScalarT one_minus_gamma = 1.0 - gamma;
        const ScalarT lower           = std::pow( eps, one_minus_gamma );
        return std::pow( ( 1.0 - lower ) * x + lower, 1.0 / one_minus_gamma );
'''), (MATH, '''        return inverse_cdf_gauss( y * ( 1.0 - cdf_gauss( eps ) ) + cdf_gauss( eps ) );
''', '''        const ScalarT lower = cdf_gauss( eps );
        return inverse_cdf_gauss( y * ( 1.0 - lower ) + lower );
'''))
DG = 'src/models/DeGroot.cpp'
r('degroot', 'C10', (DG, '''        agents_current_copy[i].data.opinion = 0.0;
        for( size_t j = 0; j < neighbour_buffer.size(); j++ )
        {
            j_index = neighbour_buffer[j];
            weight  = weight_buffer[j];
            agents_current_copy[i].data.opinion += weight * network.agents[j_index].data.opinion;
        }
''', '''        double next_opinion = 0.0;
        for( size_t j = 0; j < neighbour_buffer.size(); j++ )
        {
            next_opinion += weight_buffer[j] * network.agents[neighbour_buffer[j]].data.opinion;
        }
        agents_current_copy[i].data.opinion = next_opinion;
'''), (DG, '''    size_t j_index = 0;
    double weight  = 0.0;

''', ''), (DG, '''        max_opinion_diff = std::max(
            max_opinion_diff.value(),
            std::abs( network.agents[i].data.opinion - agents_current_copy[i].data.opinion ) );
        network.agents[i] = agents_current_copy[i];
''', '''        const auto diff = std::abs( agents_current_copy[i].data.opinion - network.agents[i].data.opinion );
        if( diff > max_opinion_diff.value() )
        {
            max_opinion_diff = diff;
        }
        network.agents[i].data.opinion = agents_current_copy[i].data.opinion;
'''), (DG, '''    bool converged = false;

    if( max_opinion_diff.has_value() )
        converged = max_opinion_diff.value() < convergence_tol;

    return Model<AgentT>::finished() || converged;
''', '''    if( Model<AgentT>::finished() )
    {
        return true;
    }
    return max_opinion_diff.has_value() && *max_opinion_diff < convergence_tol;
'''))
r('degroot2', 'C10', (DG, '''        auto neighbour_buffer               = network.get_neighbours( i );
        auto weight_buffer                  = network.get_weights( i );
        agents_current_copy[i].data.opinion = 0.0;
        for( size_t j = 0; j < neighbour_buffer.size(); j++ )
        {
            j_index = neighbour_buffer[j];
            weight  = weight_buffer[j];
            agents_current_copy[i].data.opinion += weight * network.agents[j_index].data.opinion;
        }
    }
''', '''        agents_current_copy[i].data.opinion = weighted_opinion( network, i );
    }
'''), (DG, '''    size_t j_index = 0;
    double weight  = 0.0;

''', ''), (DG, '''void DeGrootModel::iteration()
''', '''static double weighted_opinion( const Network<SimpleAgent> & network, size_t i )
{
    double opinion = 0.0;
    auto neighbour_buffer = network.get_neighbours( i );
    auto weight_buffer    = network.get_weights( i );
    for( size_t j = 0; j < neighbour_buffer.size(); j++ )
    {
        opinion += weight_buffer[j] * network.agents[neighbour_buffer[j]].data.opinion;
    }
    return opinion;
}

void DeGrootModel::iteration()
'''))
DF = 'src/models/DeffuantModel.cpp'
r('deffuant', 'C11', (DF, '''    if( std::abs( opinion_diff ) < homophily_threshold )
    {
        agent1.data.opinion -= mu * opinion_diff;
        agent2.data.opinion += mu * opinion_diff;
    }
''', '''    if( !( std::abs( opinion_diff ) < homophily_threshold ) )
    {
        return;
    }
    const double shift  = mu * opinion_diff;
    agent2.data.opinion = agent2.data.opinion + shift;
    agent1.data.opinion = agent1.data.opinion - shift;
'''), (DF, '''    for( size_t i = 0; i < network.agents.size(); i++ )
    {
        network.agents[i].data.opinion = double( i ) / double( network.agents.size() );
    }
''', '''    const size_t n_agents = network.agents.size();
    size_t i              = 0;
    for( auto & agent : network.agents )
    {
        agent.data.opinion = double( i ) / double( n_agents );
        i++;
    }
'''))
r('adnet', 'C14', (AD, '''            // Test if the agent is activated
            bool activated = dis_activation( gen ) < network.agents[idx_agent].data.activity;

            if( activated )
            {
''', '''            if( dis_activation( gen ) < network.agents[idx_agent].data.activity )
            {
'''), (AD, '''                int m_temp = this->m;

                if( bot_present() && idx_agent < n_bots )
                {
                    m_temp = bot_m[idx_agent];
                }
''', '''                const int m_temp = contacts_of( idx_agent );
'''), (AD, '''                // Fill the outgoing edges into the reciprocal edge buffer
                for( const auto & idx_outgoing : contacted_agents )
                {
                    reciprocal_edge_buffer.insert(
                        { idx_agent, idx_outgoing } ); // insert the edge idx_agent -> idx_outgoing
                }

                // Set the *outgoing* edges
                network.set_neighbours_and_weights( idx_agent, contacted_agents, 1.0 );
''', '''                // Set the *outgoing* edges
                network.set_neighbours_and_weights( idx_agent, contacted_agents, 1.0 );

                // Fill the outgoing edges into the reciprocal edge buffer
                for( size_t i = 0; i < contacted_agents.size(); i++ )
                {
                    reciprocal_edge_buffer.insert( { idx_agent, contacted_agents[i] } );
                }
'''), (AD, '''    void update_network_probabilistic()
''', '''    int contacts_of( size_t idx_agent ) const
    {
        return ( bot_present() && idx_agent < n_bots ) ? bot_m[idx_agent] : m;
    }

    void update_network_probabilistic()
'''), (AD, '''                if( !reciprocal_edge_buffer.contains( { idx_outgoing, idx_agent } ) )
                {
                    if( dis_reciprocation( gen ) < reciprocity )
                    {
                        network.push_back_neighbour_and_weight( idx_outgoing, idx_agent, 1.0 );
                    }
                }
''', '''                if( reciprocal_edge_buffer.contains( { idx_outgoing, idx_agent } ) )
                    continue;
                if( dis_reciprocation( gen ) < reciprocity )
                    network.push_back_neighbour_and_weight( idx_outgoing, idx_agent, 1.0 );
'''))
r('admean', 'C17', (AD, '''            double normalization = 0;
            for( size_t k = 0; k < network.n_agents(); k++ )
            {
                normalization += homophily_weight( idx_agent, k );
            }
''', '''            const double normalization = total_homophily( idx_agent );
'''), (AD, '''    void update_network_mean()
''', '''    double total_homophily( size_t idx_agent )
    {
        double total = 0;
        for( size_t k = 0; k < network.n_agents(); k++ )
        {
            total += homophily_weight( idx_agent, k );
        }
        return total;
    }

    void update_network_mean()
'''), (AD, '''                // Set the incoming agent weight, j-i in weight list
                double & win_ji = network.get_weights( j )[idx_agent];
                win_ji += prob_contact_ij;

                // Handle the reciprocity for j->i
                // Update incoming weight i-j
                double & win_ij = network.get_weights( idx_agent )[j];

                // The probability of reciprocating is
                win_ij += ( 1.0 - prob_contact_ji ) * reciprocity * prob_contact_ij;
''', '''                network.get_weights( idx_agent )[j] += reciprocity * prob_contact_ij * ( 1.0 - prob_contact_ji );
                network.get_weights( j )[idx_agent] += prob_contact_ij;
'''))
r('slopes', 'C15 C16', (AD, '''            k_buffer[idx_agent]   = -opinion( idx_agent );
            // Loop through neighbouring agents
            for( size_t j = 0; j < neighbour_buffer.size(); j++ )
            {
                j_index = neighbour_buffer[j];
                k_buffer[idx_agent] += 1.0 / network.agents[idx_agent].data.reluctance * K * weight_buffer[j]
                                       * std::tanh( alpha * opinion( j_index ) );
            }
''', '''            const double prefactor = K / network.agents[idx_agent].data.reluctance;
            double slope           = -opinion( idx_agent );
            // Loop through neighbouring agents
            for( size_t j = 0; j < neighbour_buffer.size(); j++ )
            {
                j_index = neighbour_buffer[j];
                slope += prefactor * weight_buffer[j] * std::tanh( alpha * opinion( j_index ) );
            }
            k_buffer[idx_agent] = slope;
'''))
r('adctor', 'C18', (AD, '''            network.agents[i].data.opinion = dis_opinion( gen ); // Draw the opinion value

            auto res                        = copula( gen );
            network.agents[i].data.activity = res[0];

            if( use_reluctances )
            {
                network.agents[i].data.reluctance = res[1];
            }
            if( mean_activities )
            {
                network.agents[i].data.activity = mean_activity;
            }
''', '''            auto & data  = network.agents[i].data;
            data.opinion = dis_opinion( gen ); // Draw the opinion value

            const auto res = copula( gen );
            data.activity  = mean_activities ? mean_activity : res[0];

            if( use_reluctances )
                data.reluctance = res[1];
'''), (AD, '''        if( bot_present() )
        {
            for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
            {
                network.agents[bot_idx].data.opinion  = bot_opinion[bot_idx];
                network.agents[bot_idx].data.activity = bot_activity[bot_idx];
            }
        }
''', '''        for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        {
            network.agents[bot_idx].data.activity = bot_activity[bot_idx];
            network.agents[bot_idx].data.opinion  = bot_opinion[bot_idx];
        }
'''))
IN = 'src/models/InertialModel.cpp'
r('inertial', 'C16', (IN, '''        auto accleration     = drift_t_buffer[idx_agent] - friction_coefficient * agent_data.velocity;
        double next_position = agent_data.opinion + agent_data.velocity * dt + 0.5 * (accleration)*dt * dt;

        // Update the position to the new position
        agent_data.opinion = next_position;
''', '''        const double acceleration = drift_t_buffer[idx_agent] - friction_coefficient * agent_data.velocity;
        agent_data.opinion += dt * ( agent_data.velocity + 0.5 * dt * acceleration );
'''), (IN, '''        double next_velocity = agent_data.velocity
                               + 0.5 * dt
                                     * ( drift_t_buffer[idx_agent] - friction_coefficient * agent_data.velocity
                                         + drift_next_t_buffer[idx_agent] );
        next_velocity /= 1.0 + 0.5 * friction_coefficient * dt;

        // Update velocity
        agent_data.velocity = next_velocity;
''', '''        const double half_dt = 0.5 * dt;
        const double force   = drift_t_buffer[idx_agent] + drift_next_t_buffer[idx_agent]
                             - friction_coefficient * agent_data.velocity;
        agent_data.velocity = ( agent_data.velocity + half_dt * force ) / ( 1.0 + half_dt * friction_coefficient );
'''), (IN, '''    if( bot_present() )
    {
        for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        {
            network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
        }
    }
''', '''    if( !bot_present() )
        return;

    for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
'''))
SIM = 'include/simulation.hpp'
r('sim1', 'C22 C23', (SIM, '''            if( n_output_agents.has_value() && ( this->model->n_iterations() >= start_output )
                && ( this->model->n_iterations() % n_output_agents.value() == 0 ) )
            {
                auto filename = fmt::format( "opinions_{}.txt", this->model->n_iterations() + initial_step_number );
                Seldon::agents_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
            }
''', '''            const auto n_iterations = this->model->n_iterations();
            const bool past_start   = n_iterations >= start_output;
            if( past_start && n_output_agents.has_value() && n_iterations % n_output_agents.value() == 0 )
            {
                write_agents( output_dir_path, n_iterations + initial_step_number );
            }
'''), (SIM, '''    void run( const fs::path & output_dir_path ) override
''', '''    void write_agents( const fs::path & output_dir_path, size_t number )
    {
        auto filename = fmt::format( "opinions_{}.txt", number );
        Seldon::agents_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
    }

    void run( const fs::path & output_dir_path ) override
'''), (SIM, '''            auto filename = fmt::format( "opinions_{}.txt", initial_step_number );
            Seldon::agents_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
        }
''', '''            write_agents( output_dir_path, initial_step_number );
        }
'''))
r('sim2', 'C22 C23', (SIM, '''        while( !this->model->finished() )
        {
''', '''        for( ;; )
        {
            if( this->model->finished() )
            {
                break;
            }
'''))
AIO = 'include/agent_io.hpp'
r('io1', 'C20', (AIO, '''    for( auto col : column_names )
    {
        header += ", " + col;
    }
''', '''    for( size_t i = 0; i < column_names.size(); i++ )
    {
        header += ", ";
        header += column_names[i];
    }
'''), (AIO, '''    for( size_t idx_agent = 0; idx_agent < n_agents; idx_agent++ )
    {
        std::string row = fmt::format( "{:>5}, {:>25}\\n", idx_agent, agent_to_string( network.agents[idx_agent] ) );
        fs << row;
    }
''', '''    size_t idx_agent = 0;
    for( const auto & agent : network.agents )
    {
        fs << fmt::format( "{:>5}, {:>25}\\n", idx_agent, agent_to_string( agent ) );
        idx_agent++;
    }
'''))
r('io2', 'C19', (GENH, '''        if( line.empty() )
        {
            break;
        }

        if( line[0] == '#' )
        {
            continue;
        }
''', '''        if( line.empty() )
            break;

        const bool is_comment = line[0] == '#';
        if( is_comment )
            continue;
'''), (GENH, '''            // First column is idx_agent (does not get used)
            if( idx_column == 1 ) // Second column contains the number of incoming neighbours
            {
                n_neighbours = std::stoi( column_substring );
            }
            else if(
                ( idx_column >= 2 )
                && ( idx_column < 2 + n_neighbours ) ) // The next n_neighbours columsn contain the neighbour indices
            {
                const auto idx_neighbour = std::stoi( column_substring );
                neighbour_list.back().push_back( idx_neighbour );
            }
            else if( idx_column >= 2 + n_neighbours )
            { // The rest of the columns are the weights
                const auto weight = std::stod( column_substring );
                weight_list.back().push_back( weight );
            }
            idx_column++;
''', '''            const size_t first_weight_column = 2 + n_neighbours;
            if( idx_column == 1 )
            {
                n_neighbours = std::stoi( column_substring );
            }
            else if( idx_column >= first_weight_column )
            {
                weight_list.back().push_back( std::stod( column_substring ) );
            }
            else if( idx_column >= 2 )
            {
                neighbour_list.back().push_back( std::stoi( column_substring ) );
            }
            ++idx_column;
'''))

CFG, CPPAD, CPPIN, DVEC, DEFF, MISC, SIM, NIO, AIO, FAC, CDEG, CDEF = ('src/config_parser.cpp', 'src/models/ActivityDrivenModel.cpp', 'src/models/InertialModel.cpp',
    'src/models/DeffuantModelVector.cpp', 'include/models/DeffuantModel.hpp', 'include/util/misc.hpp', 'include/simulation.hpp',
    'include/network_io.hpp', 'include/agent_io.hpp', 'include/model_factory.hpp', 'src/models/DeGroot.cpp', 'src/models/DeffuantModel.cpp')
r('cfg1', 'C21 C24', (CFG, '''    if( model_string == "DeGroot" )
    {
        return Model::DeGroot;
    }
    else if( model_string == "ActivityDriven" )
    {
        return Model::ActivityDrivenModel;
    }
    else if( model_string == "Deffuant" )
    {
        return Model::DeffuantModel;
    }
    else if( model_string == "ActivityDrivenInertial" )
    {
        return Model::ActivityDrivenInertial;
    }
''', '''    if( model_string == "ActivityDrivenInertial" )
        return Model::ActivityDrivenInertial;
    if( model_string == "ActivityDriven" )
        return Model::ActivityDrivenModel;
    if( model_string == "DeGroot" )
        return Model::DeGroot;
    if( model_string == "Deffuant" )
        return Model::DeffuantModel;
'''), (CFG, '''void set_if_specified( auto & opt, const auto & toml_opt )
{
    using T    = typename std::remove_reference<decltype( opt )>::type;
    auto t_opt = toml_opt.template value<T>();
    if( t_opt.has_value() )
        opt = t_opt.value();
}
''', '''void set_if_specified( auto & opt, const auto & toml_opt )
{
    using T = std::remove_reference_t<decltype( opt )>;
    if( auto t_opt = toml_opt.template value<T>() )
        opt = *t_opt;
}

DeffuantSettings parse_deffuant_settings( const auto & toml_model_opt, const auto & tbl )
{
    DeffuantSettings settings;
    set_if_specified( settings.dim, toml_model_opt["dim"] );
    set_if_specified( settings.use_binary_vector, toml_model_opt["binary_vector"] );
    set_if_specified( settings.use_network, toml_model_opt["use_network"] );
    set_if_specified( settings.mu, toml_model_opt["mu"] );
    set_if_specified( settings.homophily_threshold, toml_model_opt["homophily_threshold"] );
    settings.max_iterations = tbl["model"]["max_iterations"].template value<int>();
    return settings;
}
'''), (CFG, '''        auto model_settings           = DeffuantSettings();
        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
        set_if_specified( model_settings.homophily_threshold, tbl[options.model_string]["homophily_threshold"] );
        set_if_specified( model_settings.mu, tbl[options.model_string]["mu"] );
        set_if_specified( model_settings.use_network, tbl[options.model_string]["use_network"] );
        // Options for the DeffuantModelVector model
        set_if_specified( model_settings.use_binary_vector, tbl[options.model_string]["binary_vector"] );
        set_if_specified( model_settings.dim, tbl[options.model_string]["dim"] );
        options.model_settings = model_settings;
''', '''        options.model_settings = parse_deffuant_settings( tbl[options.model_string], tbl );
'''))
r('cfg2', 'C21 C24', (CFG, '''    auto validate_activity = [&]( const auto & model_settings )
    {
        check( name_and_var( model_settings.dt ), g_zero );
        check( name_and_var( model_settings.m ), geq_zero );
        check( name_and_var( model_settings.eps ), g_zero );
        check( name_and_var( model_settings.gamma ), []( auto x ) { return x > 2.0; } );
''', '''    auto validate_activity = [&]( const auto & model_settings )
    {
        auto above_two = []( double x ) { return 2.0 < x; };
        check( name_and_var( model_settings.gamma ), above_two );
        check( name_and_var( model_settings.eps ), g_zero );
        check( name_and_var( model_settings.m ), geq_zero );
        check( name_and_var( model_settings.dt ), g_zero );
'''), (CFG, '''    if( !condition( variable ) )
    {
        std::string msg = fmt::format( "The value {} is not valid for {}", variable, variable_name );
        if( explanation.has_value() )
        {
            msg += "\\n";
            msg += explanation.value();
        }
        throw std::runtime_error( msg );
    }
''', '''    const bool valid = condition( variable );
    if( valid )
        return;

    std::string msg = fmt::format( "The value {} is not valid for {}", variable, variable_name );
    if( explanation )
        msg += "\\n" + *explanation;
    throw std::runtime_error( msg );
'''), (CFG, '''    if( options.model == Model::ActivityDrivenModel )
    {
        auto model_settings = std::get<ActivityDrivenSettings>( options.model_settings );

        validate_activity( model_settings );
    }
    else if( options.model == Model::ActivityDrivenInertial )
    {
        auto model_settings = std::get<ActivityDrivenInertialSettings>( options.model_settings );
        check( name_and_var( model_settings.friction_coefficient ), geq_zero );
        validate_activity( model_settings );
    }
    else if( options.model == Model::DeGroot )
    {
        auto model_settings = std::get<DeGrootSettings>( options.model_settings );
        check( name_and_var( model_settings.convergence_tol ), geq_zero );
    }
    else if( options.model == Model::DeffuantModel )
    {
        auto model_settings = std::get<DeffuantSettings>( options.model_settings );
''', '''    switch( options.model )
    {
    case Model::ActivityDrivenModel:
        validate_activity( std::get<ActivityDrivenSettings>( options.model_settings ) );
        break;
    case Model::ActivityDrivenInertial: {
        const auto & model_settings = std::get<ActivityDrivenInertialSettings>( options.model_settings );
        validate_activity( model_settings );
        check( name_and_var( model_settings.friction_coefficient ), geq_zero );
        break;
    }
    case Model::DeGroot: {
        const auto & model_settings = std::get<DeGrootSettings>( options.model_settings );
        check( name_and_var( model_settings.convergence_tol ), geq_zero );
        break;
    }
    case Model::DeffuantModel: {
        const auto & model_settings = std::get<DeffuantSettings>( options.model_settings );
'''), (CFG, '''            check( name_and_var( model_settings.dim ), []( auto x ) { return x == 1; }, basic_deff_msg );
        }
    }
}
''', '''            check( name_and_var( model_settings.dim ), []( auto x ) { return x == 1; }, basic_deff_msg );
        }
        break;
    }
    }
}
'''))
r('rk4', 'C15 C16 C23', (CPPAD, '''    for( size_t idx_agent = 0; idx_agent < network.n_agents(); ++idx_agent )
    {
        // y_(n+1) =   y_n+1/6k_1+1/3k_2+1/3k_3+1/6k_4+O(h^5)
        network.agents[idx_agent].data.opinion
            += dt
               * ( k1_buffer[idx_agent] + 2 * k2_buffer[idx_agent] + 2 * k3_buffer[idx_agent] + k4_buffer[idx_agent] )
               / 6.0;
    }
''', '''    const auto n = network.n_agents();
    for( size_t i = 0; i != n; i++ )
    {
        auto & opinion      = network.agents[i].data.opinion;
        const double middle = k2_buffer[i] + k3_buffer[i];
        const double slope  = k1_buffer[i] + 2.0 * middle + k4_buffer[i];
        opinion             = opinion + dt / 6.0 * slope;
    }
'''), (CPPAD, '''    if( bot_present() )
    {
        for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        {
            network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
        }
    }
''', '''    for( size_t bot_idx = 0; bot_idx < n_bots; bot_idx++ )
        network.agents[bot_idx].data.opinion = bot_opinion[bot_idx];
'''))
r('rk4b', 'C15 C16', (CPPAD, '''    get_euler_slopes( k1_buffer, [this]( size_t i ) { return network.agents[i].data.opinion; } );
''', '''    auto current = [this]( size_t i ) { return network.agents[i].data.opinion; };
    auto shifted = [this, &current]( const std::vector<double> & k, double h )
    { return [&current, &k, h]( size_t i ) { return current( i ) + h * k[i]; }; };
    get_euler_slopes( k1_buffer, current );
'''), (CPPAD, '''    get_euler_slopes(
        k2_buffer, [this]( size_t i ) { return network.agents[i].data.opinion + 0.5 * dt * this->k1_buffer[i]; } );
''', '''    get_euler_slopes( k2_buffer, shifted( k1_buffer, 0.5 * dt ) );
'''), (CPPAD, '''    get_euler_slopes(
        k3_buffer, [this]( size_t i ) { return network.agents[i].data.opinion + 0.5 * dt * this->k2_buffer[i]; } );
''', '''    get_euler_slopes( k3_buffer, shifted( k2_buffer, 0.5 * dt ) );
'''), (CPPAD, '''    get_euler_slopes(
        k4_buffer, [this]( size_t i ) { return network.agents[i].data.opinion + dt * this->k3_buffer[i]; } );
''', '''    get_euler_slopes( k4_buffer, shifted( k3_buffer, dt ) );
'''))
r('iner2', 'C16 C23', (CPPIN, '''        auto & agent_data    = network.agents[idx_agent].data;
        auto accleration     = drift_t_buffer[idx_agent] - friction_coefficient * agent_data.velocity;
        double next_position = agent_data.opinion + agent_data.velocity * dt + 0.5 * (accleration)*dt * dt;

        // Update the position to the new position
        agent_data.opinion = next_position;
''', '''        auto & agent_data     = network.agents[idx_agent].data;
        const double friction = friction_coefficient * agent_data.velocity;
        agent_data.opinion += dt * ( agent_data.velocity + 0.5 * dt * ( drift_t_buffer[idx_agent] - friction ) );
'''), (CPPIN, '''    for( size_t idx_agent = 0; idx_agent < network.n_agents(); idx_agent++ )
    {
        auto & agent_data    = network.agents[idx_agent].data;
        double next_velocity = agent_data.velocity
                               + 0.5 * dt
                                     * ( drift_t_buffer[idx_agent] - friction_coefficient * agent_data.velocity
                                         + drift_next_t_buffer[idx_agent] );
        next_velocity /= 1.0 + 0.5 * friction_coefficient * dt;

        // Update velocity
        agent_data.velocity = next_velocity;
    }
''', '''    const double denominator = 1.0 + 0.5 * dt * friction_coefficient;
    size_t idx_agent         = 0;
    for( auto & agent : network.agents )
    {
        auto & velocity = agent.data.velocity;
        const double acceleration
            = drift_t_buffer[idx_agent] + drift_next_t_buffer[idx_agent] - friction_coefficient * velocity;
        velocity = ( velocity + 0.5 * dt * acceleration ) / denominator;
        idx_agent++;
    }
'''))
r('dvec', 'C12 C23', (DVEC, '''    for( size_t i = 0; i < network.agents.size(); i++ )
    {
        auto & opinion = network.agents[i].data.opinion;
        opinion.resize( dim );
        for( auto & o : opinion )
        {
            o = dist( gen );
        }
    }
''', '''    for( auto & agent : network.agents )
    {
        auto & opinion = agent.data.opinion;
        opinion.resize( dim );
        for( size_t i = 0; i < dim; ++i )
            opinion[i] = dist( gen );
    }
'''), (DVEC, '''    if( distance < homophily_threshold )
    {
        for( size_t idx_opinion = 0; idx_opinion < dim; idx_opinion++ )
        {
            if( opinion1[idx_opinion] != opinion2[idx_opinion] )
            {
                // randomly select one of the
                auto idx_selected = dist_pair( gen );
                if( idx_selected == 0 && mu < dist_convince( gen ) )
                {
                    opinion1[idx_opinion] = opinion2[idx_opinion];
                }
                else
                {
                    opinion2[idx_opinion] = opinion1[idx_opinion];
                }
            }
        }
    }
''', '''    if( distance >= homophily_threshold )
        return;

    for( size_t idx_opinion = 0; idx_opinion < dim; idx_opinion++ )
    {
        auto & o1 = opinion1[idx_opinion];
        auto & o2 = opinion2[idx_opinion];
        if( o1 == o2 )
            continue;

        const bool first_selected = dist_pair( gen ) == 0;
        if( first_selected && dist_convince( gen ) > mu )
            o1 = o2;
        else
            o2 = o1;
    }
'''))
r('ham', 'C12', (MATH, '''    int distance = 0;
    for( size_t i = 0; i < v2.size(); i++ )
    {
        if( v1[i] != v2[i] )
            distance++;
    }
    return distance;
''', '''    const size_t n = v1.size();
    int distance   = 0;
    for( size_t i = 0; i < n; ++i )
        distance += ( v1[i] == v2[i] ) ? 0 : 1;
    return distance;
'''))
r('deff3', 'C11 C12 C13 C23', (DEFF, '''            // First select an agent randomly
            auto dist       = std::uniform_int_distribution<size_t>( 0, network.n_agents() - 1 );
            auto agent1_idx = dist( gen );
            interacting_agents.push_back( agent1_idx );

            // Choose a neighbour randomly from the neighbour list of agent1_idx
            auto neighbours     = network.get_neighbours( agent1_idx );
            auto n_neighbours   = neighbours.size();
            auto dist_n         = std::uniform_int_distribution<size_t>( 0, n_neighbours - 1 );
            auto index_in_neigh = dist_n( gen ); // Index inside neighbours list
            auto agent2_idx     = neighbours[index_in_neigh];
            interacting_agents.push_back( agent2_idx );

            return interacting_agents;
''', '''            const size_t agent1_idx = draw_index( network.n_agents() );
            const auto neighbours   = network.get_neighbours( agent1_idx );
            const size_t agent2_idx = neighbours[draw_index( neighbours.size() )];
            return { agent1_idx, agent2_idx };
'''), (DEFF, '''private:
    double homophily_threshold{}; // d in paper
''', '''private:
    size_t draw_index( size_t n )
    {
        std::uniform_int_distribution<size_t> dist( 0, n - 1 );
        return dist( gen );
    }

    double homophily_threshold{}; // d in paper
'''), (DEFF, '''        for( size_t i = 0; i < network.n_agents(); i++ )
        {

            auto interacting_agents = select_interacting_agent_pair();

            auto & agent1 = network.agents[interacting_agents[0]];
            auto & agent2 = network.agents[interacting_agents[1]];

            update_rule( agent1, agent2 );
        }
''', '''        const auto n_pairs = network.n_agents();
        for( size_t i = 0; i < n_pairs; i++ )
        {
            const auto pair = select_interacting_agent_pair();
            update_rule( network.agents[pair[0]], network.agents[pair[1]] );
        }
'''), (CDEF, '''    auto opinion_diff = agent1.data.opinion - agent2.data.opinion;
    // Only if less than homophily_threshold
    if( std::abs( opinion_diff ) < homophily_threshold )
    {
        agent1.data.opinion -= mu * opinion_diff;
        agent2.data.opinion += mu * opinion_diff;
    }
''', '''    const double opinion_diff = agent1.data.opinion - agent2.data.opinion;
    if( std::abs( opinion_diff ) >= homophily_threshold )
        return;
    const double step = mu * opinion_diff;
    agent1.data.opinion -= step;
    agent2.data.opinion += step;
'''))
r('misc1', 'C26 C19 C20', (MISC, '''    int idx_entry = 0;
    size_t pos_cur = 0; // Start of the current entry
    while( true )
    {
        auto pos_next = str.find( ',', pos_cur );
        auto substr   = str.substr( pos_cur, pos_next - pos_cur );
        callback( idx_entry, substr );

        pos_cur = pos_next + 1;
        idx_entry++;
        if( pos_next == std::string::npos )
        {
            break;
        }
    }
''', '''    size_t begin = 0;
    for( int column = 0;; ++column )
    {
        const auto comma  = str.find( ',', begin );
        const bool last   = comma == std::string::npos;
        const auto length = last ? str.size() - begin : comma - begin;
        auto entry        = str.substr( begin, length );
        callback( column, entry );
        if( last )
            return;
        begin = comma + 1;
    }
'''))
r('misc2', 'C26 C19 C20', (MISC, '''    std::ifstream in( filename, std::ios::in | std::ios::binary );
    if( in )
    {
        std::string contents;
        in.seekg( 0, std::ios::end );
        contents.resize( in.tellg() );
        in.seekg( 0, std::ios::beg );
        in.read( &contents[0], contents.size() );
        in.close();
        return ( contents );
    }
    throw( std::runtime_error( "Cannot read file." ) );
''', '''    std::ifstream in( filename, std::ios::in | std::ios::binary );
    if( !in )
        throw std::runtime_error( "Cannot read file." );

    in.seekg( 0, std::ios::end );
    const auto length = in.tellg();
    in.seekg( 0, std::ios::beg );
    std::string contents( static_cast<size_t>( length ), '\\0' );
    in.read( contents.data(), length );
    return contents;
'''))
r('nio', 'C19', (NIO, '''        std::string row = fmt::format( "{:>5}, {:>5}", idx_agent, buffer_neighbours.size() );

        if( buffer_neighbours.empty() )
        {
            row += "\\n";
        }
        else
        {
            row += ", ";
        }
''', '''        std::string row = fmt::format( "{:>5}, {:>5}", idx_agent, buffer_neighbours.size() );
        row += buffer_neighbours.empty() ? "\\n" : ", ";
'''), (NIO, '''            const auto & weight = buffer_weights[i_weight];
            if( i_weight == n_weights - 1 ) // At the end of a row
            {
                if( idx_agent == n_agents - 1 ) // At the end of the file
                {
                    row += fmt::format( "{:>25}", weight );
                }
                else
                {
                    row += fmt::format( "{:>25}\\n", weight );
                }
            }
            else
            {
                row += fmt::format( "{:>25}, ", weight );
            }
''', '''            row += fmt::format( "{:>25}", buffer_weights[i_weight] );
            const bool end_of_row = i_weight + 1 == n_weights;
            if( !end_of_row )
                row += ", ";
            else if( idx_agent + 1 < n_agents )
                row += "\\n";
'''))
r('aio', 'C20', (AIO, '''    std::string header = "# idx_agent";
    for( auto col : column_names )
    {
        header += ", " + col;
    }
    header += "\\n";

    fmt::print( fs, "{}", header );
    for( size_t idx_agent = 0; idx_agent < n_agents; idx_agent++ )
    {
        std::string row = fmt::format( "{:>5}, {:>25}\\n", idx_agent, agent_to_string( network.agents[idx_agent] ) );
        fs << row;
    }
    fs.close();
''', '''    std::string header = "# idx_agent";
    for( const auto & col : column_names )
    {
        header += ", ";
        header += col;
    }

    fs << header << "\\n";
    for( size_t idx_agent = 0; idx_agent < n_agents; idx_agent++ )
        fmt::print( fs, "{:>5}, {:>25}\\n", idx_agent, agent_to_string( network.agents[idx_agent] ) );
    fs.close();
'''), (AIO, '''    while( !finished )
    {
        // Find the end of the current line
        auto end_of_line = file_contents.find( '\\n', start_of_line );
        if( end_of_line == std::string::npos )
        {
            finished = true;
        }
''', '''    while( !finished )
    {
        const auto end_of_line = file_contents.find( '\\n', start_of_line );
        finished               = end_of_line == std::string::npos;
'''))
r('sim3', 'C22 C25', (SIM, '''        std::optional<std::string> file = cli_network_file;
        if( !file.has_value() ) // Check if toml file should be superceded by cli_network_file
            file = options.network_settings.file;

        if( file.has_value() )
        {
            network = NetworkGeneration::generate_from_file<AgentType>( file.value() );
        }
        else
        {
            int n_agents       = options.network_settings.n_agents;
            auto n_connections = options.network_settings.n_connections;
            network = NetworkGeneration::generate_n_connections<AgentType>( n_agents, n_connections, true, gen );
        }
''', '''        const auto & file = cli_network_file ? cli_network_file : options.network_settings.file;
        if( file )
        {
            network = NetworkGeneration::generate_from_file<AgentType>( *file );
            return;
        }
        network = NetworkGeneration::generate_n_connections<AgentType>(
            options.network_settings.n_agents, options.network_settings.n_connections, true, gen );
'''), (SIM, '''        if( options.model == Config::Model::DeGroot )
        {
            model = ModelFactory::create_model_degroot( network, options.model_settings );
        }
        else if( options.model == Config::Model::ActivityDrivenModel )
        {
            model = ModelFactory::create_model_activity_driven( network, options.model_settings, gen );
        }
        else if( options.model == Config::Model::ActivityDrivenInertial )
        {
            model = ModelFactory::create_model_activity_driven_inertial( network, options.model_settings, gen );
        }
        else if( options.model == Config::Model::DeffuantModel )
        {
            auto deffuant_settings = std::get<Config::DeffuantSettings>( options.model_settings );
            if( deffuant_settings.use_binary_vector )
            {
                model = ModelFactory::create_model_deffuant_vector( network, options.model_settings, gen );
            }
            else
            {
                model = ModelFactory::create_model_deffuant( network, options.model_settings, gen );
            }
        }
''', '''        const auto & settings = options.model_settings;
        switch( options.model )
        {
        case Config::Model::DeGroot:
            model = ModelFactory::create_model_degroot( network, settings );
            break;
        case Config::Model::ActivityDrivenModel:
            model = ModelFactory::create_model_activity_driven( network, settings, gen );
            break;
        case Config::Model::ActivityDrivenInertial:
            model = ModelFactory::create_model_activity_driven_inertial( network, settings, gen );
            break;
        case Config::Model::DeffuantModel:
            if( std::get<Config::DeffuantSettings>( settings ).use_binary_vector )
                model = ModelFactory::create_model_deffuant_vector( network, settings, gen );
            else
                model = ModelFactory::create_model_deffuant( network, settings, gen );
            break;
        }
'''))
r('sim4', 'C22 C23', (SIM, '''            // Write out the opinion?
            if( n_output_agents.has_value() && ( this->model->n_iterations() >= start_output )
                && ( this->model->n_iterations() % n_output_agents.value() == 0 ) )
            {
                auto filename = fmt::format( "opinions_{}.txt", this->model->n_iterations() + initial_step_number );
                Seldon::agents_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
            }

            // Write out the network?
            if( n_output_network.has_value() && ( this->model->n_iterations() >= start_output )
                && ( this->model->n_iterations() % n_output_network.value() == 0 ) )
            {
                auto filename = fmt::format( "network_{}.txt", this->model->n_iterations() + initial_step_number );
                Seldon::network_to_file( network, ( output_dir_path / fs::path( filename ) ).string() );
            }
''', '''            const size_t step = this->model->n_iterations();
            auto is_due       = [&]( const std::optional<size_t> & interval )
            { return interval.has_value() && step >= start_output && step % *interval == 0; };

            if( is_due( n_output_network ) )
            {
                auto filename = fmt::format( "network_{}.txt", step + initial_step_number );
                Seldon::network_to_file( network, ( output_dir_path / filename ).string() );
            }
            if( is_due( n_output_agents ) )
            {
                auto filename = fmt::format( "opinions_{}.txt", step + initial_step_number );
                Seldon::agents_to_file( network, ( output_dir_path / filename ).string() );
            }
'''))
r('adprob', 'C14 C23', (AD, '''    double homophily_weight( size_t idx_contacter, size_t idx_contacted )
    {
        double homophily = this->homophily;

        if( idx_contacted == idx_contacter )
            return 0.0;

        if( bot_present() && idx_contacter < n_bots )
            homophily = this->bot_homophily[idx_contacter];

        constexpr double tolerance = 1e-10;
        auto opinion_diff
            = std::abs( network.agents[idx_contacter].data.opinion - network.agents[idx_contacted].data.opinion );
        opinion_diff = std::max( tolerance, opinion_diff );

        return std::pow( opinion_diff, -homophily );
    }
''', '''    double homophily_weight( size_t idx_contacter, size_t idx_contacted )
    {
        if( idx_contacted == idx_contacter )
            return 0.0;

        const double exponent = is_bot( idx_contacter ) ? bot_homophily[idx_contacter] : homophily;
        constexpr double tolerance = 1e-10;
        const double diff
            = std::abs( network.agents[idx_contacter].data.opinion - network.agents[idx_contacted].data.opinion );
        return std::pow( diff < tolerance ? tolerance : diff, -exponent );
    }

    [[nodiscard]] bool is_bot( size_t idx_agent ) const
    {
        return idx_agent < n_bots;
    }
'''), (AD, '''            // Test if the agent is activated
            bool activated = dis_activation( gen ) < network.agents[idx_agent].data.activity;

            if( activated )
            {
                // Implement the weight for the probability of agent `idx_agent` contacting agent `j`
                // Not normalised since this is taken care of by the reservoir sampling

                int m_temp = this->m;

                if( bot_present() && idx_agent < n_bots )
                {
                    m_temp = bot_m[idx_agent];
                }

                reservoir_sampling_A_ExpJ(
                    m_temp, network.n_agents(), [&]( int j ) { return homophily_weight( idx_agent, j ); },
                    contacted_agents, gen );

                // Fill the outgoing edges into the reciprocal edge buffer
                for( const auto & idx_outgoing : contacted_agents )
                {
                    reciprocal_edge_buffer.insert(
                        { idx_agent, idx_outgoing } ); // insert the edge idx_agent -> idx_outgoing
                }

                // Set the *outgoing* edges
                network.set_neighbours_and_weights( idx_agent, contacted_agents, 1.0 );
            }
            else
            {
                network.set_neighbours_and_weights( idx_agent, {}, {} );
            }
''', '''            const double activity = network.agents[idx_agent].data.activity;
            if( dis_activation( gen ) >= activity )
            {
                network.set_neighbours_and_weights( idx_agent, {}, {} );
                continue;
            }

            const int n_contacts = is_bot( idx_agent ) ? bot_m[idx_agent] : m;
            auto weight          = [this, idx_agent]( size_t j ) { return homophily_weight( idx_agent, j ); };
            reservoir_sampling_A_ExpJ( n_contacts, network.n_agents(), weight, contacted_agents, gen );

            network.set_neighbours_and_weights( idx_agent, contacted_agents, 1.0 );
            for( size_t i = 0; i < contacted_agents.size(); ++i )
                reciprocal_edge_buffer.emplace( idx_agent, contacted_agents[i] );
'''))
r('fac', 'C22 C25', (FAC, '''        auto degroot_settings = std::get<Config::DeGrootSettings>( model_settings );
        auto model            = std::make_unique<DeGrootModel>( degroot_settings, network );
        return model;
''', '''        const auto & settings = std::get<Config::DeGrootSettings>( model_settings );
        return std::make_unique<DeGrootModel>( settings, network );
'''), (FAC, '''        auto deffuant_settings = std::get<Config::DeffuantSettings>( model_settings );
        auto model             = std::make_unique<DeffuantModel>( deffuant_settings, network, gen );
        model->initialize_agents( deffuant_settings.dim );
        return model;
''', '''        const auto & settings = std::get<Config::DeffuantSettings>( model_settings );
        auto model            = std::make_unique<DeffuantModel>( settings, network, gen );
        model->initialize_agents( settings.dim );
        return model;
'''))
r('deg3', 'C10 C23', (CDEG, '''    size_t j_index = 0;
    double weight  = 0.0;

    for( size_t i = 0; i < network.agents.size(); i++ )
    {
        auto neighbour_buffer               = network.get_neighbours( i );
        auto weight_buffer                  = network.get_weights( i );
        agents_current_copy[i].data.opinion = 0.0;
        for( size_t j = 0; j < neighbour_buffer.size(); j++ )
        {
            j_index = neighbour_buffer[j];
            weight  = weight_buffer[j];
            agents_current_copy[i].data.opinion += weight * network.agents[j_index].data.opinion;
        }
    }

    max_opinion_diff = 0;
    // Update the original agent opinions
    for( std::size_t i = 0; i < network.agents.size(); i++ )
    {
        max_opinion_diff = std::max(
            max_opinion_diff.value(),
            std::abs( network.agents[i].data.opinion - agents_current_copy[i].data.opinion ) );
        network.agents[i] = agents_current_copy[i];
    }
''', '''    const size_t n = network.agents.size();
    for( size_t i = 0; i < n; i++ )
    {
        const auto neighbours = network.get_neighbours( i );
        const auto weights    = network.get_weights( i );
        double opinion        = 0.0;
        for( size_t j = 0; j < neighbours.size(); j++ )
            opinion += network.agents[neighbours[j]].data.opinion * weights[j];
        agents_current_copy[i].data.opinion = opinion;
    }

    double largest = 0.0;
    for( size_t i = 0; i < n; i++ )
    {
        const double diff = std::abs( agents_current_copy[i].data.opinion - network.agents[i].data.opinion );
        if( diff > largest )
            largest = diff;
        network.agents[i] = agents_current_copy[i];
    }
    max_opinion_diff = largest;
'''), (CDEG, '''    bool converged = false;

    if( max_opinion_diff.has_value() )
        converged = max_opinion_diff.value() < convergence_tol;

    return Model<AgentT>::finished() || converged;
''', '''    if( Model<AgentT>::finished() )
        return true;
    return max_opinion_diff.has_value() && *max_opinion_diff < convergence_tol;
'''))
r('sample', 'C08 C09', (MATH, '''    auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
    std::priority_queue<QueueItemT, std::vector<QueueItemT>, decltype( compare )> H;

    size_t idx = 0;
    while( ( idx < n ) && ( H.size() < k ) )
    {
        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
        H.push( { idx, r } );
        idx++;
    }
''', '''    auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
    std::priority_queue<QueueItemT, std::vector<QueueItemT>, decltype( compare )> H;

    const size_t n_first = std::min( n, k );
    size_t idx           = 0;
    for( ; idx < n_first; ++idx )
    {
        const double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
        H.push( QueueItemT( idx, r ) );
    }
'''), (MATH, '''    buffer.resize( H.size() );

    for( size_t i = 0; i < buffer.size(); i++ )
    {
        buffer[i] = H.top().first;
        H.pop();
    }
''', '''    while( !H.empty() )
    {
        buffer.push_back( H.top().first );
        H.pop();
    }
'''))

def main():
    for i, props, edits in R:
        w = tempfile.mkdtemp(prefix='refac-', dir='/tmp')
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, a, b in edits:
            p = f'{w}/r/{f}'
            s = open(p).read()
            if s.count(a) < 1:
                print(i, 'NOT FOUND in', f, a[:80])
                continue
            open(p, 'w').write(s.replace(a, b, 1))
        d = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
        open(f'/verif/dev/refac/{i}.diff', 'w').write(f'# {props}\n' + d)
        shutil.rmtree(w)


main()
