#!/usr/bin/env python3
"""Fills dev/DESIGN.tmpl from the evidence of the last runs and the planted bugs -> DESIGN.md"""
import json, os, sys, glob
sys.path.insert(0, '/verif')
import props
WHY = dict(
C01='Pre/postconditions of toggle/transpose/switch over the two lists-of-lists. The multiset of edges is a counting function E(i,j,w) over the old lists; the new lists are related to it by a bijection between old and new positions built as ghost state in the loop (every old edge has its place in the new list and the other way round), so multiplicity and pairing of weights are part of the postcondition. Frames: agents untouched.',
C02='Postcondition of remove_double_counting: strictly ascending, same support, weight = sum over old positions with that neighbour (recursive sum function, inductive lemmas). The sort is a library contract (permutation + order); the index sort lambda is verified as its comparator.',
C03='Postconditions of the four editing functions with frames "every other list unchanged"; exceptional postcondition: throws iff lengths differ, then nothing changed. n_edges = sum of lengths (recursive sum, 64-bit).',
C04='Tarjan with ghost state: invariants of the recursive depth_first_search (stack order, numbering, lowest links, closed components), reachability defined by steps and its lemmas proved by induction; postcondition: the components partition the nodes and u, v share one iff mutually reachable. The recursive call is checked against the contract with a termination measure.',
C05='Contract of generate_n_connections: for every draw of the generator; lists distinct, in range, self iff asked; weights in [0,1] with sum 1 unless the ghost "total drawn" is 0.',
C06='Contracts of both overloads of generate_fully_connected.',
C07='Contract of generate_square_lattice with modular index arithmetic over 64-bit integers (nonlinear lemmas).',
C08='Contract of draw_unique_k_from_n: the size, distinctness, range, the ignored index; the two code paths (sampling the complement / rejection) as postconditions of the same contract.',
C09='Contract of reservoir_sampling_A_ExpJ: bounds obligations, distinctness as invariant of buffer and heap, keys of zero-weight items below those of positive ones (ghost counting of positive items).',
C10='Contract of iteration against the recursive weighted sum over the pre-state; the "no opinion leaves the range" clause as a lemma over sums (induction); finished() iff limit or difference below tolerance, where the difference is the ghost maximum.',
C11='Contract of update_rule, initialize_agents for SimpleAgent (also for aliasing arguments).',
C12='Contract of update_rule<DiscreteVectorAgent>, hamming_distance (counting function, proved against the loop), initialize_agents.',
C13='Ghost counter of interactions and ghost legitimacy updated at every call of update_rule; contract of select_interacting_agent_pair, of the constructor (square or throw) and of iteration.',
C14='State invariant of the model class (established by the constructor, preserved by iteration), contracts of update_network(_probabilistic) with ghost contact sets: an edge exists iff contact or reciprocation; weights 1; distinct.',
C15='Contract of get_euler_slopes (recursive sum over in-neighbours) and of iteration: the four slopes are ghost functions of the pre-step opinions, the postcondition is the RK4 formula; bots; counter; frames.',
C16='The same for the inertial model: force before/after.',
C17='Contract of update_network_mean in terms of P(a,b) with a recursive power sum, and of update_network selecting it. The reuse of buffers (nothing carried over) follows since the postcondition does not mention old weights.',
C18='Constructor contracts: ranges for all draws, exceptional postcondition for too many bots; mean activities.',
C19='@C19@',
C20='@C20@',
C21='validate_settings: throws iff the documented predicate is false; per model; never touches a setting of another model (frame over the variant).',
C22='Contract of Simulation::run with ghost logs: the sequence of iterations, and files written as a function (file name -> iteration). Virtual calls model->iteration()/finished() are checked against the contract of the base class; every override reachable through make_unique is verified to satisfy it in the same check. ',
C23='Relational property decided by *effect contracts*: each of the functions Simulation can reach must satisfy "deterministic" (result and effects are functions of arguments, state and generator), checked syntax-directed over the typed AST: no read of clocks/environment/addresses/mutable statics/uninitialised members or locals, only library functions of the table DET, callee contracts instead of bodies (so recursion and virtual calls are sound). No solver is involved; the step from contracts to equal runs is an induction argument in cxv/effects.py. The harness runs simulations twice in differently filled memory, alone or in company.',
C24='Contract of parse_config_file over an abstract TOML tree: for each documented key: present and of the right kind -> the setting; absent -> default.',
C25='Contracts of the transforms with real-analysis laws of pow/erf/exp as axioms listed in contracts/laws.py.',
C26='Contract of parse_comma_separated_list with a ghost log of callback calls; field boundaries by counting commas. The callback is arbitrary.',
)
rows = []
for pid in sorted(props.PROPS):
    p = props.PROPS[pid]
    try:
        e = json.load(open(f'/verif/evidence/{pid}.json'))
        c = e['coverage']
        if p['level'] == 'exploration':
            got = f"bounded: {e.get('wall_s', 0):.0f} s of random search"
        else:
            got = f"{c.get('discharged')}/{c.get('obligations')} obligations, {e['wall_s']:.0f} s"
    except Exception as x:
        got = f'({x})'
    roots = p['roots'] or p.get('effects') or []
    sh = sorted({r.split('|')[0].replace('Seldon::', '') for r in roots})
    fn = ', '.join(f'`{s}`' for s in sh[:9]) + (f' and {len(sh) - 9} more' if len(sh) > 9 else '')
    ass = '; '.join(p.get('assumptions', []))
    rows.append(f"| {pid} | **{p['title']}.** {WHY.get(pid, '').strip()} {('Roots: ' + fn + '.') if fn else ''} {('*Assumes:* ' + ass + '.') if ass else ''} **{got}** |")
bugs = ['| bug | property | what it does | how it is reported |', '|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    how = m.get('caught', 'see dev/plant.sh')
    bugs.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} (needs {m['needs']}) | {HOW.get(os.path.basename(d), '?') if (HOW := json.load(open('/verif/dev/caught.json'))) else ''} |")
t = open('/verif/dev/DESIGN.tmpl').read()
t = t.replace('@TABLE@', '\n'.join(rows)).replace('@BUGS@', '\n'.join(bugs))
for k in ('REACH', 'FALSE', 'C19', 'C20'):
    t = t.replace(f'@{k}@', open(f'/verif/dev/text_{k}.md').read().strip())
open('/verif/DESIGN.md', 'w').write(t)
