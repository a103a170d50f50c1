"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
P = []
SCH = 'src/graph_scheduler/scheduler.py'
CON = 'src/graph_scheduler/condition.py'
TIM = 'src/graph_scheduler/time.py'
UTI = 'src/graph_scheduler/utilities.py'


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


p('C01', 'The consideration queue is the topological layering of the graph',
  'For every acyclic graph, given as a dependency dictionary (senders that are not keys included) or as a networkx.DiGraph, '
  "the scheduler's consideration_queue contains every node exactly once, in the set whose index is the length of the longest path leading to it, "
  'so every sender is in an earlier set than its receivers, no set is empty, and consideration_queue_indices agrees with the queue. '
  'The graph given by the caller is not modified.',
  ['inputs', 'configurations'], 'every directed acyclic graph of bounded size, in each input form',
  'The tests assert the queue of a few dozen literal graphs; the space of graphs and input forms is exponential.',
  [SCH, UTI], [('Scheduler.__init__ / _push_graph', SCH), ('_build_consideration_queue (toposort)', SCH), ('networkx_digraph_to_dependency_dict', UTI)],
  ['Scheduler.consideration_queue', 'Scheduler.consideration_queue_indices', 'Scheduler.graph', 'Scheduler.nodes'])

p('C02', 'Executions respect the graph: senders are considered before receivers',
  'In standard mode, every set yielded by a run is a subset of a single consideration set, the consideration sets are visited in queue order within each PASS, '
  'and a node executes at most once per PASS. A node is therefore never in the same yielded set as one of its ancestors, and within a PASS never precedes one of them. '
  'This holds for every graph and whatever the conditions decide.',
  ['inputs', 'programs', 'schedules'], 'every acyclic graph of bounded size and every sequence of condition outcomes over a bounded number of passes',
  'The tests compare the output of specific condition sets on specific graphs; the ordering guarantee quantifies over all condition outcomes.',
  [SCH], [('Scheduler.run', SCH)], ['sets yielded by Scheduler.run', 'Scheduler.consideration_queue'])

p('C03', 'A considered node executes exactly when its condition is satisfied',
  'Whenever a consideration set is considered, a node of it is in the resulting execution set if and only if its condition was satisfied in that consideration: '
  'a node whose condition is false throughout is never executed, a node whose condition holds is never skipped, and a node whose condition becomes true '
  'because another node of the same consideration set is executed is executed in the same set. In every PASS that is not cut short by termination every node is considered, '
  'and a PASS in which no node executes yields one empty set.',
  ['programs', 'schedules', 'inputs'], 'every acyclic graph of bounded size and every (adversarial, time-varying) sequence of condition outcomes over a bounded number of passes',
  'Only particular built-in condition combinations are tested; the fixpoint inside a consideration set depends on condition outcomes and set iteration order.',
  [SCH], [('Scheduler.run consideration loop', SCH)], ['sets yielded by Scheduler.run', 'evaluations of the conditions'])

p('C04', 'Relative call counts: EveryNCalls and default conditions',
  "EveryNCalls(dependency, n) is satisfied for its owner exactly when the dependency has executed at least n times since the owner's last execution in the current run. "
  'A node without a basic condition executes exactly when every one of its senders in the current graph has executed since its own last execution in the run (always, if it has no senders). '
  'These counts start from zero in every run, also after a run that was abandoned before its end.',
  ['inputs', 'histories', 'programs'], 'every n, every graph and every execution history of bounded length, including several consecutive and abandoned runs',
  'The tests use n in {1,2,3} on small fixed graphs for single runs; the property quantifies over interleavings of the executions of owner and dependency, and over n.',
  [CON, SCH], [('EveryNCalls', CON), ('Scheduler._validate_conditions', SCH), ('counts_useable updates in Scheduler.run', SCH)],
  ['sets yielded by Scheduler.run', 'Condition.is_satisfied'],
  [('counts_useable', 'calls of a node available to each other node', SCH)])

p('C05', 'Call-count conditions reflect executions within their time scale',
  'BeforeNCalls, AtNCalls, AfterCall, AfterNCalls, AfterNCallsCombined and AllHaveRun compare n (or 1) with the number of executions of their dependencies, in the given execution context, '
  'within the current unit of the given TimeScale (CONSIDERATION_SET_EXECUTION, PASS, ENVIRONMENT_STATE_UPDATE, ENVIRONMENT_SEQUENCE or LIFE); '
  'AllHaveRun without dependencies refers to all nodes of the scheduler. JustRan(d) is satisfied exactly when d was in the most recently yielded set of the context, and is unsatisfied before the first.',
  ['inputs', 'histories'], 'every n, time scale and execution history of bounded length over several passes, runs and environment sequences',
  'The tests check a handful of n values, mostly at the default time scale, in single runs.',
  [CON, SCH], [('call-count condition classes', CON), ('Scheduler._reset_counts_total', SCH), ('Scheduler.end_environment_sequence', SCH)],
  ['sets yielded by Scheduler.run', 'Condition.is_satisfied', 'Scheduler.counts_total'],
  [('counts_total', 'executions of each node per time scale', SCH)])

p('C06', 'Time-based conditions reflect the position of the clock',
  'The Before/At/After/AfterN/Every conditions on CONSIDERATION_SET_EXECUTION, PASS and ENVIRONMENT_STATE_UPDATE are satisfied exactly when the number of such units completed within the current unit of their time_scale '
  'is less than, equal to, greater than, at least, or a multiple of n. The ENVIRONMENT_SEQUENCE conditions compare with the number of completed environment sequences. '
  'AtEnvironmentStateUpdateStart, AtEnvironmentStateUpdateNStart, AtEnvironmentSequenceStart and AtEnvironmentSequenceNStart are satisfied exactly at the positions they name.',
  ['inputs', 'histories'], 'every n, time scale and clock history of bounded length',
  'The tests check a few n in one or two environment sequences; the property quantifies over n, over time scales and over clock histories.',
  [CON, TIM], [('time-based condition classes', CON), ('TimeHistoryTree.get_total_times_relative', TIM)],
  ['Condition.is_satisfied', 'sets yielded by Scheduler.run'])

p('C07', 'Clock and time history account for every unit of time',
  'After any sequence of time increments, the clock shows for each TimeScale the number of units completed since the last unit of a coarser scale was completed, previous_time is the time before the last increment, '
  'and the total of finer units within any current or past coarser unit reported by the history equals the number of increments that happened in it. '
  'TimeScales are totally ordered from CONSIDERATION_SET_EXECUTION to LIFE, and parent and child are the adjacent scales.',
  ['histories', 'inputs'], 'every sequence of increments of bounded length, every query scale, base scale and base index, from arbitrary counter values',
  'The tests increment a few fixed sequences and query a few totals.',
  [TIM], [('Clock', TIM), ('TimeHistoryTree', TIM), ('Time._increment_by_time_scale', TIM)],
  ['Clock.time', 'Clock.previous_time', 'Clock.get_total_times_relative', 'TimeHistoryTree.get_total_times_relative'])

p('C08', 'Composite conditions combine their components as named',
  'All/And, Any/Or, Not, While and WhileNot evaluate to the conjunction, disjunction, negation, value and negated value of their components, for any nesting, and their components see the same owner, scheduler, execution context and arguments. '
  'NWhen(condition, n) is satisfied the first n times that its condition is satisfied upon evaluation, counted separately for every execution context, and never afterwards.',
  ['programs', 'inputs', 'histories'], 'every nesting up to a bounded depth, every sequence of component values, every n, every interleaving of execution contexts',
  'The tests cover a few two-component combinations in one execution context.',
  [CON], [('CompositeCondition, All, Any, Not, NWhen, WhileNot', CON)], ['Condition.is_satisfied', 'Condition.owner'])

p('C09', 'Runs end exactly when a termination condition is satisfied',
  'Termination is checked at the start of every PASS and before every consideration set: a run that is started or resumed while its ENVIRONMENT_STATE_UPDATE or ENVIRONMENT_SEQUENCE termination condition is satisfied yields nothing more, and it goes on as long as neither is; by default it ends when all nodes have run and no environment-sequence condition applies. '
  "Conditions given to a run (with TimeScale or string keys) override the scheduler's for that run only, while scales not given keep the scheduler's condition, and the caller's dictionary is not modified. "
  'Anything but a mapping from TimeScales to non-structural conditions is rejected.',
  ['inputs', 'schedules', 'programs'], 'every sequence of outcomes of the termination and node conditions of bounded length, and every way of specifying termination conditions',
  'The tests use a few fixed termination conditions; whether each check point is honoured depends on the moment the condition becomes true.',
  [SCH], [('Scheduler.run', SCH), ('Scheduler._parse_termination_conditions', SCH), ('Scheduler._combine_termination_conditions', SCH)],
  ['sets yielded by Scheduler.run', 'Scheduler.termination_conds'])

p('C10', 'The records of a run agree with what it yielded',
  'At every point, the execution_list of the context equals the sequence of sets yielded in it so far, counts_total equals the number of executions per node and TimeScale since the current unit of that scale began, and the clock has advanced by one CONSIDERATION_SET_EXECUTION per completed yield and one PASS per completed pass. '
  'A run that ends advances the clock by one ENVIRONMENT_STATE_UPDATE unless told to skip it, and end_environment_sequence advances it by one ENVIRONMENT_SEQUENCE. '
  'Every run starts with the counts of the ENVIRONMENT_STATE_UPDATE and finer scales at zero, also after a run that was abandoned or did not advance the clock at its end.',
  ['histories', 'schedules', 'crash_points'], 'every sequence of condition outcomes and every abandonment point over several runs of bounded length',
  'The tests check the counts and clock at a few points of fixed runs, never after abandoned runs.',
  [SCH, TIM], [('Scheduler.run', SCH), ('Scheduler._reset_counts_total', SCH), ('Scheduler.end_environment_sequence', SCH)],
  ['Scheduler.execution_list', 'Scheduler.counts_total', 'Scheduler.clocks', 'Scheduler.get_clock'])

p('C11', 'Execution contexts do not influence one another',
  'For any interleaving of runs in different execution contexts of one scheduler, each context yields the same sets, and shows the same counts, execution_list and clock, as if it were the only context. '
  'This includes the default context, contexts used for the first time while another run is in progress, and the end of an environment sequence in one context.',
  ['schedules', 'histories'], 'every interleaving of two runs in two contexts, step by step, with condition outcomes of each context varying independently, over bounded lengths',
  'The tests run two contexts one after the other; interleavings of generators are not tested.',
  [SCH, CON], [('per execution_id state in Scheduler', SCH), ('NWhen.satisfactions', CON)],
  ['sets yielded by Scheduler.run(execution_id=...)', 'Scheduler.counts_total', 'Scheduler.clocks', 'Scheduler.execution_list'])

p('C12', 'A new context starts fresh or as an independent copy of its base',
  'A context used for the first time starts with empty history and zero counts, or, if base_execution_id is given, with the counts and execution_list of the base context at that time. '
  'From then on changes to either are not visible in the other, a base that does not exist is an error, and giving a base to an already existing context has no effect on it. '
  'A deleted context is fresh when used again.',
  ['histories'], 'every bounded history of runs before and after the creation of the second context',
  'One test creates a context from a base and checks a few values.',
  [SCH], [('Scheduler._init_counts', SCH), ('Scheduler._delete_counts', SCH)],
  ['Scheduler.counts_total', 'Scheduler.execution_list', 'sets yielded by Scheduler.run'])

p('C13', 'Absolute time advances by a fixed interval that hits every required time',
  'If any condition of a run depends on absolute time, the clock of its context starts at the earliest time at which one of them can be satisfied (or, with repeat intervals, at the multiple of the length of a PASS at or before it), but never before the time already reached, and then every consideration set, executed or empty, takes exactly one interval; execution_timestamps records the time of every yielded set, and times never decrease. '
  'In standard mode one PASS lasts the greatest common divisor of all repeat intervals (of these and the starts of repeated intervals with a single consideration set), and every consideration set lasts the default unit if there are no repeat intervals; in exact time mode one execution set lasts the greatest common divisor of all repeat intervals and fixed time points. '
  'A run without absolute conditions leaves absolute time unchanged.',
  ['inputs', 'configurations'], 'every combination of bounded repeat, start, end and termination times in bounded combinations of units, over bounded run lengths',
  'The tests parametrise a dozen literal combinations.',
  [SCH, TIM, CON], [('Scheduler._get_absolute_consideration_set_execution_unit', SCH), ('Scheduler.run', SCH), ('Time._increment_by_time_scale', TIM), ('_parse_absolute_unit', CON)],
  ['Scheduler.execution_timestamps', 'Time.absolute', 'Time.absolute_interval'])

p('C14', 'TimeInterval and TimeTermination are satisfied exactly at their times',
  'TimeInterval(repeat, start, end) is satisfied exactly at the times that lie between start and end (each inclusive or exclusive as specified) and, if repeat is given, are a multiple of repeat after start in exact time mode or with a single consideration set, and otherwise after the position of its node in the pass. '
  'TimeTermination(t) is satisfied exactly at times at or after t (after t if exclusive). Numbers, strings and quantities that denote the same time are equivalent, whatever their unit, and a start later than end is rejected.',
  ['inputs', 'configurations'], 'all bounded values of repeat, start, end, t and current time, inclusive flags and units',
  'The tests parametrise a few literal values; boundary instants and unit conversions are sampled.',
  [CON], [('TimeInterval', CON), ('TimeTermination', CON), ('_parse_absolute_unit', CON)],
  ['Condition.is_satisfied', 'nodes executed at each entry of Scheduler.execution_timestamps'])

p('C15', 'In exact time mode all nodes are considered together',
  'In exact time mode the consideration queue is a single set of all nodes, every execution set may contain any combination of nodes, including senders together with their receivers, and each PASS has exactly one consideration set. '
  'Which nodes execute is decided only by their conditions, and the indices of the original consideration queue stay available.',
  ['inputs', 'schedules'], 'every bounded acyclic graph and every sequence of condition outcomes over a bounded number of passes',
  'A few parametrised runs use exact time mode, all with time conditions.',
  [SCH], [('Scheduler.consideration_queue', SCH), ('SchedulingMode', SCH)], ['Scheduler.consideration_queue', 'sets yielded by Scheduler.run', 'Scheduler.consideration_queue_indices'])

p('C16', 'Structural conditions establish the position they name',
  'In the graph returned by modify_graph with default operations, BeforeNode(s) makes the owner a sender of every named node, AfterNode(s) makes every named node a sender of the owner, and WithNode gives the owner and the named node the same senders; AddEdgeTo adds and RemoveEdgeFrom removes exactly the named edge. '
  'A repositioning condition that already holds for all its nodes leaves the graph unchanged, with a warning, and a ConditionError is raised only if the operations conflict.',
  ['inputs', 'programs'], 'every directed acyclic graph of bounded size, every owner and every set of named nodes',
  'The tests cover a list of literal graphs.',
  [CON], [('_GSCReposition', CON), ('_GSCWithOperations', CON), ('BeforeNodes/AfterNodes/WithNode/AddEdgeTo/RemoveEdgeFrom', CON)],
  ['GraphStructureCondition.modify_graph'])

p('C17', 'Operations on senders and receivers follow set algebra; conflicts are reported',
  'The operations KEEP, REPLACE, DISCARD, INTERSECTION, UNION/MERGE, DIFFERENCE, INVERSE_DIFFERENCE and SYMMETRIC_DIFFERENCE of source and comparison neighbours are the named set functions and do not modify their arguments. '
  'For every choice of operations the new senders and receivers of the owner and of every named node are those results (before cycles are pruned, self-edges removed and receivers reconnected). '
  'If two operations disagree on an edge a ConditionError is raised, exactly then, unless conflicts are ignored, in which case the receiver operations prevail.',
  ['inputs', 'configurations'], 'every bounded graph and every combination of the operations, given as members or as strings',
  'The tests try each operation on a few literal graphs; the product of operations and graphs is far larger.',
  [CON], [('Operation', CON), ('_GSCWithOperations._process', CON), ('_GSCWithOperations._get_edge_conflicts', CON)],
  ['Operation.__call__', 'GraphStructureCondition.modify_graph'])

p('C18', 'Structural conditions preserve what they do not name',
  'modify_graph never changes the graph it is given nor shares mutable state with it or between nodes of its result, keeps the set of nodes, and, unless configured otherwise, introduces no new self-referential edge. '
  'Edges between nodes other than the owner and the named nodes are kept unless they had to be removed to resolve a cycle. '
  'With reconnection on, every former sender of the owner remains an ancestor or descendant of every former receiver of the owner that is not a named node.',
  ['inputs', 'programs'], 'every bounded acyclic graph, owner, set of named nodes and choice of operations',
  'The tests compare results for literal graphs and never inspect the input graph or aliasing.',
  [CON], [('GraphStructureCondition.modify_graph', CON), ('_GSCWithOperations._postprocess', CON), ('clone_graph', UTI)],
  ['GraphStructureCondition.modify_graph'])

p('C19', 'The graph of a scheduler is determined by its current structural conditions',
  'After any history of adding, removing, replacing and clearing structural conditions (through the scheduler or its condition set), including attempts that raise an error, the graph, consideration_queue and consideration_queue_indices of the scheduler equal those obtained by applying the conditions currently present, in the order they were added, to the original graph. '
  'In particular removing all of them restores the original graph, and default conditions used by the next run follow the current graph.',
  ['histories', 'fault_sequences'], 'every bounded history of operations on structural conditions over bounded graphs',
  'The tests exercise short fixed histories, without failing conditions.',
  [SCH, CON], [('Scheduler._handle_modified_structural_conditions', SCH), ('ConditionSet.structural_condition_order', CON)],
  ['Scheduler.graph', 'Scheduler.consideration_queue', 'Scheduler.consideration_queue_indices'])

p('C20', 'ConditionSet holds exactly the conditions added and not removed',
  'After any history of add_condition, add_condition_set, item assignment (which replaces all structural conditions of the owner) and remove_condition, each owner has at most one basic condition (the last one added), its structural conditions in the order added, and structural_condition_order lists all structural conditions in the order added; the conditions mapping, membership and iteration show exactly these, and every condition knows its owner. '
  'remove_condition returns the condition it removed; it returns None with a warning and changes nothing if there is none, and raises ConditionError and changes nothing if the owner has several or the condition has no owner.',
  ['histories'], 'every bounded history of operations on a bounded number of owners and conditions',
  'The tests exercise a few fixed sequences.',
  [CON], [('ConditionSet', CON)], ['ConditionSet.conditions', 'ConditionSet.conditions_basic', 'ConditionSet.conditions_structural', 'ConditionSet.structural_condition_order'])

p('C21', 'A cyclic graph is reported and never scheduled',
  'A scheduler whose current graph contains a cycle, self-loops excepted, whether from the base graph or from structural conditions, warns when the base graph or the added condition makes the cycle appear, and every attempt to run it raises SchedulerError before anything is yielded or recorded. '
  'An acyclic graph is never rejected, and a run becomes possible again when the structural condition that created the cycle is removed.',
  ['inputs', 'histories'], 'every bounded directed graph, cyclic or not, and every bounded history of adding and removing edges',
  'The tests try three or four literal cyclic graphs.',
  [SCH, CON], [('Scheduler._validate_run_state', SCH), ('Scheduler._push_graph', SCH)], ['Scheduler.run', 'warnings', 'Scheduler.graph'])

p('C22', 'Graph utilities compute what they name, for every graph state',
  'get_receivers, get_ancestors, get_descendants and get_simple_cycles return the receivers, the transitive senders and receivers, and the simple cycles of the graph as it is when they are called, also after the graph, or a result returned earlier, was modified. '
  'clone_graph returns an equal graph that shares no sets with the original, and conversion to a networkx digraph and back is the identity on edges and nodes.',
  ['inputs', 'histories'], 'every bounded directed graph and every single-edge modification between calls',
  'The tests call the utilities on a few literal graphs, never after modification.',
  [UTI], [('cached_graph_function', UTI), ('clone_graph', UTI), ('dependency_dict_to_networkx_digraph', UTI)],
  ['get_receivers', 'get_ancestors', 'get_descendants', 'get_simple_cycles', 'clone_graph', 'networkx_digraph_to_dependency_dict', 'dependency_dict_to_networkx_digraph'])

p('C23', 'Custom condition functions receive the arguments they can accept',
  'A custom condition calls its function with the positional arguments it was created with, in order, and with those of its own keyword arguments, of scheduler and execution_id, and of the keyword arguments passed to run that the function accepts by name (all of them if it takes **kwargs); nothing else is passed, and arguments passed at evaluation override those given at creation. '
  "The function's result is the condition's value, and the same condition may be evaluated any number of times with the same outcome.",
  ['programs', 'inputs'], 'every function signature with a bounded number of parameters of any kind and defaults, and every bounded argument list',
  'The tests use a handful of lambdas; the call convention depends on the shape of the signature.',
  [CON, UTI], [('Condition.is_satisfied', CON), ('prune_unused_args', UTI), ('call_with_pruned_args', UTI)],
  ['arguments received by the function of a Condition'])

p('C24', 'Threshold and WhenFinished conditions reflect the state of their dependencies',
  "Threshold compares the current value of its dependency's parameter (through its getter and indices, if given) with the threshold using the comparator; == and != hold exactly when the values are, or are not, within atol + rtol*|threshold| of each other, and tolerances do not affect the other comparators. "
  'WhenFinished, WhenFinishedAny and WhenFinishedAll are satisfied exactly when the, any, or all of the given dependencies (all nodes of the scheduler if none are given) report being finished in the execution context. '
  'Invalid comparators, missing parameters and unsupported dependencies raise ConditionError.',
  ['inputs'], 'all real parameter values, thresholds and tolerances within bounds, every comparator, nesting of indices and finished-state of bounded sets of dependencies',
  'The tests parametrise a few dozen literal value combinations.',
  [CON], [('Threshold', CON), ('WhenFinished, WhenFinishedAny, WhenFinishedAll', CON)], ['Condition.is_satisfied'])

p('C25', 'TimeScale aliases are equivalent names that can be undone',
  'After set_time_scale_alias(name, target) the alias denotes the same TimeScale, Time attribute (readable and writable) and condition classes as the original name, without changing any behaviour under the original names, and a name that is in use as an alias or as a TimeScale is rejected. '
  'remove_time_scale_alias(name) restores the previous state: the names are gone, the original ones still work, and removing an unknown alias does nothing.',
  ['histories', 'inputs'], 'every bounded sequence of setting and removing aliases for every target TimeScale, with arbitrary counter values',
  'The tests set each alias once in a subprocess-like fixture.',
  [TIM], [('set_time_scale_alias', TIM), ('remove_time_scale_alias', TIM)], ['TimeScale', 'Time', 'SimpleTime', 'names exported by graph_scheduler'])

p('C26', 'Nodes are identified by equality, and iteration order does not matter',
  'The graph produced by structural conditions, the consideration queue, and the executions of a run (unless conditions refer to nodes of the same consideration set) depend only on the graph and conditions: replacing a node in a condition or in the graph by an equal but distinct object, or changing the iteration order of the sets given by the user, changes none of them. '
  'Nor does the order of the keys of the graph, except that it may decide which edges of a cycle are removed when several structural conditions or non-default operations are combined. '
  'This holds for every hashable kind of node.',
  ['inputs', 'configurations', 'schedules'], 'every bounded graph, every assignment of equal-but-distinct objects, every insertion order and set iteration order of its nodes',
  'The tests use interned strings and one hash seed per session.',
  [SCH, CON, UTI], [('node comparisons in condition.py', CON), ('Scheduler.run', SCH), ('cached graph functions', UTI)],
  ['GraphStructureCondition.modify_graph', 'Scheduler.consideration_queue', 'sets yielded by Scheduler.run'])

p('C27', 'Schedulers do not influence one another',
  'Two or more schedulers of one process, also if they are made from the same graph, conditions or termination conditions, each do the same as if they were alone: for any interleaving of runs, changes of conditions and termination conditions, '
  'structural conditions and deleted contexts, the sets yielded by each, and its graph, consideration queue, counts, clock and termination conditions, are unaffected by what is done to the others. '
  'The graph and the termination conditions given to schedulers are not modified. (Shared Condition objects are meant to have the same owner in each scheduler, and to be removed from none.)',
  ['histories', 'schedules', 'configurations'], 'every interleaving of a bounded number of operations on two schedulers, with symbolic condition outcomes',
  'The tests use one scheduler at a time; state that leaks between schedulers shows only in a sequence of operations on several.',
  [SCH, CON, UTI, TIM], [('Scheduler.__init__', SCH), ('default_termination_conds', SCH), ('cached graph functions', UTI), ('Clock', TIM)],
  ['sets yielded by Scheduler.run', 'Scheduler.graph', 'Scheduler.counts_total', 'Scheduler.clocks', 'Scheduler.termination_conds'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
