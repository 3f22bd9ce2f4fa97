#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid; the output is committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT = None if len(sys.argv) < 2 else set(sys.argv[1].split(','))


def A(files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return a


P = []


def prop(pid, title, statement, over, qtext, why, anchors, level, note, technique):
    assert len(title) <= 80, title
    P.append(({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
               'why_tests_cant': why, 'anchors': anchors}, level, note, technique))


DST = 'deterministic simulation with seeded schedule and fault search; '

# ------------------------------------------------------------------ behaviour trees
prop('B01', 'A tick visits the prescribed children in order and returns the prescribed status',
     'For every behaviour tree built from Sequence, Priority, MemSequence, MemPriority, OrNode and Inverter over any leaves, '
     'each tick runs exactly the children the node types prescribe, in child order, stops where they prescribe, and returns '
     'the prescribed status. Memory composites resume at the child that was RUNNING and start over after they have completed.',
     ['programs', 'histories'],
     'all finite trees of these node types (including childless ones) and all sequences of leaf results over all ticks',
     'The tests tick single composites with one or two fixed children once; nesting, resumption over several ticks and '
     'mixtures of RUNNING and ERROR results are not reached.',
     A(['b3/core/behaviortree.py', 'b3/core/basenode.py', 'b3/composites/*.py', 'b3/decorators/inverter.py'],
       [('composite tick loops', 'b3/composites/'), ('running child remembered per tree and node', 'b3/composites/memsequence.py'),
        ('status inversion', 'b3/decorators/inverter.py')],
       ['return value of BehaviorTree.tick', 'order of leaf calls']),
     'exploration', 'random trees and tick histories in lock step with an independent reference interpreter',
     DST + 'lock-step comparison with an independent executable reference model of the node types')
prop('B02', 'Node lifecycle: opened once, closed once, open only while RUNNING',
     'On every tree and blackboard each execution of a node is enter, open (exactly when it is not already open), tick, close '
     '(exactly when it did not return RUNNING), exit, properly nested within its parent\'s. Between ticks exactly the nodes whose last execution '
     'returned RUNNING are open, and the recorded list of open nodes and number of executions of each tick agree with the callbacks.',
     ['programs', 'histories', 'schedules'],
     'all trees, any number of ticks, any interleaving of trees and blackboards, any leaf results',
     'The tests check the callbacks of one mocked node in one tick; histories in which nodes are left RUNNING, abandoned and reached again are never built.',
     A(['b3/core/basenode.py', 'b3/core/behaviortree.py', 'b3/core/tick.py'],
       [('_execute', 'b3/core/basenode.py'), ('record of open and executed nodes', 'b3/core/tick.py, b3/core/behaviortree.py')],
       ['enter/open/tick/close/exit callbacks', 'open_nodes and node_count on the blackboard'],
       [('is_open', 'node is open', 'blackboard, per tree and node'), ('open_nodes', 'nodes left RUNNING', 'blackboard, per tree')]),
     'exploration', 'per node automaton over the callback history of every (tree, blackboard)',
     DST + 'lifecycle automaton checked over the recorded callback history')
prop('B03', 'Trees and blackboards are isolated from one another',
     'What a tick of one tree on one blackboard does depends only on that pair: interleaving ticks of other trees, or of the '
     'same tree on other blackboards, sharing nodes or not, changes neither its statuses nor its callbacks. A leaf that '
     'raises does not corrupt what other pairs do, and values written under one tree or node scope are not seen under another.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of ticks and blackboard accesses of several trees and blackboards, with leaves that raise',
     'No test ticks one tree on two blackboards or two trees on one blackboard.',
     A(['b3/core/blackboard.py', 'b3/core/behaviortree.py', 'b3/core/basenode.py', 'b3/composites/memsequence.py',
        'b3/decorators/*.py'],
       [('scoped memories', 'b3/core/blackboard.py'), ('per tree and node keys', 'b3/decorators/, b3/composites/')],
       ['statuses and callbacks per pair', 'Blackboard.get']),
     'exploration', 'each pair\'s projection of the interleaved history is compared with the same history run alone',
     DST + 'projection of each interleaved history compared with the solo run')
prop('B04', 'Waiting and time limits follow the clock',
     'Wait is RUNNING until its time has passed since it was opened and then SUCCESS; MaxTime fails exactly when its child is '
     'still running after the limit measured since it was opened, and otherwise passes on the child\'s status. Both hold for '
     'any tick times, stalls and clock steps, and each new opening measures from its own start.',
     ['schedules', 'fault_sequences', 'histories'],
     'all tick times, stall lengths, forward and backward clock jumps, and nestings of timed nodes',
     'The tests sleep for real around one fixed node; restarts of timers, stalls, jumps and nesting are not reached.',
     A(['b3/actions/wait.py', 'b3/decorators/maxtime.py'],
       [('start time stored at open', 'b3/actions/wait.py, b3/decorators/maxtime.py')],
       ['status of each tick', 'time.time (seam)']),
     'exploration', 'simulated clock; status of every tick compared with the reference model',
     DST + 'simulated clock with jumps and stalls; lock-step reference model')
prop('B05', 'Repeaters and limiters run the child the stated number of times',
     'Repeater, RepeatUntilSuccess and RepeatUntilFailure run their child until the stated result or exactly the stated number of '
     'completed runs, keep the count across RUNNING interruptions and start again at zero once closed; Limiter lets its child run to '
     'completion at most the stated number of times per tree and blackboard and then fails. With a finite limit every tick ends after a bounded '
     'number of child runs.',
     ['programs', 'histories'],
     'all limits, all child result sequences including RUNNING and ERROR, nested repetitions, any number of ticks',
     'The tests cover one fixed limit with a mocked child and at most a few ticks.',
     A(['b3/decorators/repeater.py', 'b3/decorators/repeatuntilsuccess.py', 'b3/decorators/repeatuntilfailure.py',
        'b3/decorators/limiter.py'],
       [('counter in node memory', 'b3/decorators/')], ['number of child ticks', 'status of each tick']),
     'exploration', 'lock-step reference model with a step budget per tick',
     DST + 'lock-step reference model, bounded-steps liveness')
prop('B06', 'A tree saved and rebuilt behaves as the original',
     'A tree rebuilt from its dumped description, on the same blackboard and under the same identity, continues every history '
     'exactly as the original would have; on an empty blackboard it behaves as a fresh tree. This includes child order, '
     'decorator limits and node properties.',
     ['programs', 'crash_points', 'histories'],
     'all trees of the node types that have a description, restarts between any two ticks, surviving or lost blackboard',
     'The dump and load tests compare dictionaries of one or two fixed trees and never tick a reloaded tree.',
     A(['b3/core/behaviortree.py'], [('dump', 'b3/core/behaviortree.py'), ('load', 'b3/core/behaviortree.py')],
       ['BehaviorTree.dump, .load', 'statuses after the restart']),
     'exploration', 'crash/restart between ticks with durable or lost blackboard',
     DST + 'process restarts between ticks; continued history compared with the uninterrupted one')
prop('B07', 'Tick statistics equal what happened',
     'The success and failure counts of every node, its cost and the accumulated total, its success probability and utility, and the result log, '
     'always equal the counts of the actual history of ticks.',
     ['histories', 'programs'],
     'all trees and tick histories with any leaf results, costs and blackboards, logging on or off',
     'No test looks at these counters after more than one tick.',
     A(['b3/core/basenode.py', 'b3/core/behaviortree.py'],
       [('counters in _execute / _tick', 'b3/core/basenode.py')], ['node counters and getters after each tick']),
     'exploration', 'counters recomputed from the observed history after every tick',
     DST + 'conservation check of counters against the recorded history')

# ------------------------------------------------------------------ programs and files
prop('F01', 'A crash or power failure at any point never spoils a later run',
     'If a run of the inverse or forward kinematics program is killed, or power fails, at any point, the next undisturbed run '
     'of either program for that robot ends normally and its generated files equal byte for byte those of a run in a fresh directory.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every file operation (before, inside or after it) of either program, torn and lost writes, repeated crashes, cold or warm cache',
     'The tests never interrupt a run and never start from a half-written cache.',
     A(['ikbtbasics/ik_classes.py', 'ikSolver.py', 'fkOnly.py', 'ikbtfunctions/output_*.py'],
       [('cache write and read', 'kinematics_pickle in ikbtbasics/ik_classes.py'), ('output writers', 'ikbtfunctions/')],
       ['fk_eqns/', 'CodeGen/', 'LaTex/', 'exit of the next run'],
       [('fk_eqns/<robot>_pickle.p', 'kinematics cache', 'working directory')]),
     'fault_enumeration', 'simulated disk with a durability model; kills and power loss at seeded operations',
     DST + 'simulated disk with crash, torn-write and power-loss injection; recovery compared with the fault-free reference')
prop('F02', 'The kinematics cache never changes the result',
     'Whatever the history of runs, edits of the robot table (parameter values, parameter lists, joint kinds, unknowns, DH rows) and damage to the '
     'cache, a run either writes exactly the files a run without cache would write, or, when the cache holds another DH table, '
     'refuses and leaves the generated files untouched.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of runs, table edits, cache deletions, truncations, corruptions and unreadable caches',
     'The cache test does one write and one read of one robot.',
     A(['ikbtbasics/ik_classes.py', 'ikSolver.py', 'fkOnly.py', 'ikbtfunctions/ik_robots.py'],
       [('kinematics_pickle', 'ikbtbasics/ik_classes.py'), ('check_the_pickle', 'ikbtbasics/ik_classes.py')],
       ['generated files', 'exit status']),
     'exploration', 'seeded histories with cache damage; byte comparison with a cache-free reference run',
     DST + 'random histories with cache faults; refinement against the cache-free reference run')
prop('F03', 'Runs started together in one directory do not disturb each other',
     'Any number of runs of the two programs in one directory, interleaved in any way and with some of them stalling or being '
     'killed, each end normally with the output of a solitary run (runs writing the same files all produce the same content), '
     'and a later run does as well.',
     ['schedules', 'fault_sequences'],
     'all interleavings of file operations of several processes, cold and warm, same and different robots',
     'No test runs two processes.',
     A(['ikbtbasics/ik_classes.py', 'ikSolver.py', 'fkOnly.py'],
       [('atomic replacement of the cache', 'kinematics_pickle in ikbtbasics/ik_classes.py'), ('directory creation', 'ikSolver.py')],
       ['exit of every run', 'generated files']),
     'exploration', 'seeded scheduler decides every file operation of 2-4 simulated processes',
     DST + 'seeded scheduler interleaves the file operations of several processes; solitary runs are the oracle')
prop('F04', 'Disk errors are never hidden and a failing cache never stops a run',
     'If file operations fail (disk full, I/O error, no permission, short write, too many files), a run that still ends normally has written complete '
     'and correct output; if only storing the cache fails the run still succeeds; and once the errors stop the next run succeeds.',
     ['fault_sequences', 'crash_points'],
     'every file operation and combination of up to three errors, short writes and lasting failures',
     'No test makes a file operation fail.',
     A(['ikbtbasics/ik_classes.py', 'ikbtfunctions/output_latex.py', 'ikbtfunctions/output_python.py',
        'ikbtfunctions/output_cpp.py', 'ikSolver.py', 'fkOnly.py'],
       [('cache store tolerates OSError', 'ikbtbasics/ik_classes.py'), ('writers', 'ikbtfunctions/')],
       ['exit status', 'generated files']),
     'fault_enumeration', 'errno, short write and sticky faults at seeded operations',
     DST + 'disk error injection at every kind of file operation; output compared with the fault-free reference')
prop('F05', 'A run touches only the files of its own robot and program',
     'A run for one robot creates and changes only its own generated files, its own cache entry and its log; files of other robots '
     'and the other program are never changed, not even briefly or when it is killed or meets disk errors, and a normal '
     'end leaves nothing else behind.',
     ['histories', 'crash_points', 'fault_sequences'],
     'all histories of runs over several robots and both programs, observed after every file operation',
     'The tests never look at what other files a run changes.',
     A(['ikSolver.py', 'fkOnly.py', 'ikbtbasics/ik_classes.py', 'ikbtfunctions/output_*.py'],
       [('file names derived from the robot name', 'ikbtfunctions/output_*.py, ikbtbasics/ik_classes.py')],
       ['every file operation on the simulated disk']),
     'exploration', 'write-set invariant after every file operation',
     DST + 'write-set invariant checked after every simulated file operation')

# ------------------------------------------------------------------ the solver
KQ = ('all solvable robots and poses, all orders of the tools and unknowns in the tree, all temporary outages of the '
      'identification tools')
prop('K01', 'Every published joint solution contains the true joint value',
     'For every robot and every reachable generic pose, each solved joint variable\'s list of solutions contains the joint '
     'value that produced the pose (angles modulo a full turn), whatever the order in which tools and unknowns are tried and '
     'whichever tools are temporarily unavailable.',
     ['inputs', 'schedules', 'fault_sequences'], KQ,
     'The tests compare solutions with stored expressions for hand-made equations in one order, one leaf at a time, and never at a pose.',
     A(['ikbtleaves/*.py', 'ikSolver.py', 'ikbtbasics/kin_cl.py'],
       [('identify and solve leaves', 'ikbtleaves/'), ('tree of tools', 'ikSolver.py')],
       ['unknown.solutions of solved unknowns']),
     'exploration', 'whole runs of the solver; 15- and 70-digit evaluation at poses made from known joint values',
     DST + 'permuted tool schedules and tool outages; independent numeric forward kinematics as oracle')
prop('K02', 'Every equation the solver works with is true',
     'All matrix equations, auxiliary equations and equations in the work lists hold at every reachable generic pose of the '
     'robot, from the start and after every rewrite the solver makes while it runs.',
     ['inputs', 'schedules', 'histories'], KQ,
     'The tests compare rewritten equations of small hand-made systems with expected strings.',
     A(['ikbtbasics/ik_classes.py', 'ikbtbasics/kin_cl.py', 'ikbtleaves/sub_transform.py', 'ikbtleaves/x2y2_transform.py',
        'ikbtleaves/updateL.py'],
       [('forward kinematics and matrix equations', 'ikbtbasics/ik_classes.py'), ('sum of angles', 'ikbtbasics/ik_classes.py'),
        ('transforms', 'ikbtleaves/')],
       ['Robot.mequation_list, kequation_aux_list, blackboard equation lists']),
     'exploration', 'every new or changed equation evaluated at two poses after every leaf tick',
     DST + 'numeric invariant after every simulated leaf tick')
prop('K03', 'Bookkeeping of solved unknowns stays consistent',
     'While the solver runs, each unknown is solved at most once and never changes afterwards, its solutions use only pose entries, '
     'parameters and unknowns solved before it, and its position, dependencies, solution and version counts and names, and its edges in the solution graph, agree with its solutions.',
     ['schedules', 'histories', 'fault_sequences'], KQ,
     'The tests run one leaf on a fresh blackboard, so orders, repeated solving and histories are not reached.',
     A(['ikbtleaves/rank_leaf.py', 'ikbtleaves/*.py', 'ikbtbasics/ik_classes.py', 'ikbtbasics/solutionGraphV3.py'],
       [('ranker', 'ikbtleaves/rank_leaf.py'), ('solve leaves set solved, order and dependencies', 'ikbtleaves/')],
       ['unknowns and solution nodes after every leaf tick']),
     'exploration', 'bookkeeping invariants after every leaf tick',
     DST + 'state invariants after every simulated leaf tick')
prop('K04', 'Solution sets are complete, closed and consistent',
     'When the solver has finished, every solution set names one branch per solved variable, every name it uses is defined, branches '
     'within a set belong together, and for every reachable generic pose at least one set equals the joint values that produced it.',
     ['inputs', 'schedules', 'fault_sequences'], KQ,
     'The tests check sets of one or two fixed small graphs as text.',
     A(['ikbtbasics/ik_classes.py', 'ikbtbasics/solutionGraphV3.py', 'ikSolver.py'],
       [('version equations', 'make_LHS_versions and following in ikbtbasics/ik_classes.py'), ('create_solution_set', 'ikbtbasics/ik_classes.py')],
       ['Robot.solutionSet, final equations']),
     'exploration', 'symbolic closure check and numeric check at three poses per run',
     DST + 'permuted schedules; sets evaluated numerically at poses with known joint values')
prop('K05', 'Every run ends and reports truthfully whether all unknowns were solved',
     'A solver run on a supported robot ends without an exception after a bounded number of steps under every tool order and outage, and the tree reports '
     'success exactly when every unknown is solved. With the shipped order, the robots that solve completely are still solved completely after '
     'an outage of any tool that ends.',
     ['schedules', 'fault_sequences'], KQ,
     'The tests never run the whole tree under another order and never disable a tool.',
     A(['ikSolver.py', 'ikbtleaves/*.py', 'b3/decorators/repeatuntilsuccess.py'],
       [('tree with bounded repetition', 'ikSolver.py'), ('completion test', 'ikbtleaves/comp_detect.py')],
       ['root status', 'exceptions', 'solved flags']),
     'exploration', 'termination within 6000 leaf ticks; completion after outages in the shipped order',
     DST + 'tool outages and permuted schedules; bounded-progress liveness')
prop('K06', 'No unsolved unknown is starved',
     'While unknowns remain unsolved, the assigner hands out each of them again and again: none waits longer than one round over all unknowns '
     'plus one, however solving, growth of the unknown list and several blackboards are interleaved. A solved unknown is never handed out twice in a row while an '
     'unsolved one exists.',
     ['schedules', 'histories'],
     'all interleavings of assigner ticks, solving, unknowns added during the run, and several blackboards',
     'The assigner test makes a fixed number of ticks on one list with nothing changing in between.',
     A(['ikbtleaves/assigner_leaf.py'], [('round robin counter', 'ikbtleaves/assigner_leaf.py')], ['curr_unk on the blackboard']),
     'exploration', 'fairness monitor over seeded histories',
     DST + 'fairness (bounded waiting) over random histories of the real assigner')
prop('K07', 'The generated files depend only on the robot',
     'For a given robot the generated Python, C++ and LaTeX files are the same, byte for byte, in every run: independent of hash '
     'randomisation, clock, object identities, cold or warm cache, and of what was run in the directory before.',
     ['histories', 'configurations'],
     'all hash seeds, clocks, uuid streams, cache states and orders of runs',
     'The tests run every case once in one process.',
     A(['ikbtbasics/*.py', 'ikbtfunctions/output_*.py', 'ikbtleaves/*.py', 'ikSolver.py'],
       [('ordered solution sets and declarations', 'ikbtbasics/ik_classes.py, ikbtfunctions/')], ['CodeGen/, LaTex/']),
     'exploration', 'same robot under different nondeterminism seeds, compared byte for byte',
     DST + 'every source of nondeterminism drawn by the seed; artefacts compared byte for byte')
prop('K08', 'The generated Python inverse kinematics returns the true posture',
     'The generated Python module loads, and for every reachable generic pose returns, among its rows, the joint values that produced '
     'the pose, unless it reports by returning False that some branch is out of range. It never uses an undefined name, never calls a pose '
     'unreachable whose branches are all in range, and raises a domain error only for the square root of a negative number.',
     ['inputs', 'schedules'], KQ,
     'No test loads or calls the generated code.',
     A(['ikbtfunctions/output_python.py', 'ikbtbasics/ik_classes.py', 'ikSolver.py'],
       [('python writer', 'ikbtfunctions/output_python.py')], ['CodeGen/Python/IK_equations<robot>.py']),
     'exploration', 'generated module executed at four poses per run',
     DST + 'generated artefact executed against independent forward kinematics')
prop('K09', 'Generated forward kinematics and Jacobian equal the DH product',
     'The generated Python forward kinematics, run with any joint values and parameter values, computes exactly the product of the '
     'DH link transforms of the robot table. The forward kinematics report in LaTeX shows that same product, the robot\'s own DH table, and the Jacobian '
     'that is the derivative of that product. The numeric forward kinematics of the library, on a computed or cached mechanism, gives the same numbers.',
     ['inputs', 'histories'],
     'all robots, joint and parameter values, hash seeds, cold or warm cache',
     'No test loads, runs or reads the generated code and reports.',
     A(['fkOnly.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_latex.py', 'ikbtbasics/kin_cl.py', 'ikbtbasics/ik_classes.py'],
       [('writers', 'ikbtfunctions/'), ('forward kinematics and Jacobian', 'ikbtbasics/kin_cl.py')],
       ['CodeGen/Python/FK_equations<robot>.py', 'LaTex/fk_equations_<robot>.tex']),
     'exploration', 'generated module executed and report evaluated with drawn joint values, after cold and warm runs',
     DST + 'generated artefacts evaluated against independent forward kinematics and numeric differentiation')
prop('K13', 'Generated C++ inverse kinematics compiles and finds the true posture',
     'For every robot, whatever the order of tools and unknowns, the generated C++ file compiles once values are filled in for the '
     'parameters, and its ikin() called with any reachable pose returns 1 with one row per solution set (values in the order of the sorted names), one of them the joint values '
     'that produced the pose, or returns 0 because an asin/acos argument of some branch leaves [-1, 1] there.  Only square roots of '
     '(rounded) negative numbers may make values of a branch not-a-number.',
     ['inputs', 'schedules', 'fault_sequences'], KQ,
     'The only test of the C++ writer needs a data file which is not in the repository; nothing ever compiles the output.',
     A(['ikbtfunctions/output_cpp.py', 'ikbtbasics/ik_classes.py'],
       [('output_cpp_code', 'ikbtfunctions/output_cpp.py'), ('create_solution_set', 'ikbtbasics/ik_classes.py')],
       ['CodeGen/Cpp/IK_equations<robot>.cpp']),
     'exploration', 'generated C++ compiled with g++ and executed at drawn reachable poses after simulated solver runs',
     DST + 'generated C++ of each simulated run compiled and executed; numeric forward kinematics as oracle')
prop('K10', 'Work lists hold every equation under its number of unsolved unknowns',
     'Whenever the solver rebuilds its work lists, each equation with one, two or more unsolved unknowns is in the list for that number, '
     'every matrix and auxiliary equation with unsolved unknowns is in one of them, and fully solved equations are in none.',
     ['schedules', 'histories'], KQ,
     'The tests count list lengths for one fixed system with nothing solved.',
     A(['ikbtbasics/ik_classes.py', 'ikbtleaves/updateL.py'],
       [('scan_for_equations', 'ikbtbasics/ik_classes.py'), ('count_unknowns', 'ikbtbasics/kin_cl.py')],
       ['eqns_1u, eqns_2u, eqns_3pu on the blackboard']),
     'exploration', 'lists recounted independently after every rebuild',
     DST + 'independent recount after every simulated rebuild')
prop('K11', 'Solver tools are sound on every equation pattern',
     'Whatever equations with one or two unknowns the solver meets, in whatever order and with whatever others solved before, any '
     'solution it publishes contains the value that satisfies the system the equations came from; a tool that cannot solve declines without aborting the run. '
     'The system is reported as solved exactly if every unknown is solved, and one in which every unknown has a well-formed equation of a supported pattern is solved completely (the squaring transform being tried last, as shipped).',
     ['inputs', 'schedules', 'fault_sequences'],
     'random systems of the pattern families (algebraic, sine/cosine, tangent, combined, simultaneous, sum of squares, substitution) '
     'with drawn coefficients, signs, degeneracies, other unknowns, orders and outages',
     'Each tool is tested on a handful of fixed equations of its own pattern.',
     A(['ikbtleaves/*.py'], [('identify and solve leaves', 'ikbtleaves/')], ['unknown.solutions']),
     'exploration', 'random equation systems with known truth through the real tool tree',
     DST + 'seeded equation systems, tool orders and outages; numeric truth as oracle')

prop('K12', 'The inverse kinematics report states true results',
     'The inverse kinematics report in LaTeX is well formed and shows the robot\'s own DH table and forward kinematics, the unknowns in the order in which they were solved, '
     'for every solved unknown solutions one of which is the true joint value, and numbered version equations and solution sets one of which is the true posture, for every reachable generic pose, and exactly the edges of the dependencies among the solutions.',
     ['inputs', 'histories'],
     'all robots, poses, hash seeds, cold or warm cache',
     'No test reads the generated report.',
     A(['ikSolver.py', 'ikbtfunctions/output_latex.py', 'ikbtbasics/ik_classes.py'],
       [('latex writer', 'ikbtfunctions/output_latex.py')], ['LaTex/ik_solution_<robot>.tex']),
     'exploration', 'report parsed and evaluated numerically at drawn poses',
     DST + 'generated report parsed and evaluated at poses with known joint values')

NA = [
]

if __name__ == '__main__':
    sel = [p for p in P if BUILT is None or p[0]['id'] in BUILT]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _, _ in sel:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': tech, 'level': lev, 'level_note': note} for p, lev, note, tech in sel],
           'not_applicable': NA}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
