"""K06: the real assigner leaf in real behaviour trees over several blackboards, with a seeded interleaving of
ticks, solving, growing unknown lists, leaves that fail or raise, and restarts of the solver on a blackboard."""
import json
import os
import random
import sys

from . import proc, simclock
from .runner import Check, Outcome, h8


class Boom(Exception):
    pass


class K06(Check):
    pid = 'K06'
    level = 'exploration'
    quick_runs = 24000
    thorough_runs = 400000
    quick_cap = 60.0
    thorough_cap = 2400.0
    selftest = 40
    rule = ('histories of 1-3 blackboards with 1-9 unknowns each, one or two assigner leaves shared by trees of different shape; '
            'the seed draws which tree is ticked on which blackboard, which unknown is solved or added when, which '
            'worker leaf fails, raises or stays running; non-trivial = some unknown was solved while others waited')
    components = {'real': ['ikbtleaves/assigner_leaf.py', 'ikbtbasics.kin_cl.unknown', 'b3 trees, composites, repeaters'],
                  'stub': ['the tool subtree (a scripted leaf that solves, fails, raises or adds unknowns)', 'clock']}
    assumptions = ['between two assignments unknowns only go from unsolved to solved, or are appended to the list, as the '
                   'solver does']

    def setup_worker(self, prep):
        simclock.install()
        proc.preload()

    def gen(self, rng, i, tier):
        nb = rng.choice([1, 1, 2, 3])
        scn = {'boards': [{'n': rng.choice([1, 2, 3, 4, 6, 9]), 'solved': []} for _ in range(nb)],
               'shape': [rng.choice(['seq', 'loop', 'deep', 'seq']) for _ in range(2)],
               'loop': rng.choice([2, 3, 7]), 'shared': rng.random() < .5, 'ops': []}
        for b in scn['boards']:
            b['solved'] = [j for j in range(b['n']) if rng.random() < .2]
        psolve = rng.choice([0, 0.02, 0.1, 0.4])
        pnew = rng.choice([0, 0, 0.03, 0.2])
        praise = rng.choice([0, 0, 0.1])
        pready = rng.choice([0, 0, 0.1])
        for _ in range(rng.choice([10, 30, 60, 120] if tier == 'quick' else [30, 120, 400])):
            # one tick: which board, which tree, and what the workers of this tick do
            acts = []
            for _ in range(scn['loop']):
                x = rng.random()
                if x < psolve:
                    acts.append(['cur'])
                elif x < psolve * 1.5:
                    acts.append(['other', rng.randrange(9)])
                elif x < psolve * 1.5 + pnew:
                    acts.append(['new'])
                elif x < psolve * 1.5 + pnew + praise:
                    acts.append(['raise'])
                elif x > 1 - pready:
                    acts.append(['ready'])
                else:
                    acts.append([rng.choice(['fail', 'fail', 'ok', 'run'])])
            scn['ops'].append([rng.randrange(nb), rng.randrange(2), acts])
        return scn

    def execute(self, scn):
        import b3
        import sympy as sp
        from ikbtleaves.assigner_leaf import assigner
        from ikbtbasics.kin_cl import unknown
        out = Outcome()
        proc.uuid.uuid1 = proc.Uuid('u1/0')
        proc.uuid.uuid4 = proc.Uuid('u4/0')
        sys.stdout = open(os.devnull, 'w')
        state = {'acts': [], 'pos': 0, 'board': None}
        boards = []

        class Work(b3.Action):
            def tick(self, t):
                k = state['pos']
                state['pos'] += 1
                a = state['acts'][k % len(state['acts'])]
                bd = boards[state['board']]
                u = t.blackboard.get('curr_unk')
                if a[0] == 'cur':
                    u.solved = True
                    return b3.SUCCESS
                if a[0] == 'ready':          # identified, but the solver declined
                    u.readytosolve = True
                    return b3.FAILURE
                if a[0] == 'other':
                    bd['us'][a[1] % len(bd['us'])].solved = True
                    return b3.SUCCESS
                if a[0] == 'new':
                    if len(bd['us']) < 24:
                        bd['us'].append(unknown(sp.Symbol('th_%d%d' % (state['board'], len(bd['us'])))))
                    return b3.SUCCESS
                if a[0] == 'raise':
                    raise Boom()
                return {'fail': b3.FAILURE, 'ok': b3.SUCCESS, 'run': b3.RUNNING}[a[0]]

        class Asg(assigner):
            pass
        check = self

        def watched(leaf):
            orig = leaf.tick

            def tick(t):
                st = orig(t)
                check.observe(out, boards[state['board']], st, b3)
                return st
            leaf.tick = tick
            return leaf
        a0 = watched(Asg())
        a1 = a0 if scn['shared'] else watched(Asg())
        trees = []
        for shape, a in zip(scn['shape'], (a0, a1)):
            t = b3.BehaviorTree()
            w = Work()
            if shape == 'seq':
                t.root = b3.Sequence([a, w])
            elif shape == 'loop':
                t.root = b3.RepeatUntilSuccess(b3.Sequence([a, w]), scn['loop'])
            else:
                t.root = b3.RepeatUntilSuccess(b3.Sequence([a, b3.Priority([w, Work()])]), scn['loop'])
            trees.append(t)
        for k, b in enumerate(scn['boards']):
            us = [unknown(sp.Symbol('th_%d%d' % (k, j))) for j in range(b['n'])]
            for j in b['solved']:
                us[j].solved = True
            bb = b3.Blackboard()
            bb.set('unknowns', us)
            boards.append({'bb': bb, 'us': us, 'wait': {}, 'idle': 0, 'k': k, 'n': 0})
        for bi, ti, acts in scn['ops']:
            bd = boards[bi]
            state.update(acts=acts, pos=0, board=bi)
            before = sum(u.solved for u in bd['us'])
            try:
                st = trees[ti].tick('x', bd['bb'])
                out.ev('tick', bi, ti, '->', st)
            except Boom:
                out.ev('tick', bi, ti, 'raised')
                out.stats['fault:tool raises'] += 1
            except Exception as e:
                out.violate('assigner raised', '%s: %s' % (type(e).__name__, e))
            after = sum(u.solved for u in bd['us'])
            if after > before and after < len(bd['us']):
                state['nontrivial'] = True
            for a in acts[:state['pos']]:
                out.stats['op:' + a[0]] += 1
            if out.viol:
                break
        out.nontrivial = bool(state.get('nontrivial'))
        return out

    def observe(self, out, bd, st, b3):
        us = bd['us']
        bb = bd['bb']
        cu = bb.get('curr_unk')
        bd['n'] += 1
        out.ev('assign', bd['k'], getattr(cu, 'name', None), 's' if getattr(cu, 'solved', 0) else 'u')
        out.states.add(h8((''.join('s' if u.solved else 'u' for u in us),
                           us.index(cu) if cu in us else -1)))
        if st != b3.SUCCESS:
            out.violate('assigner did not succeed', st)
        if not any(cu is u for u in us):
            out.violate('assigned something that is no unknown of this blackboard', cu)
            return
        if bb.get('unknowns') is not us:
            out.violate('unknown list replaced', '')
            return
        uns = [u for u in us if not u.solved]
        if cu.solved and uns:
            bd['idle'] += 1
            if bd['idle'] > 1:
                out.violate('two assignments in a row to solved unknowns', '%s while %s are unsolved'
                            % (cu.name, [u.name for u in uns]))
        else:
            bd['idle'] = 0
        for u in us:
            if u.solved or u is cu:
                bd['wait'][u.name] = 0
            else:
                w = bd['wait'].get(u.name, 0) + 1
                bd['wait'][u.name] = w
                if w > len(us) + 1:
                    out.violate('unsolved unknown is starved', '%s not assigned in %d assigner ticks (%d unknowns)'
                                % (u.name, w, len(us)))

    def shrink(self, scn):
        ops = scn['ops']
        n = len(ops)
        step = max(1, n // 2)
        while step >= 1:
            for k in range(0, n, step):
                if len(ops) > 1:
                    yield dict(scn, ops=ops[:k] + ops[k + step:])
            if step == 1:
                break
            step //= 2
        for k, b in enumerate(scn['boards']):
            if b['n'] > 1:
                bs = list(scn['boards'])
                bs[k] = {'n': b['n'] - 1, 'solved': [j for j in b['solved'] if j < b['n'] - 1]}
                yield dict(scn, boards=bs)
            for j in b['solved']:
                bs = list(scn['boards'])
                bs[k] = dict(b, solved=[x for x in b['solved'] if x != j])
                yield dict(scn, boards=bs)
        if scn['shape'] != ['seq', 'seq']:
            yield dict(scn, shape=['seq', 'seq'])


CHECKS = {'K06': K06}
