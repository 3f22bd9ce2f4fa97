"""Family B: the behaviour tree library (b3), real code, under a simulated clock, scripted leaves,
a seeded interleaving of trees and blackboards, crashes (exceptions), restarts (dump/load)."""
import json
import random
import sys

from . import hang, simclock
from .runner import Check, Outcome, REPO, h8

S, F, R, E = 1, 2, 3, 4
RAISE = 0
COMPOSITES = ('Sequence', 'Priority', 'MemSequence', 'MemPriority', 'OrNode')
REPEATERS = ('Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess', 'Limiter')
NODE_BUDGET = 2500          # node ticks per tree tick allowed in the reference model

b3 = None


def load_b3():
    global b3, ScriptLeaf, ScriptCond
    if b3 is not None:
        return
    simclock.install()
    sys.path.insert(0, REPO)
    import b3 as _b3
    b3 = _b3

    class _Scripted(object):
        def tick(self, tick):
            return RUN.leaf(self, tick)

    class ScriptLeaf(_Scripted, b3.Action):
        pass

    class ScriptCond(_Scripted, b3.Condition):
        pass
    globals()['ScriptLeaf'] = ScriptLeaf
    globals()['ScriptCond'] = ScriptCond


class SimFault(Exception):
    """Injected failure of a leaf."""


class Budget(BaseException):
    pass


RUN = None


# ----------------------------------------------------------------------------- reference model

class ModelBudget(Exception):
    pass


class Model(object):
    """Small executable specification of the tree semantics."""

    def __init__(self, scn, actual_ret=None):
        self.nodes = {}
        for t in scn['trees']:
            index_nodes(t['root'], self.nodes)
        self.mem = {}            # (tree, board, node) -> dict
        self.leafcount = {}
        self.now = scn.get('start', 1000000.0)
        self.actual = actual_ret     # node id -> list of actual statuses (for time-ambiguous ticks)
        self.seen = {}
        self.ev = []
        self.N_all, self.N_succ, self.N_suc2 = {}, {}, {}
        self.cost, self.state, self.Nt, self.Nt2 = {}, {}, {}, {}
        self.total = {}
        self.log = []
        self.ambiguous = 0

    def m(self, tb, n):
        return self.mem.setdefault((tb[0], tb[1], n), {})

    def tick_tree(self, t, tid, b, root, logflag):
        self.ev = []
        self.n = 0
        self.tb = (tid, b)
        self.logflag = logflag
        return self.execute(root)

    def execute(self, n):
        nid = n['id']
        self.n += 1
        if self.n > NODE_BUDGET:
            raise ModelBudget()
        mm = self.m(self.tb, nid)
        self.ev.append(('enter', nid))
        if not mm.get('open'):
            mm['open'] = True
            self.ev.append(('open', nid))
            self.on_open(n, mm)
        self.ev.append(('tick', nid))
        self.N_all[nid] = self.N_all.get(nid, 0) + 1
        st = self.tick(n, mm)
        self.ev.append(('ret', nid, st))
        self.total[self.tb[1]] = self.total.get(self.tb[1], 0) + self.cost.get(nid, n.get('cost', 0))
        if st == S:
            self.N_succ[nid] = self.N_succ.get(nid, 0) + 1
            k = self.N_suc2.setdefault(nid, [0, 0, 0, 0])
            k[self.state.get(nid, 0)] += 1
            if self.logflag > 0:
                self.log.append('S ' + nid)
        if st == F and self.logflag > 1:
            self.log.append('F ' + nid)
        if st != R:
            mm['open'] = False
            self.ev.append(('close', nid))
        self.ev.append(('exit', nid))
        return st

    def on_open(self, n, mm):
        k = n['k']
        if k in ('MemSequence', 'MemPriority'):
            mm['rc'] = 0
        elif k in ('Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess'):
            mm['i'] = 0
        elif k == 'Limiter':
            mm.setdefault('i', 0)
        elif k in ('Wait', 'MaxTime'):
            mm['t0'] = self.now

    def tick(self, n, mm):
        k = n['k']
        nid = n['id']
        if k in ('Script', 'Cond'):
            key = (nid,) + self.tb
            c = self.leafcount.get(key, 0)
            self.leafcount[key] = c + 1
            st = n['s'][c % len(n['s'])]
            self.now += n['d'][c % len(n['d'])] if n.get('d') else 0
            if n.get('st'):
                self.state[nid] = n['st'][c % len(n['st'])]
            if n.get('cs'):
                self.cost[nid] = n['cs'][c % len(n['cs'])]
            self.Nt[nid] = self.Nt.get(nid, 0) + 1
            self.Nt2.setdefault(nid, [0, 0, 0, 0])[self.state.get(nid, 0)] += 1
            if st == RAISE:
                raise SimFault(nid)
            return st
        if k in ('Succeeder', 'Failer', 'Runner', 'Error'):
            return {'Succeeder': S, 'Failer': F, 'Runner': R, 'Error': E}[k]
        if k == 'Wait':
            return S if self.now - mm['t0'] > n['ms'] / 1000.0 else R
        ch = n.get('c') or []
        if k == 'Sequence' or k == 'Priority':
            stop = F if k == 'Priority' else S
            cost = 0
            st = stop
            for c in ch:
                st = self.execute(c)
                cost += self.cost_of(c)
                if st != stop:
                    break
            self.cost[nid] = cost
            return st
        if k == 'OrNode':
            cost, res = 0, F
            for c in ch:
                st = self.execute(c)
                cost += self.cost_of(c)
                if st != F:
                    res = S
            self.cost[nid] = cost
            return res
        if k in ('MemSequence', 'MemPriority'):
            go = S if k == 'MemSequence' else F
            for i in range(mm['rc'], len(ch)):
                st = self.execute(ch[i])
                if st != go:
                    if st == R:
                        mm['rc'] = i
                    return st
            return go
        # decorators
        if not ch:
            return E
        c = ch[0]
        if k == 'Inverter':
            st = self.execute(c)
            return {S: F, F: S}.get(st, st)
        if k == 'Limiter':
            if mm['i'] < n['n']:
                st = self.execute(c)
                if st in (S, F):
                    mm['i'] += 1
                return st
            return F
        if k == 'MaxTime':
            before = self.now - mm['t0'] > n['mx']
            st = self.execute(c)
            after = self.now - mm['t0'] > n['mx']
            self.seen[nid] = self.seen.get(nid, 0) + 1
            if before == after:
                return F if before else st
            self.ambiguous += 1         # the limit passed while the child ran: either answer is right
            if self.actual is not None:
                lst = self.actual.get(nid) or []
                j = self.seen[nid] - 1
                if j < len(lst) and lst[j] in (F, st):
                    return lst[j]
            return F if before else st
        if k in ('Repeater', 'RepeatUntilFailure', 'RepeatUntilSuccess'):
            st = S if k == 'Repeater' else E
            cont = {'Repeater': (S, F), 'RepeatUntilFailure': (S,), 'RepeatUntilSuccess': (F,)}[k]
            while n['n'] < 0 or mm['i'] < n['n']:
                st = self.execute(c)
                if st in cont:
                    mm['i'] += 1
                else:
                    break
            return st
        raise AssertionError(k)

    def cost_of(self, c):
        return self.cost.get(c['id'], c.get('cost', 0))


def index_nodes(n, d):
    d[n['id']] = n
    for c in n.get('c') or []:
        index_nodes(c, d)


# ----------------------------------------------------------------------------- real system

class Real(object):
    """Builds the real trees and records what they do."""

    def __init__(self, scn):
        global RUN
        RUN = self
        self.scn = scn
        self.clock = simclock.start(scn.get('start', 1000000.0))
        self.spec = {}
        for t in scn['trees']:
            index_nodes(t['root'], self.spec)
        self.objs = {}
        self.leafcount = {}
        self.ev = []
        self.handed = (None, None, None, None)
        self.ret = {}
        self.count = 0
        self.boards = [b3.Blackboard() for _ in range(scn['boards'])]
        self.trees = []
        self.log = []
        self.treeids = []
        for t in scn['trees']:
            tr = b3.BehaviorTree()
            if t.get('tid'):
                tr.id = t['tid']
            tr.title = t.get('title', tr.title)
            tr.description = t.get('desc', '')
            tr.properties = dict(t.get('props') or {})
            tr.debug = object()
            tr.root = self.build(t['root'])
            if t.get('log'):
                tr.log_flag = t['log']
                tr.log_file = self
            self.trees.append(tr)

    def write(self, txt):            # the log file
        self.log.append(txt)

    def build(self, n):
        if n['id'] in self.objs:
            return self.objs[n['id']]
        k = n['k']
        ch = [self.build(c) for c in n.get('c') or []]
        if k == 'Script':
            o = ScriptLeaf()
        elif k == 'Cond':
            o = ScriptCond()
        elif k in COMPOSITES:
            o = getattr(b3, k)(ch) if ch else getattr(b3, k)()
        elif k in REPEATERS:
            o = getattr(b3, k)(ch[0] if ch else None, max_loop=n['n'])
        elif k == 'MaxTime':
            o = b3.MaxTime(ch[0] if ch else None, max_time=n['mx'])
        elif k == 'Inverter':
            o = b3.Inverter(ch[0]) if ch else b3.Inverter()
        elif k == 'Wait':
            o = b3.Wait(milliseconds=n['ms'])
        else:
            o = getattr(b3, k)()
        o.id = n['id']
        o.Name = n['id']
        if n.get('cost'):
            o.Cost = n['cost']
        if n.get('title'):
            o.title = n['title']
        if n.get('desc'):
            o.description = n['desc']
        if n.get('props'):
            o.properties = dict(n['props'])
        self.instrument(o)
        self.objs[n['id']] = o
        return o

    def instrument(self, o):
        me = self
        nid = o.id
        for hook in ('enter', 'open', 'close', 'exit'):
            orig = getattr(o, hook)

            def wrapped(tick, _o=orig, _h=hook):
                me.ev.append((_h, nid))
                return _o(tick)
            setattr(o, hook, wrapped)
        otick = o.tick

        def ticked(tick):
            me.count += 1
            if me.count > 4 * NODE_BUDGET:
                raise Budget()
            me.ev.append(('tick', nid))
            st = otick(tick)
            me.ev.append(('ret', nid, st))
            me.ret.setdefault(nid, []).append(st)
            return st
        o.tick = ticked

    def leaf(self, node, tick):
        n = self.spec[node.id]
        bi = [i for i, b in enumerate(self.boards) if b is tick.blackboard]
        key = (node.id, tick.tree.id, bi[0] if bi else None)
        for got, want, what in zip((tick.tree, tick.blackboard, tick.target, tick.debug), self.handed,
                                   ('tree', 'blackboard', 'target', 'debug')):
            if got is not want:
                self.ev.append(('wrong ' + what, node.id))
        c = self.leafcount.get(key, 0)
        self.leafcount[key] = c + 1
        st = n['s'][c % len(n['s'])]
        if n.get('d'):
            self.clock.advance(n['d'][c % len(n['d'])])
        if n.get('st'):
            node.state = n['st'][c % len(n['st'])]
        if n.get('cs'):
            node.Cost = n['cs'][c % len(n['cs'])]
        node.N_ticks += 1
        node.N_tik2[node.state] += 1
        if st == RAISE:
            raise SimFault(node.id)
        return st

    def tick(self, t, b):
        self.ev = []
        self.count = 0
        tr = self.trees[t]
        self.handed = (tr, self.boards[b], ('target', t, b, len(self.ret)), tr.debug)
        return tr.tick(self.handed[2], self.boards[b])

    def reload(self, t, in_place=False):
        """Restart: the tree is written out as JSON and rebuilt from it in place."""
        tr = self.trees[t]
        data = tr.dump()
        txt = json.dumps(data, sort_keys=True)
        names = {'ScriptLeaf': ScriptLeaf, 'ScriptCond': ScriptCond}
        again = json.loads(txt)
        if in_place:
            new = tr                    # the same tree object reads its description back
            for k, v in (('title', 'other'), ('description', 'other'), ('properties', {'other': 1})):
                if data[k]:             # (an empty field means: keep the default)
                    setattr(tr, k, v)
        else:
            new = b3.BehaviorTree()
        other = b3.BehaviorTree()       # a second tree built from the same description shares nothing with it
        other.load(again, names)
        new.load(again, names)
        new.other = other
        new.id = tr.id
        new.log_flag, new.log_file = tr.log_flag, tr.log_file
        new.debug = tr.debug
        txt2 = json.dumps(new.dump(), sort_keys=True)
        st = [new.root]
        seen = set()
        while st:
            o = st.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            self.instrument(o)
            o.Name = o.id
            st.extend(getattr(o, 'children', None) or [])
            if getattr(o, 'child', None):
                st.append(o.child)
        self.trees[t] = new
        return data, txt, txt2


# ----------------------------------------------------------------------------- generator

class Gen(object):
    def __init__(self, rng, kinds, leafkinds, time=False, raises=False, maxnodes=14, stats=False):
        self.rng, self.kinds, self.leafkinds = rng, kinds, leafkinds
        self.time, self.raises, self.stats = time, raises, stats
        self.maxnodes = maxnodes
        self.n = 0
        self.pS = rng.choice([0.3, 0.45, 0.6])
        self.pR = rng.choice([0.05, 0.2, 0.35])
        self.pE = rng.choice([0.0, 0.05, 0.1])

    def nid(self):
        self.n += 1
        return 'n%d' % self.n

    def status(self):
        x = self.rng.random()
        if x < self.pR:
            return R
        if x < self.pR + self.pE:
            return E
        return S if self.rng.random() < self.pS else F

    def leaf(self):
        r = self.rng
        k = r.choice(self.leafkinds)
        n = {'k': k, 'id': self.nid()}
        if k == 'Wait':
            n['ms'] = 125 * r.choice([0, 1, 2, 4, 8, 16, 40])
        elif k in ('Script', 'Cond'):
            n['s'] = [self.status() for _ in range(r.randint(1, 7))]
            if self.raises and r.random() < 0.25:
                n['s'][r.randrange(len(n['s']))] = RAISE
            if self.time and r.random() < 0.6:
                n['d'] = [0.125 * r.choice([0, 0, 1, 2, 4, 9]) for _ in range(r.randint(1, 4))]
            if self.stats:
                n['cost'] = r.randint(0, 5)
                if r.random() < 0.5:
                    n['st'] = [r.randrange(4) for _ in range(r.randint(1, 5))]
                if r.random() < 0.3:
                    n['cs'] = [r.randint(0, 6) for _ in range(r.randint(1, 3))]
        return n

    def tree(self, depth=0):
        r = self.rng
        if self.n >= self.maxnodes or depth >= 4 or (depth > 0 and r.random() < 0.3):
            return self.leaf()
        k = r.choice(self.kinds)
        n = {'k': k, 'id': self.nid()}
        if k in COMPOSITES:
            n['c'] = [self.tree(depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 4, 6]))]
        else:
            n['c'] = [self.tree(depth + 1)] if r.random() < 0.97 else []
            if k in REPEATERS:
                n['n'] = r.choice([0, 1, 1, 2, 3, 4]) if k == 'Limiter' else r.choice([-1, -1, 0, 1, 2, 3, 4])
            if k == 'MaxTime':
                n['mx'] = 0.125 * r.choice([0, 1, 3, 8, 20])
        return n


def share_node(root, rng):
    """Puts a node object at a second place of its tree (never below itself)."""
    comps = []

    def walk(n, above):
        if n['k'] in COMPOSITES:
            comps.append((n, above | {n['id']}))
        for c in n.get('c') or []:
            walk(c, above | {n['id']})
    walk(root, set())
    if not comps:
        return
    ids = {}
    index_nodes(root, ids)
    par, above = rng.choice(comps)
    cand = [n for i, n in sorted(ids.items()) if i not in above]
    if cand:
        par['c'].insert(rng.randint(0, len(par['c'])), rng.choice(cand))


def model_ok(scn):
    """The reference model finishes every tick within its budget."""
    m = Model(scn)
    dead = set()
    n = 0
    try:
        for op in scn['ops']:
            if op['op'] == 'tick' and (op['t'], op['b']) not in dead:
                t = scn['trees'][op['t']]
                try:
                    m.tick_tree(op['t'], t['tid'], op['b'], t['root'], 0)
                except SimFault:
                    dead.add((op['t'], op['b']))
                n += m.n
            elif op['op'] == 'adv':
                m.now += op['dt']
    except ModelBudget:
        return False
    return n < 20000


def drop_lists(x, path=()):
    """Candidate deletions of subtrees / script entries."""
    if isinstance(x, dict):
        for k in sorted(x):
            for p in drop_lists(x[k], path + (k,)):
                yield p
    elif isinstance(x, list):
        for i in range(len(x) - 1, -1, -1):
            yield path + (i,)
        for i in range(len(x)):
            for p in drop_lists(x[i], path + (i,)):
                yield p


def edit(scn, path, fn):
    s = json.loads(json.dumps(scn))
    o = s
    for p in path[:-1]:
        o = o[p]
    fn(o, path[-1])
    return s


class BCheck(Check):
    kinds = COMPOSITES + ('Inverter',)
    leafkinds = ('Script', 'Script', 'Script', 'Cond', 'Succeeder', 'Failer', 'Runner', 'Error')
    time = False
    raises = False
    stats = False
    jumps = False
    ntrees = (1, 1)
    nboards = (1, 1)
    nops = (3, 14)
    quick_runs = 60000
    thorough_runs = 1500000
    quick_cap = 75.0
    run_limit = 120.0
    selftest = 400
    cpu = 20.0
    components = {'real': ['b3 core (BehaviorTree, BaseNode, Tick, Blackboard)', 'all b3 composites',
                           'b3 decorators', 'b3 Wait/Succeeder/Failer/Runner/Error'],
                  'stub': ['leaf actions/conditions (scripted status, duration, cost, exception)',
                           'time.time/monotonic (simulated clock)']}
    assumptions = ['leaves are black boxes that return one of the four statuses or raise',
                   'one thread ticks trees (the library has no locking and claims none)']

    def setup_worker(self, prep):
        load_b3()

    share = 0.12            # the same node at two places of one tree

    def gen(self, rng, i, tier):
        big = tier == 'thorough' and rng.random() < 0.3
        while True:
            nt = rng.randint(*self.ntrees)
            nb = rng.randint(*self.nboards)
            g = Gen(rng, self.kinds, self.leafkinds, self.time, self.raises,
                    maxnodes=rng.choice([4, 8, 14]) if not big else 30, stats=self.stats)
            trees = []
            for t in range(nt):
                root = g.tree()
                if root['k'] not in self.kinds and rng.random() < 0.9:
                    root = {'k': rng.choice(self.kinds), 'id': g.nid(), 'c': [root]}
                    if root['k'] in REPEATERS:
                        root['n'] = rng.choice([1, 2, 3])
                    if root['k'] == 'MaxTime':
                        root['mx'] = 0.5
                trees.append({'tid': 'T%d' % t, 'root': root})
                g.maxnodes += 10
            for t in trees:
                if rng.random() < self.share:
                    share_node(t['root'], rng)
            scn = {'trees': trees, 'boards': nb, 'start': 1000000.0, 'ops': []}
            self.decorate(scn, rng)
            for _ in range(rng.randint(*self.nops) * (2 if big else 1)):
                scn['ops'].append(self.genop(rng, scn))
            if model_ok(scn):
                return scn

    def decorate(self, scn, rng):
        pass

    def genop(self, rng, scn):
        if (self.time or self.jumps) and rng.random() < 0.4:
            dt = 0.125 * rng.choice([0, 1, 2, 3, 8, 17, 40, 400])
            if rng.random() < 0.2:
                dt += rng.choice([1, 3, 100]) / 4096.0
            if self.jumps and rng.random() < 0.2:
                dt = -0.125 * rng.choice([1, 4, 16, 800])
            elif self.jumps and rng.random() < 0.1:
                dt = 86400.0
            return {'op': 'adv', 'dt': dt}
        return {'op': 'tick', 't': rng.randrange(len(scn['trees'])), 'b': rng.randrange(scn['boards'])}

    def shrink(self, scn):
        ops = scn['ops']
        n = len(ops)
        size = n // 2
        while size >= 1:
            for k in range(0, n, size):
                yield dict(scn, ops=ops[:k] + ops[k + size:])
            size //= 2
        for t in range(len(scn['trees'])):
            root = scn['trees'][t]['root']
            # hoist a child, drop a child
            def walk(n, path):
                for j, c in enumerate(n.get('c') or []):
                    yield path + ('c', j), c
                    for x in walk(c, path + ('c', j)):
                        yield x
            for j, c in enumerate(root.get('c') or []):
                if c.get('c'):
                    s = json.loads(json.dumps(scn))
                    s['trees'][t]['root'] = c
                    yield s
            for path, c in walk(root, ('trees', t, 'root')):
                yield edit(scn, path, lambda o, k: o.pop(k))
            for path, c in walk(root, ('trees', t, 'root')):
                for g in c.get('c') or []:
                    yield edit(scn, path, lambda o, k, g=g: o.__setitem__(k, g))
            for path, c in list(walk(root, ('trees', t, 'root'))) + [(('trees', t, 'root'), root)]:
                if c.get('s') and len(c['s']) > 1:
                    for j in range(len(c['s'])):
                        yield edit(scn, path + ('s', j), lambda o, k: o.pop(k))
                if c.get('d'):
                    yield edit(scn, path + ('d',), lambda o, k: o.pop(k))
                for fld in ('st', 'cs', 'cost', 'props', 'title', 'desc'):
                    if c.get(fld):
                        yield edit(scn, path + (fld,), lambda o, k: o.pop(k))
                if c.get('n', 0) > 1:
                    yield edit(scn, path + ('n',), lambda o, k: o.__setitem__(k, o[k] - 1))

    def execute(self, scn):
        load_b3()
        out = Outcome()
        hang.arm(self.cpu)
        try:
            self.run(scn, out)
        except hang.Hang:
            out.violate('hang', 'a tree tick never ended')
        finally:
            hang.disarm()
            simclock.stop()
        return out

    # -- helpers shared by the concrete checks
    def do_tick(self, real, op, out, dead):
        pair = (op['t'], op['b'])
        if pair in dead:
            return None, 'dead'
        try:
            st = real.tick(*pair)
            return st, 'ok'
        except SimFault:
            dead.add(pair)
            out.stats['fault:leaf exception'] += 1
            return None, 'fault'
        except Budget:
            out.violate('unbounded tick', 'tick of tree %d did not end within %d node ticks'
                        % (op['t'], 4 * NODE_BUDGET))
            return None, 'stop'
        except Exception as e:
            out.violate('tick raised', '%s: %s while ticking tree %d' % (type(e).__name__, e, op['t']))
            return None, 'stop'

    def lockstep(self, scn, out, compare, on_tick=None):
        """Run the real trees; after every tick let the model make the same tick and compare."""
        real = Real(scn)
        model = Model(scn, real.ret)
        dead = set()
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'adv':
                real.clock.advance(op['dt'])
                model.now += op['dt']
                if op['dt'] < 0:
                    out.stats['fault:clock jump back'] += 1
                elif op['dt'] >= 3600:
                    out.stats['fault:clock jump forward'] += 1
                out.ev('adv', op['dt'])
                continue
            if op['op'] != 'tick':
                if on_tick and on_tick(real, model, k, op, None) is False:
                    break
                continue
            st, how = self.do_tick(real, op, out, dead)
            if how == 'stop':
                break
            if how == 'dead':
                continue
            tr = scn['trees'][op['t']]
            try:
                mst = model.tick_tree(op['t'], tr['tid'], op['b'], tr['root'], tr.get('log', 0))
            except SimFault:
                mst = None
            except ModelBudget:
                out.inconclusive = 'model budget'
                break
            for e in real.ev:
                out.ev(*e)
            out.ev('status', st)
            out.states.add(h8((shape(tr['root']), sorted((kk, sorted(v.items())) for kk, v in model.mem.items()
                                                          if kk[0] == tr['tid'] and kk[1] == op['b']), st)))
            if compare(real, model, k, op, st, mst, how) is False:
                break
            if on_tick and on_tick(real, model, k, op, st) is False:
                break
        out.simtime = real.clock.total
        leaves = set(nid for nid, n in real.spec.items() if n['k'] in ('Script', 'Cond', 'Runner', 'Error'))
        for e in out.log:
            if e.startswith('ret '):
                p = e.split()
                if p[1] in leaves and p[2] in ('3', '4'):
                    out.stats['fault:leaf interrupted (RUNNING)' if p[2] == '3' else 'fault:leaf error'] += 1
        out.stats['probe:ambiguous max-time'] += model.ambiguous
        return real, model


def shape(n):
    return (n['k'], n.get('n'), tuple(shape(c) for c in n.get('c') or []))


def visits(ev):
    return [e for e in ev if e[0] in ('tick', 'ret')]


def wrong_hand(ev):
    """What a leaf got in its tick which was not what the tree was ticked with."""
    return [e for e in ev if e[0].startswith('wrong ')]


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return i, x, y
    return None


def cmp_visits(out, scn):
    def compare(real, model, k, op, st, mst, how):
        d = first_diff(visits(real.ev), visits(model.ev))
        if d:
            out.violate('wrong visit', 'op %d: step %d of the tick is %r, the tree semantics require %r'
                        % (k, d[0], d[1], d[2]))
            return False
        if how == 'ok' and st != mst:
            out.violate('wrong status', 'op %d: tick returned %r, required %r' % (k, st, mst))
            return False
    return compare


class B01(BCheck):
    pid = 'B01'
    rule = ('random trees of composites/Inverter (0-4 children, depth<=4) over scripted leaves; each run is a '
            'sequence of ticks; non-trivial = distinct event log')

    def run(self, scn, out):
        self.lockstep(scn, out, cmp_visits(out, scn))


class B02(BCheck):
    pid = 'B02'
    kinds = COMPOSITES + ('Inverter',) + REPEATERS + ('MaxTime',)
    leafkinds = BCheck.leafkinds + ('Wait',)
    time = True
    ntrees = (1, 2)
    nboards = (1, 2)
    rule = ('random trees of every node type on 1-2 blackboards; per node and (tree,blackboard) the sequence of '
            'enter/open/tick/close/exit is checked against the lifecycle automaton')

    def run(self, scn, out):
        opened = {}

        def compare(real, model, k, op, st, mst, how):
            pair = (op['t'], op['b'])
            stack = []
            for e in real.ev:
                what, nid = e[0], e[1]
                if what.startswith('wrong '):
                    continue
                key = pair + (nid,)
                isopen = opened.get(key, False)
                top = stack[-1] if stack else None
                bad = None
                if what == 'enter':
                    stack.append([nid, 'entered', None])
                    continue
                if top is None or top[0] != nid:
                    bad = '%s of %s outside its own execution' % (what, nid)
                elif what == 'open':
                    if top[1] != 'entered' or isopen:
                        bad = 'open of %s although %s' % (nid, 'it is open' if isopen else 'state is ' + top[1])
                    opened[key] = True
                elif what == 'tick':
                    if top[1] != 'entered':
                        bad = 'second tick of %s in one execution' % nid
                    if not opened.get(key):
                        bad = 'tick of %s which is not open' % nid
                    top[1] = 'ticking'
                elif what == 'ret':
                    top[1] = 'ticked'
                    top[2] = e[2]
                elif what == 'close':
                    if top[1] != 'ticked' or top[2] == R:
                        bad = 'close of %s in state %s with status %s' % (nid, top[1], top[2])
                    opened[key] = False
                    top[1] = 'closed'
                elif what == 'exit':
                    want = 'ticked' if top[2] == R else 'closed'
                    if top[1] != want:
                        bad = 'exit of %s in state %s with status %s' % (nid, top[1], top[2])
                    stack.pop()
                if bad:
                    out.violate('lifecycle', 'op %d: %s' % (k, bad))
                    return False
            if stack and how == 'ok':
                out.violate('lifecycle', 'op %d: %s entered but not exited' % (k, stack[-1][0]))
                return False
            if how == 'ok':
                out.stats['probe:tick left nodes open'] += any(v for kk, v in opened.items() if kk[:2] == pair)
                bb, tid = real.boards[op['b']], scn['trees'][op['t']]['tid']
                running = sum(1 for e in real.ev if e[0] == 'ret' and e[2] == R)
                entered = sum(1 for e in real.ev if e[0] == 'enter')
                left = bb.get('open_nodes', tid)
                if left is None or len(left) != running:
                    out.violate('open nodes', 'op %d: %r nodes recorded as left open, %d returned RUNNING'
                                % (k, None if left is None else len(left), running))
                    return False
                want = [e[1] for e in real.ev if e[0] == 'ret' and e[2] == R]
                if sorted(n.id for n in left) != sorted(want):
                    out.violate('open nodes', 'op %d: %r are recorded as left open, %r returned RUNNING'
                                % (k, sorted(n.id for n in left), sorted(want)))
                    return False
                if bb.get('node_count', tid) != entered:
                    out.violate('node count', 'op %d: node_count is %r, %d nodes were executed'
                                % (k, bb.get('node_count', tid), entered))
                    return False
        self.lockstep(scn, out, compare)


class B03(BCheck):
    pid = 'B03'
    kinds = COMPOSITES + ('Inverter',) + REPEATERS + ('MaxTime',)
    leafkinds = BCheck.leafkinds + ('Wait',)
    time = True
    raises = True
    jumps = True
    ntrees = (1, 5)
    nboards = (1, 3)
    nops = (6, 24)
    quick_runs = 50000
    rule = ('1-5 trees (sometimes sharing a subtree) x 1-3 blackboards, ticks and blackboard writes interleaved by '
            'the seeded scheduler, leaves that raise; each (tree, blackboard) history is compared with the same '
            'history run alone; non-trivial = at least two pairs ticked')

    def decorate(self, scn, rng):
        if len(scn['trees']) > 1 and rng.random() < 0.4:
            # the same node object in two trees
            a = scn['trees'][0]['root']
            b = scn['trees'][1]['root']
            if b.get('k') in COMPOSITES and a.get('c'):
                b.setdefault('c', []).append(rng.choice(a['c']))

    def genop(self, rng, scn):
        x = rng.random()
        if x < 0.25:
            scope = rng.choice(['base', 'tree', 'node'])
            t = rng.randrange(len(scn['trees']))
            ids = {}
            index_nodes(scn['trees'][t]['root'], ids)
            # Limiter/Mem*/timed nodes keep their own keys; user keys never collide with them
            return {'op': rng.choice(['bbset', 'bbset', 'bbget', 'bbget', 'bbinc']), 'b': rng.randrange(scn['boards']),
                    'key': rng.choice(['u1', 'u2']), 'val': rng.randrange(100),
                    'tree': None if scope == 'base' else 'T%d' % t,
                    'node': rng.choice(sorted(ids)) if scope == 'node' else None}
        return BCheck.genop(self, rng, scn)

    def run(self, scn, out):
        inter, bbok = self.history(scn, None, out)
        if out.viol:
            return
        pairs = sorted(set((op['t'], op['b']) for op in scn['ops'] if op['op'] == 'tick'))
        out.nontrivial = len(pairs) > 1
        for p in pairs:
            solo, _ = self.history(scn, p, out)
            if out.viol:
                return
            d = first_diff(inter.get(p, []), solo.get(p, []))
            if d:
                out.violate('interference', 'tree %d on blackboard %d: event %d is %r when interleaved and %r when '
                            'run alone' % (p[0], p[1], d[0], d[1], d[2]))
                return

    def history(self, scn, only, out):
        """Events per (tree, board).  With `only`, everything else becomes the passage of time."""
        real = Real(scn)
        dead = set()
        hist = {}
        ref = {}
        clock_at = self.clocks if only is not None else {}
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'adv':
                real.clock.advance(op['dt'])
                if only is None:
                    out.stats['fault:clock jump back'] += op['dt'] < 0
                continue
            if op['op'] == 'tick':
                pair = (op['t'], op['b'])
                if only is None:
                    clock_at[k] = real.clock.now
                elif pair != only:
                    continue
                else:
                    real.clock.now = clock_at[k]
                st, how = self.do_tick(real, op, out, dead)
                if how == 'stop':
                    return hist, False
                if how == 'dead':
                    continue
                if wrong_hand(real.ev):
                    out.violate('interference', 'op %d: leaf %s of tree %d was handed the %s of another tick'
                                % (k, wrong_hand(real.ev)[0][1], op['t'], wrong_hand(real.ev)[0][0][6:]))
                    return hist, False
                hist.setdefault(pair, []).extend(real.ev)
                hist[pair].append(('status', how, st))
                if only is None:
                    for e in real.ev:
                        out.ev(*e)
                    out.states.add(h8((k, pair, st, len(real.ev))))
                continue
            if only is not None:
                continue
            kk = (op['b'], op['tree'], op['node'], op['key'])
            bb = real.boards[op['b']]
            if op['op'] == 'bbset':
                bb.set(op['key'], op['val'], op['tree'], op['node'])
                ref[kk] = op['val']
            elif op['op'] == 'bbinc' and kk in ref:
                bb.inc(op['key'], op['val'], op['tree'], op['node'])
                ref[kk] += op['val']
            for b2 in range(scn['boards']):
                for (bx, tx, nx, keyx), want in list(ref.items()) + [((op['b'], op['tree'], op['node'], op['key']),
                                                                      ref.get(kk))]:
                    if bx != b2:
                        continue
                    got = real.boards[b2].get(keyx, tx, nx)
                    if got != want:
                        out.violate('blackboard scope', 'op %d: board %d scope (%s,%s) key %s is %r, last written %r'
                                    % (k, b2, tx, nx, keyx, got, want))
                        return hist, False
            out.ev('bb', k)
        if only is None:
            self.clocks = clock_at
            out.simtime = real.clock.total
            # user values survive any ticking
            for (bx, tx, nx, keyx), want in ref.items():
                got = real.boards[bx].get(keyx, tx, nx)
                if got != want:
                    out.violate('blackboard scope', 'end: board %d scope (%s,%s) key %s is %r, last written %r'
                                % (bx, tx, nx, keyx, got, want))
        return hist, True


class B04(BCheck):
    pid = 'B04'
    kinds = ('Sequence', 'Priority', 'MemSequence', 'MemPriority', 'MaxTime', 'MaxTime', 'MaxTime', 'Inverter')
    leafkinds = ('Script', 'Wait', 'Wait', 'Wait', 'Runner')
    time = True
    jumps = True
    nops = (6, 30)
    nboards = (1, 2)
    rule = ('trees containing Wait and MaxTime, slow leaves, clock advances, long stalls and forward/backward clock '
            'jumps between ticks; every status compared with the reference model reading the same simulated clock')

    def run(self, scn, out):
        self.lockstep(scn, out, cmp_visits(out, scn))
        def has(n):
            return n['k'] in ('Wait', 'MaxTime') or any(has(c) for c in n.get('c') or [])
        out.nontrivial = any(has(t['root']) for t in scn['trees'])


class B05(BCheck):
    pid = 'B05'
    kinds = REPEATERS + REPEATERS + ('Sequence', 'MemSequence', 'Priority', 'MemPriority', 'Inverter')
    nops = (3, 16)
    nboards = (1, 2)
    rule = ('trees dominated by Repeater/RepeatUntil*/Limiter with limits -1..4 over scripted leaves that interrupt '
            '(RUNNING) and error; visits and statuses compared with the reference model; a tick over '
            '%d node ticks is unbounded' % (4 * NODE_BUDGET))

    def run(self, scn, out):
        self.lockstep(scn, out, cmp_visits(out, scn))
        def has(n):
            return n['k'] in REPEATERS or any(has(c) for c in n.get('c') or [])
        out.nontrivial = any(has(t['root']) for t in scn['trees'])


class B06(BCheck):
    pid = 'B06'
    kinds = COMPOSITES + ('Inverter',) + REPEATERS + ('MaxTime',)
    leafkinds = BCheck.leafkinds + ('Wait',)
    time = True
    nops = (4, 18)
    quick_runs = 50000
    rule = ('restart faults: between ticks the tree is dumped to JSON text and rebuilt from it, keeping its identity '
            'and blackboard (process restart with durable blackboard) or with an empty blackboard (blackboard lost); '
            'the continued history must equal the uninterrupted one / that of a fresh tree')

    def decorate(self, scn, rng):
        for t in scn['trees']:
            if rng.random() < 0.5:
                t['title'] = 'tree "x"'
                t['desc'] = 'd\u00e9sc'
                t['props'] = {'a': 1, 'b': [1, 2]}
            ids = {}
            index_nodes(t['root'], ids)
            for n in ids.values():
                if rng.random() < 0.3:
                    n['title'] = 'title ' + n['id']
                    n['desc'] = 'desc ' + n['id']
                    n['props'] = {'p': n['id']}
            comps = [n for n in ids.values() if n['k'] in COMPOSITES and n.get('c')]
            if len(comps) > 1 and rng.random() < 0.2:
                a, b = rng.sample(comps, 2)
                leafs = [c for c in a['c'] if not c.get('c')]
                if leafs:
                    b['c'].append(rng.choice(leafs))   # one node object under two parents

    def genop(self, rng, scn):
        x = rng.random()
        if x < 0.2:
            return {'op': 'reload', 't': 0, 'in_place': rng.random() < 0.3}
        if x < 0.23:
            return {'op': 'dump', 't': 0}
        if x < 0.26:
            return {'op': 'newboard', 't': 0}
        return BCheck.genop(self, rng, scn)

    def run(self, scn, out):
        # uninterrupted history
        base = self.hist(scn, False, out)
        if out.viol or out.inconclusive:
            return
        got = self.hist(scn, True, out)
        if out.viol:
            return
        d = first_diff(got, base)
        if d:
            out.violate('restart changes behaviour', 'event %d is %r after a dump/load restart and %r without it'
                        % (d[0], d[1], d[2]))

    def hist(self, scn, restart, out):
        real = Real(scn)
        hist = []
        dead = set()
        for k, op in enumerate(scn['ops']):
            if op['op'] == 'adv':
                real.clock.advance(op['dt'])
            elif op['op'] == 'newboard':
                real.boards[0] = b3.Blackboard()
                real.leafcount.clear()
                out.stats['fault:blackboard lost'] += 1
            elif op['op'] == 'dump':
                if restart:             # looking at a tree does not change it
                    out.stats['probe:dump without restart'] += 1
                    try:
                        real.trees[op['t']].dump()
                    except Exception as e:
                        out.violate('dump/load failed', 'op %d: %s: %s' % (k, type(e).__name__, e))
                        return hist
            elif op['op'] == 'reload':
                if restart:
                    out.stats['fault:restart from dump'] += 1
                    try:
                        data, txt, txt2 = real.reload(op['t'], op.get('in_place'))
                    except Exception as e:
                        out.violate('dump/load failed', 'op %d: %s: %s' % (k, type(e).__name__, e))
                        return hist
                    if txt != txt2:
                        out.violate('dump not preserved', 'op %d: dump of the reloaded tree differs: %s / %s'
                                    % (k, txt[:300], txt2[:300]))
                        return hist
                    spec = scn['trees'][op['t']]
                    self.compare_dump(spec, data, out, k)
                    if out.viol:
                        return hist
            else:
                st, how = self.do_tick(real, op, out, dead)
                if how != 'ok':
                    return hist
                hist.extend(real.ev)
                hist.append(('status', st))
                if restart:
                    for e in real.ev:
                        out.ev(*e)
                    out.states.add(h8((shape(scn['trees'][op['t']]['root']), k, st, len(real.ev))))
        out.simtime = real.clock.total
        return hist

    def compare_dump(self, spec, data, out, k):
        ids = {}
        index_nodes(spec['root'], ids)
        nodes = data.get('nodes', {})
        custom = sorted({{'Script': 'ScriptLeaf', 'Cond': 'ScriptCond'}[n['k']] for n in ids.values()
                         if n['k'] in ('Script', 'Cond')})
        if sorted(c.get('name') for c in data.get('custom_nodes', [])) != custom:
            out.violate('dump incomplete', 'op %d: custom nodes %r, the tree has %r' % (k, data.get('custom_nodes'), custom))
            return
        if set(n for n in nodes) != set(ids) or data.get('root') != spec['root']['id']:
            out.violate('dump incomplete', 'op %d: dumped nodes %s, tree has %s' % (k, sorted(nodes), sorted(ids)))
            return
        for key in ('title', 'description', 'properties'):
            want = {'title': spec.get('title'), 'description': spec.get('desc'), 'properties': spec.get('props')}[key]
            if want and data.get(key) != want:
                out.violate('dump incomplete', 'op %d: tree %s is %r, should be %r' % (k, key, data.get(key), want))
        for nid, n in ids.items():
            d = nodes[nid]
            if n.get('title') and (d.get('title'), d.get('description'), d.get('properties')) != \
                    (n['title'], n['desc'], n['props']):
                out.violate('dump incomplete', 'op %d: node %s lost its title/description/properties: %r' % (k, nid, d))


class B07(BCheck):
    pid = 'B07'
    stats = True
    kinds = COMPOSITES + ('Inverter', 'Repeater', 'Limiter', 'RepeatUntilSuccess')
    leafkinds = ('Script', 'Script', 'Script', 'Cond', 'Succeeder', 'Failer')
    ntrees = (1, 2)
    nboards = (1, 2)
    rule = ('trees with per-leaf costs and sensed states, several blackboards, result logging on/off; after every '
            'tick all counters, costs, the accumulated total cost, success probabilities, utilities and the result '
            'log are compared with counts taken from the observed history')

    def decorate(self, scn, rng):
        for t in scn['trees']:
            t['log'] = rng.choice([0, 1, 2])

    def genop(self, rng, scn):
        if rng.random() < 0.06:
            return {'op': 'preset', 't': rng.randrange(len(scn['trees']))}
        return BCheck.genop(self, rng, scn)

    def run(self, scn, out):
        tickcount = {}

        def check(real, model, k, op, st, mst, how):
            if how != 'ok':
                return False
            d = first_diff(visits(real.ev), visits(model.ev))
            if d:
                # another property's business: stop, counters can no longer be predicted
                out.inconclusive = None
                return False
            tickcount[op['t']] = tickcount.get(op['t'], 0) + 1
            tr = real.trees[op['t']]
            if tr.tick_count != tickcount[op['t']]:
                out.violate('tick count', 'op %d: tree counted %r ticks, it got %d' % (k, tr.tick_count, tickcount[op['t']]))
                return False
            n = sum(1 for e in real.ev if e[0] == 'tick')
            nc = real.boards[op['b']].get('node_count', tr.id)
            if nc != n:
                out.violate('node count', 'op %d: node_count %r, nodes visited %d' % (k, nc, n))
                return False
            return self.counters(scn, real, model, k, out)

        def other(real, model, k, op, st):
            if op['op'] != 'preset':
                return
            ids = {}
            index_nodes(scn['trees'][op['t']]['root'], ids)
            for nid in ids:
                real.objs[nid].p_reset()
                for dct in (model.N_all, model.N_succ, model.Nt):
                    dct[nid] = 0
                model.N_suc2[nid] = [0, 0, 0, 0]
                model.Nt2[nid] = [0, 0, 0, 0]
            out.stats['probe:counters reset'] += 1
            return self.counters(scn, real, model, k, out)
        self.lockstep(scn, out, check, other)

    def counters(self, scn, real, model, k, out):
        for nid, o in real.objs.items():
            spec = model.nodes[nid]
            want_cost = model.cost.get(nid, spec.get('cost', 0))
            got = (o.N_ticks_all, o.N_success, [int(x) for x in o.N_suc2], o.Cost)
            want = (model.N_all.get(nid, 0), model.N_succ.get(nid, 0), model.N_suc2.get(nid, [0, 0, 0, 0]), want_cost)
            if got != want:
                out.violate('counters', 'op %d: node %s (%s) has (ticks, successes, successes by state, cost) = %r, '
                            'history says %r' % (k, nid, spec['k'], got, want))
                return False
            if spec['k'] in ('Script', 'Cond') and o.N_ticks:
                p = float(model.N_succ.get(nid, 0)) / model.Nt[nid]
                st = model.state.get(nid, 0)
                nt = model.Nt2[nid][st]
                ps = float(model.N_suc2.get(nid, [0] * 4)[st]) / nt if nt else 0.5
                for mode, x, y in (('NEG_COST', -p * want_cost, -ps * want_cost),
                                   ('RATIO', p / (want_cost or 1), ps / (want_cost or 1))):
                    o.Utility_Mode = mode
                    g = (o.get_Utility(), o.get_Utility2())
                    if abs(g[0] - x) > 1e-12 or abs(g[1] - y) > 1e-12 or o.Utility != g[1]:
                        out.violate('utility', 'op %d: %s utilities (over all, in this state) in mode %s are %r, history '
                                    'says %r' % (k, nid, mode, g, (x, y)))
                        return False
                if abs(o.prob() - p) > 1e-12 or not 0 <= o.prob() <= 1:
                    out.violate('probability', 'op %d: %s prob() = %r, history says %r' % (k, nid, o.prob(), p))
                    return False
                ps = o.prob_state()
                for j in range(4):
                    nt = model.Nt2[nid][j]
                    w = float(model.N_suc2.get(nid, [0] * 4)[j]) / nt if nt else 0.5
                    if abs(ps[j] - w) > 1e-12:
                        out.violate('probability', 'op %d: %s prob_state()[%d] = %r, history says %r' % (k, nid, j, ps[j], w))
                        return False
        for b, bb in enumerate(real.boards):
            if bb.get('TotalCost') != model.total.get(b, 0):
                out.violate('total cost', 'op %d: board %d TotalCost %r, sum of node costs %r'
                            % (k, b, bb.get('TotalCost'), model.total.get(b, 0)))
                return False
        log = ''.join(real.log)
        want = ''.join(x + '\n' for x in model.log)
        if log != want:
            out.violate('result log', 'op %d: log %r, history says %r' % (k, log[-200:], want[-200:]))
            return False


CHECKS = {c.pid: c for c in (B01, B02, B03, B04, B05, B06, B07)}
