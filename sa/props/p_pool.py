"""C07: the connection pool of the SQL layer keeps its locks balanced.

Typestate of the connection in hand: where it is (which pool table, in hand
only, closed), how far the locks and the count were moved, on every path of the
functions that use the pool tables."""
from ..frontend import walk, link
from ..interp import Client, Interp, State, av, TOP, NONE, TRUTHY, FALSY, TRUE, FALSE, ANY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result
from . import p_locks

MOD = 'pyslet.odata2.sqlds'
TABLES = {'cPoolLocked': 'locked', 'cPoolUnlocked': 'unlocked', 'cPoolDead': 'dead'}
CONN = ('o', 'conn')


class F(object):
    """named fields of the abstract state"""
    names = ('ml', 'll', 'cnt', 'loc', 'zero', 'mine', 'room', 'pending', 'dbc', 'at', 'shut', 'dup')
    init = (0, 0, 0, None, None, None, False, frozenset(), False, None, False, None)

    @staticmethod
    def get(st, n):
        return st.facts[F.names.index(n)]

    @staticmethod
    def put(st, **kw):
        fs = list(st.facts)
        if kw.pop('step', False):
            kw['pending'] = frozenset()
        for k, v in kw.items():
            fs[F.names.index(k)] = v
        return State(tuple(fs), st.env)


class Pool(Client):
    init_facts = F.init
    max_states = 300

    def __init__(self, prog, box):
        self.prog = prog
        self.box = box                              # the container class
        self.m = prog.module(MOD)
        self.Lock = prog.cls(MOD, 'SQLConnectionLock')
        self.events = 0

    def relevant(self, ip, func):
        return func.cls is not None and func.cls in self.box.mro and func.name not in ('__init__', 'OpenConnection', 'BreakConnection')

    def opaque_raises(self, ip, fr, st, node, callee):
        if node.t == 'Call' and node.func.t == 'Attribute' and node.func.attr == 'OpenConnection':
            return (ANY,)
        return ()

    def truthiness(self, a):
        if a[0] == 'o':
            return None if a[1] in ('tab', 'count') else True
        return truth(a)

    # ---------------------------------------------------------------- values
    def attr_load(self, ip, fr, st, node, base, path):
        n = node.attr
        if n in TABLES:
            return [(st, av(('o', 'tab', TABLES[n])))]
        if n == 'moduleLock':
            return [(st, av(('o', 'module')))]
        if n == 'cPoolLock':
            return [(st, av(('o', 'pool')))]
        if CONN in base:
            if n == 'lock':
                return [(st, av(('o', 'lock')))]
            if n == 'dbc':
                return [(st, av(('o', 'dbc')))]
            if n == 'locked':
                return [(st, av(('o', 'count')))]
            return [(st, TOP)]
        return None

    def kind(self, v, k):
        for a in v:
            if a[0] == 'o' and a[1] == k:
                return a
        return None

    def take(self, ip, fr, st, node, loc):
        """a connection comes to hand; the one before must not be lost"""
        self.check_lost(ip, fr, st, node)
        self.check_twice(ip, fr, st, node)
        return F.put(st, loc=loc, zero=None, mine=None, ll=0, cnt=0, dbc=loc != 'new', shut=False, dup=None)

    def check_lost(self, ip, fr, st, node):
        if F.get(st, 'loc') == 'hand':
            ip.report(fr, node, 'lost', 'a connection taken out of the pool is neither put back nor closed', key='lost')

    def check_twice(self, ip, fr, st, node):
        if F.get(st, 'dup'):
            ip.report(fr, node, 'twice', 'a connection put back is still in the table of the %s ones' % F.get(st, 'dup'), key='twice')

    def attr_store(self, ip, fr, st, node, base, path, value):
        if CONN in base:
            if node.attr == 'dbc':
                return F.put(st, dbc=True, shut=False, loc='hand' if F.get(st, 'loc') in ('new', 'closed') else F.get(st, 'loc'))
            if node.attr == 'locked':
                u = node.up
                while u is not None and u.t not in ('Assign', 'AugAssign'):
                    u = u.up
                d = 0
                if u is not None and u.t == 'AugAssign':
                    d = 1 if u.op == 'Add' else -1
                elif u is not None and u.value.t == 'BinOp' and u.value.op in ('Add', 'Sub'):
                    d = 1 if u.value.op == 'Add' else -1
                return F.put(st, cnt=F.get(st, 'cnt') + d, zero=None)
        return st

    def subscript_load(self, ip, fr, st, node, base, index):
        a = self.kind(base, 'tab')
        if a:
            i = self.kind(index, 'idx')
            if i and F.get(st, 'at') == i and F.get(st, 'loc') == a[2]:
                return [(st, av(CONN))]         # the same one again
            return [(F.put(self.take(ip, fr, st, node, a[2]), at=i), av(CONN))]
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        a = self.kind(base, 'tab')
        if not a:
            return st
        self.events += 1
        if value is None:
            return self.out(ip, fr, st, node, a[2])
        loc = F.get(st, 'loc')
        return F.put(st, loc=a[2], step=True, dup=loc if loc in TABLES.values() and loc != a[2] else F.get(st, 'dup'))

    def out(self, ip, fr, st, node, table):
        loc = F.get(st, 'loc')
        if F.get(st, 'dup') == table:
            return F.put(st, step=True, room=True, dup=None)
        return F.put(st, loc='hand' if loc == table else loc, step=True, room=True)

    def for_element(self, ip, fr, st, node, itv):
        i = self.kind(itv, 'range')
        node._tab = None
        if i:
            return av(('o', 'idx', node.lineno))
        a = self.kind(itv, 'tab')
        if a is None:
            return None
        node._tab = a[2]
        c = av(CONN)
        if len(a) > 3 and a[3] == 'enum':
            return av(('tup', (av(('o', 'idx', node.lineno)), c)))
        if len(a) > 3 and a[3] == 'items':
            return av(('tup', (av(('o', 'idx', node.lineno)), c)))
        if len(a) > 3 and a[3] == 'values' or a[2] == 'dead':
            return c
        return av(('o', 'idx', node.lineno))

    def loop_head(self, ip, fr, st, node):
        if node.t == 'While':
            return F.put(st, pending=F.get(st, 'pending') | set([node.lineno]))
        return st

    def loop_back(self, ip, fr, st, node):
        if node.t == 'While' and node.lineno in F.get(st, 'pending'):
            ip.report(fr, node, 'progress', 'goes round without waiting and without changing the pool', key='progress')
            return None
        return st

    def stmt(self, ip, fr, st, node):
        u = node.up
        if u is not None and u.t == 'For' and u.body[0] is node and getattr(u, '_tab', None):
            return F.put(st, loc=u._tab, zero=None, mine=None, shut=False, at=('o', 'idx', u.lineno))
        return st

    # ---------------------------------------------------------------- calls
    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if callee is not None and callee[0] == 'class' and callee[1] is self.Lock:
            return [(self.take(ip, fr, st, node, 'new'), av(CONN))]
        if f.t == 'Name' and f.id in ('list', 'tuple', 'len', 'range', 'xrange', 'enumerate') and args and self.kind(args[0], 'tab'):
            if f.id == 'enumerate':
                return [(st, av(('o', 'tab', self.kind(args[0], 'tab')[2], 'enum')))]
            if f.id == 'len':
                return [(st, av(('o', 'len', self.kind(args[0], 'tab')[2])))]
            return [(st, args[0])]
        if f.t == 'Name' and f.id in ('range', 'xrange') and args and self.kind(args[-1], 'len'):
            return [(st, av(('o', 'range')))]
        if f.t != 'Attribute':
            return None
        n = f.attr
        if n in ('OpenConnection',):
            if not F.get(st, 'room'):
                ip.report(fr, node, 'limit', 'opens a connection without knowing that there is room in the pool', key='limit')
            return None
        for s, b in ip.ev(f.value, st, fr)[:1]:
            for lk, fld in (('module', 'ml'), ('lock', 'll')):
                if self.kind(b, lk):
                    self.events += 1
                    d = F.get(st, fld)
                    if n == 'acquire':
                        yes = F.put(st, **{fld: d + 1})
                        if node.args or node.keywords:
                            return [(yes, av(TRUE)), (st, av(FALSE))]
                        return [(yes, av(TRUE))]
                    if n == 'release':
                        return [(F.put(st, **{fld: d - 1}), av(NONE))]
            if self.kind(b, 'pool'):
                if n == 'wait':
                    if F.get(st, 'loc') in ('hand', 'left'):
                        ip.report(fr, node, 'wait', 'waits for other threads while a connection is in no table, so its thread can '
                                                    'not give it back', key='wait')
                    self.check_twice(ip, fr, st, node)
                    return [(F.put(st, step=True, room=False), TOP)]
                if n in ('notify', 'notifyAll', 'notify_all'):
                    return [(st, av(NONE))]
            a = self.kind(b, 'tab')
            if a:
                t = a[2]
                if n in ('values', 'itervalues'):
                    return [(st, av(('o', 'tab', t, 'values')))]
                if n in ('items', 'iteritems'):
                    return [(st, av(('o', 'tab', t, 'items')))]
                if n in ('keys', 'iterkeys'):
                    return [(st, av(('o', 'tab', t)))]
                self.events += 1
                if n == 'popitem':
                    s2 = self.take(ip, fr, F.put(st, step=True), node, t)
                    return [(self.out(ip, fr, s2, node, t), av(('tup', (TOP, av(CONN)))))]
                if n == 'pop':
                    used = node.up is not None and node.up.t != 'Expr'
                    if not used:
                        return [(self.forget(st, t), TOP)]
                    s2 = self.take(ip, fr, F.put(st, step=True), node, t)
                    s2 = self.out(ip, fr, s2, node, t)
                    if len(node.args) > 1:
                        return [(s2, av(CONN)), (st, av(NONE))]
                    return [(s2, av(CONN))]
                if n == 'get':
                    return [(self.take(ip, fr, st, node, t), av(CONN)), (st, av(NONE))]
                if n == 'append':
                    return [(F.put(st, loc=t, step=True), av(NONE))]
                if n == 'remove':
                    return [(self.forget(st, t), av(NONE))]
                return [(st, TOP)]
            if self.kind(b, 'dbc') and n == 'close':
                self.events += 1
                return [(F.put(st, shut=True, loc='closed' if F.get(st, 'loc') in ('hand', 'left', 'new') else F.get(st, 'loc')), av(NONE))]
        return None

    def forget(self, st, t):
        """taken out of a table by key: the connection in hand if that is where it is (or may be by now)"""
        loc = F.get(st, 'loc')
        if F.get(st, 'dup') == t:
            return F.put(st, step=True, dup=None)
        if loc == t or loc in ('locked', 'unlocked') and t in ('locked', 'unlocked'):
            return F.put(st, loc='left', step=True, room=True)
        return F.put(st, step=True)

    # ---------------------------------------------------------------- tests
    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            names = set(n.attr for n in walk(test) if n.t == 'Attribute')
            if 'cPoolMax' in names and set(['cPoolLocked', 'cPoolUnlocked']) <= names:
                op = test.ops[0]
                left = any(n.t == 'Attribute' and n.attr == 'cPoolMax' for n in walk(test.left))
                less = op == 'Lt' and not left and sense or op == 'GtE' and not left and not sense or \
                    op == 'Gt' and left and sense or op == 'LtE' and left and not sense
                return [F.put(st, room=True)] if less else None
            op, l, r = test.ops[0], test.left, test.comparators[0]
            lv, rv = ip.ev(l, st, fr)[0][1], ip.ev(r, st, fr)[0][1]
            if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (self.kind(lv, 'dbc') or self.kind(rv, 'dbc')):
                same = sense == (op in ('Is', 'Eq'))
                return [F.put(st, mine=same)]
            if self.kind(lv, 'count') and r.t == 'Num' and r.n == 0:
                z = {'Eq': True, 'NotEq': False, 'Gt': False, 'LtE': True}.get(op)
                if z is not None:
                    return [F.put(st, zero=z == sense)]
            a = self.kind(rv, 'tab')
            if op in ('In', 'NotIn') and a and CONN in lv:
                inside = sense == (op == 'In')
                if not inside and F.get(st, 'loc') == a[2]:
                    return [F.put(st, loc='closed')]        # the other thread has closed it
            return None
        if test.t in ('Name', 'Attribute'):
            v = ip.ev(test, st, fr)[0][1]
            if self.kind(v, 'count'):
                return [F.put(st, zero=not sense)]
        return None


def describe(st):
    return dict(zip(F.names, st.facts))


class Holder(Client):
    """callers: what AcquireConnection gave is given back on every way out.
    facts: None, 'held', 'kept' (stored in the object), 'released'"""
    init_facts = None

    def __init__(self, prog):
        self.prog = prog
        self.m = prog.module(MOD)
        self.acquires = 0

    def relevant(self, ip, func):
        return func.module is self.m and (func.name in ('close', '__init__') and func.cls is not None) and not func.is_generator

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'AcquireConnection':
            self.acquires += 1
            got = State('held', st.env)
            return [(got, av(('o', 'dbc'))), (st, av(NONE))]
        if f.t == 'Attribute' and f.attr == 'ReleaseConnection':
            return [(State('released', st.env), av(NONE))]
        return None

    def truthiness(self, a):
        return True if a[0] == 'o' else truth(a)

    def opaque_raises(self, ip, fr, st, node, callee):
        # giving things back is taken to work
        if node.t == 'Call' and node.func.t == 'Attribute' and node.func.attr in ('Close', 'close', 'release'):
            return ()
        return (ANY,)

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def attr_store(self, ip, fr, st, node, base, path, value):
        if any(a == ('o', 'dbc') for a in value) and st.facts == 'held':
            return State('kept', st.env)
        return st


def analyse(prog, pid, tier):
    r = Result()
    m = prog.module(MOD)
    link(m.tree)
    box = prog.cls(MOD, 'SQLEntityContainer')
    n = ev = paths = 0

    def add(rule, f, text, what=''):
        r.add('%s|%s|%s' % (rule, f.qname, what), '%s:%d %s: %s %s' % (f.module.rel, f.node.lineno, rule, f.short, text))
    users = {}
    for name in ('AcquireConnection', 'ReleaseConnection', 'close'):
        f = box.find(name)
        if f is None:
            raise AnalysisBroken('%s is gone' % name)
        cl = Pool(prog, box)
        ip = Interp(prog, cl)
        out = ip.run(f, cls=box)
        n += 1
        ev += cl.events
        for (rule, q, what), text in ip.reports.items():
            r.add('%s|%s|%s' % (rule, q, what), text)
        ends = [(st, v, False) for st, v, nd in out.ret] + [(x[0], None, True) for x in out.exc]
        for st, v, exc in ends:
            paths += 1
            d = describe(st)
            if d['dup']:
                add('twice', f, 'leaves a connection in the table of the %s ones and in that of the %s ones' % (d['dup'], d['loc']), 'dup')
            if name == 'AcquireConnection':
                gives = v is not None and any(a == ('o', 'dbc') for a in v)
                if gives:
                    if d['ml'] != 1:
                        add('balance', f, 'returns a connection with the module lock acquired %d times' % d['ml'], 'ml')
                    if d['ll'] != 1 or d['cnt'] != 1:
                        add('balance', f, 'returns a connection whose lock was acquired %d times and whose count was raised by %d'
                            % (d['ll'], d['cnt']), 'll')
                    if d['loc'] != 'locked' or not d['dbc']:
                        add('table', f, 'returns a connection that is not in the table of connections in use', 'loc')
                else:
                    if d['ml'] != 0:
                        add('balance', f, '%s with the module lock acquired %d times' % (
                            'fails' if exc else 'returns no connection', d['ml']), 'ml-exc' if exc else 'ml-none')
                    if d['ll'] != 0 or d['cnt'] != 0:
                        add('balance', f, 'gives no connection but leaves one locked', 'll-none')
                    if d['loc'] == 'hand':
                        add('lost', f, 'loses a connection', 'lost')
            elif name == 'ReleaseConnection':
                found = d['mine'] is True
                if found:
                    if d['ml'] != -1:
                        add('balance', f, 'takes back a connection and releases the module lock %d times' % -d['ml'], 'ml')
                    if d['ll'] != -1 or d['cnt'] != -1:
                        add('balance', f, 'takes back a connection, releases its lock %d times and lowers its count by %d' % (
                            -d['ll'], -d['cnt']), 'll')
                    if d['zero'] is None:
                        add('table', f, 'takes back a connection without looking whether it is still in use', 'zero')
                    if d['zero'] is True and d['loc'] != 'unlocked' and not (d['shut'] and d['loc'] not in ('locked', 'dead')):
                        add('table', f, 'leaves a connection nobody uses in the %s table' % d['loc'], 'loc')
                    if d['zero'] is False and d['loc'] not in ('locked', 'dead'):
                        add('table', f, 'frees a connection that is still in use', 'used')
                elif d['ml'] or d['ll'] or d['cnt']:
                    add('balance', f, 'releases a lock although the connection is not the one given', 'other')
            else:
                if exc:
                    continue
        if name == 'AcquireConnection' and not any(v is not None and any(a == ('o', 'dbc') for a in v) for st, v, e in ends):
            raise AnalysisBroken('no path of AcquireConnection returns a connection')
    # callers
    callers = 0
    for f in p_locks.all_functions(m):
        if not any(x.t == 'Attribute' and x.attr == 'AcquireConnection' for x in walk_own(f.node)):
            continue
        if f.cls is box:
            continue
        callers += 1
        cl = Holder(prog)
        ip = Interp(prog, cl)
        out = ip.run(f, cls=f.cls)
        for ret in out.ret:
            if ret[0].facts == 'held':
                add('caller', f, 'returns without giving its connection back', 'ret')
        for x in out.exc:
            if x[0].facts in ('held', 'kept'):
                add('caller', f, 'fails without giving its connection back', 'exc')
        kept = any(ret[0].facts == 'kept' for ret in out.ret)
        if kept:
            for c in sorted(f.cls.all_subclasses(), key=lambda c: c.qname):
                close = c.find('close')
                attrs = stored_attrs(f)
                cl = Holder(prog)
                ip = Interp(prog, cl)
                env = {}
                for a in attrs:
                    env['%s.%s' % (close.params[0], a)] = av(('o', 'dbc'))
                out = ip.run(close, cls=c, env=env, facts='kept')
                for x in list(out.ret):
                    if x[0].facts != 'released':
                        r.add('close|%s' % c.qname, '%s:%d close: closing a %s does not give its connection back' % (
                            close.module.rel, close.node.lineno, c.name))
    # the tables are used under the lock of the pool
    g = p_locks.Group(prog, MOD, ['SQLEntityContainer'], 'cPoolLock', fields=tuple(TABLES) + ('cPoolClosing',), infer=None)
    acc, nf, need, _ = p_locks.check(prog, g, r, [m], 'pool')
    r.floor('operations', n, 3)
    r.floor('events', ev, 20)
    r.floor('exits', paths, 8)
    r.floor('callers', callers, 2)
    r.floor('table_accesses', acc, 20)
    r.coverage['functions'] = nf
    r.files = ['pyslet/pyslet/odata2/sqlds.py']
    r.rules = ['balance', 'table', 'lost', 'twice', 'limit', 'wait', 'progress', 'caller', 'close', 'lock']
    r.samples = ['AcquireConnection', 'ReleaseConnection', 'close']
    r.explanation = ('The state of the connection in hand, of its lock and of the module lock was followed along every path of '
                     'the pool operations and compared at each exit; callers were checked for giving connections back.')
    return r


def stored_attrs(f):
    return set(n.attr for n in walk_own(f.node) if n.t == 'Attribute' and n.ctx == 'Store' and n.attr in ('dbc',)) or set(['dbc'])
