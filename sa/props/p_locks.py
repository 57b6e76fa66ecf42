"""C11, C22: shared state is used under its lock.

For each class with a lock the shared fields are worked out from the source
(what is changed after construction).  A path-sensitive pass over every
function finds the accesses and calls made while the lock is not held; a
function that needs the lock hands the obligation to its callers, and an
operation nobody calls must not need it."""
from ..frontend import walk, link
from ..interp import Client, Interp, State, av, TOP, NONE, TRUTHY, ANY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

MUTATORS = set(['append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault',
                'sort', 'reverse'])
LOCKS = ('Lock', 'RLock', 'Condition')


class Group(object):
    def __init__(self, prog, modname, classes, lock, fields=(), infer='all', foreign=False):
        self.prog = prog
        self.mod = prog.module(modname)
        self.classes = [prog.cls(modname, c) for c in classes]
        self.lock = lock
        self.foreign = foreign
        link(self.mod.tree)
        self.setup = setup_methods(prog, self.mod)
        fam = set()
        for c in self.classes:
            fam |= set(c.all_subclasses())
        self.family = fam
        self.fields = set(f for f in fields if any(f in stored(c) for c in self.classes))
        if infer:
            setup = self.setup
            for c in self.classes:
                self.fields |= changed(c, setup)
        self.fields.discard(lock)

    def is_lock(self, path):
        return path is not None and path.split('.')[-1] == self.lock


def stored(c):
    return set(n.attr for f in c.methods.values() for n in walk_own(f.node)
               if n.t == 'Attribute' and n.ctx == 'Store' and n.value.t == 'Name' and f.params and n.value.id == f.params[0])


def setup_methods(prog, mod):
    """functions used by constructors only"""
    men = mentions(prog, [mod])
    setup = set()
    ch = True
    while ch:
        ch = False
        for f in all_functions(mod):
            if f in setup or f.name.startswith('__'):
                continue
            by = [h for h, _ in men.get(f.name, ()) if h is not f]
            if by and all(h.name == '__init__' or h in setup for h in by):
                setup.add(f)
                ch = True
    return setup


def changed(c, setup=()):
    """attributes of self changed after construction"""
    out = set()
    for f in c.methods.values():
        if f.name == '__init__' or not f.params or f in setup:
            continue
        me = f.params[0]

        def mine(e):
            while e.t == 'Subscript':
                e = e.value
            return e.attr if e.t == 'Attribute' and e.value.t == 'Name' and e.value.id == me else None
        for n in walk_own(f.node):
            if n.t in ('Attribute', 'Subscript') and n.ctx in ('Store', 'Del', 'AugStore'):
                a = mine(n)
                if a:
                    out.add(a)
            elif n.t == 'AugAssign':
                a = mine(n.target)
                if a:
                    out.add(a)
            elif n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in MUTATORS:
                a = mine(n.func.value)
                if a:
                    out.add(a)
    return out & stored(c)


class Held(Client):
    """facts: how often the lock is held (0..3)"""
    init_facts = 0
    max_states = 24

    def __init__(self, group):
        self.g = group
        self.needs = []         # (node, what)
        self.calls = []         # (name, classes or None, node)
        self.accesses = 0

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def with_enter(self, ip, fr, st, node, ctx, path):
        if self.g.is_lock(path):
            return State(min(st.facts + 1, 3), st.env), TOP, True
        return st, TOP, None

    def with_exit(self, ip, fr, st, node, token):
        if token:
            return State(max(st.facts - 1, 0), st.env)
        return st

    def attr_load(self, ip, fr, st, node, base, path):
        self.access(ip, fr, st, node, base)
        if node.attr != self.g.lock and fr.depth == 0 and self.prog_method(node.attr):
            if st.facts == 0 and node.ctx == 'Load':
                cls = [a[1] for a in base if a[0] == 'inst'] if base and all(a[0] == 'inst' for a in base) else None
                self.calls.append((node.attr, cls, node))
        return None

    def prog_method(self, name):
        return name in self.g.method_names

    def attr_store(self, ip, fr, st, node, base, path, value):
        self.access(ip, fr, st, node, base)
        return st

    def access(self, ip, fr, st, node, base):
        if node.attr not in self.g.fields:
            return
        mine = any(a[0] == 'inst' and a[1] in self.g.family for a in base)
        if not mine:
            if not self.g.foreign:
                return
            if any(a[0] == 'inst' for a in base) or any(a[0] in ('mod', 'class') for a in base):
                return
        self.accesses += 1
        if st.facts == 0:
            self.needs.append((node, node.attr))

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr in ('acquire', 'release') and self.g.is_lock(ip.path(f.value)):
            d = 1 if f.attr == 'acquire' else -1
            return [(State(max(min(st.facts + d, 3), 0), st.env), av(('k', 'bool', True)))]
        return None


def functions(prog, mods):
    for m in mods:
        for f in all_functions(m):
            yield f


def all_functions(m):
    for f in m.funcs.values():
        yield f
    for c in m.classes.values():
        for f in c.methods.values():
            yield f


def check(prog, g, r, mods, tag):
    g.method_names = set()
    funcs = []
    for f in functions(prog, mods):
        funcs.append(f)
        g.method_names.add(f.name)
    for c in g.family:
        for n in c.methods:
            g.method_names.add(n)
    need = {}       # Func -> [(text)]
    calls = {}
    total = 0
    for f in funcs:
        if f.name == '__init__' and f.cls in g.family or f in g.setup:
            continue
        cl = Held(g)
        ip = Interp(prog, cl)
        ip.run(f)
        total += cl.accesses
        if cl.needs:
            n, what = cl.needs[0]
            need[f] = ['%s:%d %s is used here' % (f.module.rel, n.lineno, what)]
        calls[f] = cl.calls
    # every mention of a method counts as a call of it
    by_name = {}
    for f in funcs:
        by_name.setdefault(f.name, []).append(f)
    mentioned = mentions(prog, mods)
    work = list(need)
    while work:
        f = work.pop()
        for h, cs in calls.items():
            for name, cls, node in cs:
                if name != f.name or h in need:
                    continue
                if cls is not None and f.cls is not None and not any(f.cls in c.mro for c in cls):
                    continue
                need[h] = ['%s:%d calls %s' % (h.module.rel, node.lineno, f.short)] + need[f]
                work.append(h)
                break
    roots = 0
    for f in funcs:
        inner = sum(1 for h, name in mentioned.get(f.name, ()) if h is not f)
        called = inner > 0 and not (f.name.startswith('__') and f.name.endswith('__'))
        if not called:
            roots += 1
        if f in need and not called:
            r.add('%s|lock|%s' % (tag, f.qname), '%s:%d lock: %s without holding %s: %s' % (
                f.module.rel, f.node.lineno, f.short, g.lock, ', '.join(need[f])))
    return total, len(funcs), len(need), need


def mentions(prog, mods):
    out = {}
    for m in mods:
        for f in all_functions(m):
            for n in walk_own(f.node):
                if n.t == 'Attribute' and n.ctx == 'Load':
                    out.setdefault(n.attr, []).append((f, n.attr))
    return out


class Sections(Client):
    """facts: (held, guarded state touched in this hold, touched in an earlier hold)"""
    init_facts = (0, False, False)
    max_states = 32
    max_depth = 10

    def __init__(self, prog, g, coll):
        self.prog, self.g, self.coll = prog, g, coll
        self.funcs = {}
        for f in all_functions(g.mod):
            self.funcs.setdefault(f.name, []).append(f)
        # attributes that hold a function of the module
        self.alias = {}
        for n in walk(g.mod.tree):
            if n.t == 'Assign' and n.value.t == 'Attribute' and n.value.attr in self.funcs:
                for t in n.targets:
                    if t.t == 'Attribute':
                        self.alias.setdefault(t.attr, set()).add(n.value.attr)
        self.writes = self.sections = 0

    def relevant(self, ip, func):
        return func.module is self.g.mod and not func.is_generator and func.name != '__init__'

    def opaque_raises(self, ip, fr, st, node, callee):
        return (ANY,)

    def resolve_unknown(self, ip, fr, st, node, name):
        out = []
        for n in [name] + sorted(self.alias.get(name, ())):
            for f in self.funcs.get(n, ()):
                if not f.is_generator and f.name != '__init__' and not any(x is f for x in self.active(fr)):
                    out.append(f)
        return out

    def active(self, fr):
        while fr is not None:
            yield fr.func
            fr = fr.caller

    def with_enter(self, ip, fr, st, node, ctx, path):
        h, cur, early = st.facts
        if self.g.is_lock(path):
            return State((min(h + 1, 4), cur, early), st.env), TOP, True
        return st, TOP, None

    def with_exit(self, ip, fr, st, node, token):
        return self.release(st) if token else st

    def release(self, st):
        h, cur, early = st.facts
        h = max(h - 1, 0)
        if h == 0:
            if cur:
                self.sections += 1
            return State((0, False, early or cur), st.env)
        return State((h, cur, early), st.env)

    def touch(self, ip, fr, st, node, write):
        h, cur, early = st.facts
        if write:
            self.writes += 1
            if early:
                ip.report(fr, node, 'atomic', 'changes the data after the lock was released since it was last consulted (%s)'
                          % fr.trail(), key='late')
        if h == 0:
            return State((0, False, True), st.env)
        return State((h, True, early), st.env)

    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr in self.g.fields and not any(a[0] in ('mod', 'class') for a in base):
            if node.ctx == 'Load':
                s = self.touch(ip, fr, st, node, False)
                return [(s, TOP)]
        return None

    def attr_store(self, ip, fr, st, node, base, path, value):
        if node.attr in self.g.fields:
            return self.touch(ip, fr, st, node, True)
        return st

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if any(n.t == 'Attribute' and n.attr in self.g.fields for n in walk(node.value)):
            return self.touch(ip, fr, st, node, True)
        k = self.is_coll(base)
        if k is not None:
            f = k.find('__setitem__' if value is not None else '__delitem__')
            if f is not None and f.module is self.g.mod:
                return self.touch(ip, fr, st, node, True)
        if value is not None and self.collection_expr(node.value, base):
            return self.touch(ip, fr, st, node, False)
        if value is None and self.collection_expr(node.value, base):
            return self.touch(ip, fr, st, node, True)
        return st

    def is_coll(self, base):
        for a in base:
            if a[0] == 'inst' and a[1] in self.coll:
                return a[1]
        return None

    def collection_expr(self, e, base):
        return self.is_coll(base) is not None or (e.t == 'Attribute' and e.attr in ('collection',)) or \
            (e.t == 'Name' and e.id.lower().endswith('collection'))

    def subscript_load(self, ip, fr, st, node, base, index):
        if self.collection_expr(node.value, base):
            return [(self.touch(ip, fr, st, node, False), TOP)]
        return None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1 and test.ops[0] in ('In', 'NotIn'):
            c = test.comparators[0]
            for s, b in ip.ev(c, st, fr):
                if self.collection_expr(c, b):
                    return [self.touch(ip, fr, st, test, False)]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute':
            if f.attr in ('acquire', 'release') and self.g.is_lock(ip.path(f.value)):
                if f.attr == 'release':
                    return [(self.release(st), TOP)]
                h, cur, early = st.facts
                return [(State((min(h + 1, 4), cur, early), st.env), TOP)]
            if f.attr in MUTATORS and any(n.t == 'Attribute' and n.attr in self.g.fields for n in walk(f.value)):
                return [(self.touch(ip, fr, st, node, True), TOP)]
        return None


def atomic(prog, g, r, tag, modname, colls):
    coll = set()
    for c in colls:
        coll |= set(prog.cls(modname, c).all_subclasses())
    entries = writes = 0
    for c in sorted(coll, key=lambda c: c.qname):
        if c.module is not g.mod:
            continue
        for f in c.methods.values():
            if f.name.startswith('_') and not f.name.startswith('__') or f.name == '__init__':
                continue
            cl = Sections(prog, g, coll)
            ip = Interp(prog, cl)
            ip.run(f, cls=c)
            entries += 1
            writes += cl.writes
            for (rule, q, what), text in ip.reports.items():
                r.add('%s|%s|%s|%s' % (tag, rule, f.qname, q), '%s [operation %s]' % (text, f.short))
    return entries, writes


TABLES = {'cActiveThreadTargets': (1, 'active'), 'cActiveThreads': (2, 'active'),
          'cIdleList': (1, 'idle'), 'cIdleTargets': (2, 'idle')}
BLOCKING = set(['getaddrinfo', 'gethostbyname', 'connect', 'recv', 'send', 'sendall', 'wrap_socket', 'socketSelect', 'sleep'])


class Manager(Client):
    """facts: (held, frozenset of events of this hold, closing known to be false)

    events: 'T+' 'T-' for each table T, 'T0' the connection was found not to be in T,
    'notify', 'empty:T'"""
    init_facts = (0, frozenset(), False)
    max_states = 64

    def __init__(self, prog, g, blocking):
        self.prog, self.g, self.blocking = prog, g, blocking
        self.events = 0
        self.creations = 0

    def relevant(self, ip, func):
        return func.cls in self.g.family and func.name != '__init__'

    def opaque_raises(self, ip, fr, st, node, callee):
        return (ANY,) if in_try(node) else ()

    def subscript_raises(self, ip, fr, st, node):
        return (ANY,) if node.ctx == 'Load' and in_try(node) else ()

    def truthiness(self, a):
        if a[0] == 'o':
            return None
        return truth(a)

    def key_extra(self, st, fr):
        return tuple(sorted((k, v == av(TRUTHY)) for k, v in st.env.items() if k.endswith('List') and '.' not in k))

    def ev(self, st, *e):
        self.events += 1
        h, evs, c = st.facts
        return State((h, evs | set(e), c), st.env)

    def with_enter(self, ip, fr, st, node, ctx, path):
        h, e, c = st.facts
        if self.g.is_lock(path):
            return State((min(h + 1, 4), e if h else frozenset(), c), st.env), TOP, node
        return st, TOP, None

    def with_exit(self, ip, fr, st, node, token):
        if token is None:
            return st
        h, e, c = st.facts
        h -= 1
        if h <= 0:
            self.settle(ip, fr, token, e)
            return State((0, frozenset(), False), st.env)
        return State((h, e, c), st.env)

    def settle(self, ip, fr, node, e):
        for a, b in (('cActiveThreadTargets', 'cActiveThreads'), ('cIdleList', 'cIdleTargets')):
            for x, y in ((a, b), (b, a)):
                for sign in '+-':
                    if x + sign in e and y + sign not in e and not (sign == '-' and y + '0' in e):
                        ip.report(fr, node, 'pair', 'a connection is %s %s and not %s %s in the same step' % (
                            {'+': 'put into', '-': 'taken out of'}[sign], x, {'+': 'put into', '-': 'out of'}[sign], y),
                            key=x + sign)
        if 'cIdleList+' in e and 'cActiveThreadTargets-' not in e:
            ip.report(fr, node, 'pair', 'a connection becomes idle that was not active', key='idle')
        if 'cActiveThreadTargets+' in e and 'new' not in e and 'cIdleList-' not in e and 'cIdleList0' not in e:
            ip.report(fr, node, 'pair', 'a connection becomes active and stays idle', key='active')
        if 'cActiveThreadTargets-' in e and 'cActiveThreadTargets+' not in e and 'notify' not in e:
            ip.report(fr, node, 'notify', 'a connection stops being active and nobody waiting for one is told', key='notify')

    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr in TABLES and any(a[0] == 'inst' and a[1] in self.g.family for a in base):
            return [(st, av(('o', 'tab', node.attr, 0)))]
        return None

    def tabs(self, base):
        return [a for a in base if a[0] == 'o' and a[1] == 'tab']

    def subscript_load(self, ip, fr, st, node, base, index):
        for a in self.tabs(base):
            if a[3] + 1 < TABLES[a[2]][0]:
                return [(st, av(('o', 'tab', a[2], a[3] + 1)))]
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        for a in self.tabs(base):
            depth = TABLES[a[2]][0]
            if value is not None:
                return self.ev(st, a[2] + '+')
            return self.remove(ip, fr, st, node, a)
        return st

    def remove(self, ip, fr, st, node, a):
        depth = TABLES[a[2]][0]
        if a[3] + 1 == depth:
            return self.ev(st, a[2] + '-')
        if 'empty:' + a[2] not in st.facts[1]:
            ip.report(fr, node, 'pair', 'a group of connections is dropped from %s without being empty' % a[2], key='group' + a[2])
        return st

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1 and test.ops[0] in ('In', 'NotIn'):
            present = sense == (test.ops[0] == 'In')
            for s, b in ip.ev(test.comparators[0], st, fr):
                for a in self.tabs(b):
                    if not present:
                        return [self.ev(st, a[2] + '0')]
        if test.t in ('Subscript', 'Name') and not sense:
            for s, b in ip.ev(test, st, fr):
                for a in self.tabs(b):
                    if a[3] == 1:
                        return [self.ev(st, 'empty:' + a[2])]
        if test.t == 'Attribute' and test.attr == 'closing' and not sense:
            h, e, c = st.facts
            return [State((h, e, True if h else False), st.env)]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t != 'Attribute':
            if f.t == 'Name' and f.id == 'len':
                return None
            return None
        h, e, c = st.facts
        if self.g.is_lock(recv_path):
            if f.attr in ('notify', 'notifyAll', 'notify_all'):
                return [(self.ev(st, 'notify'), TOP)]
            if f.attr == 'wait':
                self.settle(ip, fr, node, e)
                return [(State((h, frozenset(), False), st.env), TOP)]
            if f.attr == 'acquire':
                return [(State((min(h + 1, 4), e if h else frozenset(), c), st.env), TOP)]
            if f.attr == 'release':
                s = self.with_exit(ip, fr, st, node, node)
                return [(s, TOP)]
        if f.attr == 'append' and f.value.t == 'Name':
            env = dict(st.env)
            env[f.value.id] = av(TRUTHY)
            return [(State(st.facts, env), av(NONE))]
        if h and f.attr in self.blocking and not (callee is not None and callee[0] == 'bound' and callee[1] not in self.blockfuncs):
            ip.report(fr, node, 'blocking', '%s may wait for the network while %s is held' % (f.attr, self.g.lock), key=f.attr)
        if f.attr in ('ConnectionClass', 'SecureConnectionClass'):
            self.creations += 1
            if not c:
                ip.report(fr, node, 'closing', 'a connection is created without checking, since the lock was last taken, '
                                               'that the manager is not closing', key='closing')
            return [(self.ev(st, 'new'), TOP)]
        for s, b in ip.ev(f.value, st, fr):
            for a in self.tabs(b):
                if f.attr == 'pop':
                    if len(node.args) < 2:
                        return [(self.remove(ip, fr, s, node, a), TOP)]
                    none = self.ev(s, a[2] + '0') if a[3] + 1 == TABLES[a[2]][0] else s
                    return [(self.remove(ip, fr, s, node, a), av(TRUTHY)), (none, av(NONE))]
                if f.attr == 'setdefault':
                    return [(s, av(('o', 'tab', a[2], a[3] + 1)) if a[3] + 1 < TABLES[a[2]][0] else TOP)]
                if f.attr == 'get' and a[3] + 1 < TABLES[a[2]][0]:
                    return [(s, av(('o', 'tab', a[2], a[3] + 1)))]
        return None


def in_try(n):
    """an exception of this expression is handled in the function it is in"""
    while n is not None and n.t not in ('FunctionDef', 'Lambda'):
        u = n.up
        if u is not None and u.t == 'TryExcept' and any(x is n for x in u.body):
            return True
        n = u
    return False


def may_block(prog, mod):
    """functions of the module that can wait for the network"""
    out = set()
    names = set(BLOCKING)
    ch = True
    while ch:
        ch = False
        for f in all_functions(mod):
            if f in out or f.name in ('Close', 'close', 'Finished', '__init__'):
                continue
            for n in walk_own(f.node):
                if n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in names:
                    out.add(f)
                    names.add(f.name)
                    ch = True
                    break
    return out, names


def manager(prog, g, r):
    funcs, names = may_block(prog, g.mod)
    n = ev = cr = 0
    for c in sorted(g.family, key=lambda c: c.qname):
        if c.module is not g.mod:
            continue
        for f in c.methods.values():
            if f.name == '__init__' or f.is_generator or is_helper(prog, g, f):
                continue
            cl = Manager(prog, g, names)
            cl.blockfuncs = funcs
            ip = Interp(prog, cl)
            ip.run(f, cls=c)
            n += 1
            ev += cl.events
            cr += cl.creations
            for (rule, q, what), text in ip.reports.items():
                r.add('manager|%s|%s|%s' % (rule, q, what), text)
    r.floor('manager_operations', n, 10)
    r.floor('table_events', ev, 20)
    r.floor('connections_created', cr, 2)


def is_helper(prog, g, f):
    """called by other operations of the class only: judged there, in their context"""
    if not f.name.startswith('_'):
        return False
    by = [h for h, _ in mentions(prog, [g.mod]).get(f.name, ()) if h is not f]
    return bool(by) and all(h.cls in g.family for h in by)


def analyse(prog, pid, tier):
    r = Result()
    if pid == 'C22':
        m = prog.module('pyslet.rfc2616')
        g = Group(prog, 'pyslet.rfc2616', ['HTTPRequestManager'], 'managerLock',
                  fields=('nextId', 'cActiveThreadTargets', 'cActiveThreads', 'cIdleTargets', 'cIdleList', 'closing', 'dnsCache',
                          'credentials'))
        h = Group(prog, 'pyslet.rfc2616', ['HTTPMessage'], 'lock', fields=('headers',), infer=None)
        tot = 0
        for tag, grp in (('manager', g), ('message', h)):
            n, k, need, _ = check(prog, grp, r, [m], tag)
            r.floor('accesses_%s' % tag, n, 15)
            r.floor('fields_%s' % tag, len(grp.fields), 1)
            r.coverage['functions'] = k
        manager(prog, g, r)
        r.files = ['pyslet/pyslet/rfc2616.py']
        r.samples = sorted(g.fields) + sorted(h.fields)
        r.rules = ['lock', 'pair', 'notify', 'closing', 'blocking']
    elif pid == 'C11':
        m = prog.module('pyslet.odata2.memds')
        g = Group(prog, 'pyslet.odata2.memds', ['InMemoryEntityStore', 'InMemoryAssociationIndex'], 'lock',
                  fields=('data', 'streams', '_deleting', 'nextKey', 'index', 'reverseIndex'), foreign=True)
        n, k, need, _ = check(prog, g, r, [m], 'memds')
        e, w = atomic(prog, g, r, 'memds', 'pyslet.odata2.memds', ['EntityCollection', 'NavigationCollection', 'Entity'])
        r.floor('accesses', n, 30)
        r.floor('operations', e, 15)
        r.floor('changes_reached', w, 15)
        r.coverage['functions'] = k
        r.files = ['pyslet/pyslet/odata2/memds.py']
        r.samples = sorted(g.fields)
        r.rules = ['lock', 'atomic']
    r.explanation = ('Each access of the shared fields was classified by whether the lock is held on the paths to it, and '
                     'functions that need it held were followed to their callers.')
    return r
