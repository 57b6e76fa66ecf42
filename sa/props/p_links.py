"""C12: the links of the in-memory store stay mirrored, join existing entities and respect multiplicities.

Every operation is executed over symbolic keys: what it does to the two
directions of an association, to the entity table and to the streams is
recorded as a set of effects, tests of membership, emptiness and multiplicity as
a set of facts."""
from ..frontend import walk, link
from ..interp import Client, Interp, State, av, TOP, NONE, TRUTHY, FALSY, TRUE, FALSE, BOOL, ANY, truth
from ..model import AnalysisBroken
from ..result import Result

MOD = 'pyslet.odata2.memds'
OPP = {'F': 'R', 'R': 'F'}
MULTS = frozenset(['ZeroToOne', 'One', 'Many'])
COPIES = ('list', 'tuple', 'set', 'sorted', 'frozenset', 'iter', 'reversed')


def sym(t):
    return av(('o', 'sym', t))


def term_of(v):
    if v is not None and len(v) == 1:
        a = next(iter(v))
        if a[0] == 'o' and a[1] == 'sym':
            return a[2]
    return None


def grp_of(v):
    t = term_of(v)
    return t if t is not None and t[0] == 'grp' else None


def mentions(x, t):
    return x == t or isinstance(x, tuple) and any(mentions(y, t) for y in x)


class Links(Client):
    init_facts = frozenset()
    max_states = 400
    max_depth = 10

    def __init__(self, prog, case=None):
        self.prog = prog
        self.m = prog.module(MOD)
        self.Index = prog.cls(MOD, 'InMemoryAssociationIndex')
        self.Store = prog.cls(MOD, 'InMemoryEntityStore')
        self.Coll = prog.cls(MOD, 'EntityCollection')
        self.Nav = prog.cls(MOD, 'NavigationCollection')
        self.case = case or {}
        self.effects = 0

    # ------------------------------------------------------------ what is entered
    def relevant(self, ip, func):
        return func.module is self.m and not func.is_generator and func.name != '__init__'

    def opaque_raises(self, ip, fr, st, node, callee):
        if node.t == 'Call' and node.func.t == 'Attribute' and node.func.attr == 'Key':
            return (ANY,)
        return ()

    def truthiness(self, a):
        if a[0] == 'o':
            return None
        return truth(a)

    def inst(self, c):
        return av(('inst', c))

    # ------------------------------------------------------------ values
    def attr_load(self, ip, fr, st, node, base, path):
        n = node.attr
        cls = [a[1] for a in base if a[0] == 'inst']
        if any(a[0] in ('mod', 'class') for a in base):
            return None
        if any(self.Nav in c.mro for c in cls) and n in self.case:
            return [(st, self.case[n])]
        if n in ('index', 'reverseIndex'):
            return [(st, av(('o', 'tab', 'F' if n == 'index' else 'R')))]
        if n in ('associations', 'reverseAssociations'):
            return [(st, av(('o', 'assoc', 'F' if n == 'associations' else 'R')))]
        if n in ('data', 'streams') and not (cls and not any(self.Store in c.mro for c in cls)):
            return [(st, av(('o', n)))]
        if n == 'entityStore' or n in ('fromEntityStore', 'toEntityStore'):
            return [(st, self.inst(self.Store))]
        if n == 'associationIndex':
            return [(st, self.inst(self.Index))]
        if n == 'collection':
            return [(st, self.inst(self.Coll))]
        if n in ('fromMultiplicity', 'toMultiplicity'):
            return [(st, sym(('mult', n[:-12])))]
        if n == 'key' and any(self.Nav in c.mro for c in cls):
            return [(st, sym(('own',)))]
        return None

    def kind(self, v, k):
        for a in v:
            if a[0] == 'o' and a[1] == k:
                return a
        return None

    def term(self, ip, v, node):
        t = term_of(v)
        if t is not None:
            return t
        p = ip.path(node)
        return ('n', p) if p else ('n', node.lineno, node.col)

    def is_coll(self, v, node=None):
        if any(a[0] == 'inst' and self.Coll in a[1].mro for a in v):
            return True
        return node is not None and node.t == 'Name' and node.id.lower().endswith('collection')

    def narrowed(self, node):
        """the collection the operation is called on, which shows only what passes its filter"""
        return node is not None and node.t == 'Name' and node.id == 'self'

    def ek(self, st, t):
        """the key of an entity: the key it was given, if it was given one"""
        for f in st.facts:
            if f[0] == 'setkey' and f[1] == t:
                return f[2]
        return ('keyof', t)

    # ------------------------------------------------------------ effects
    def add_fact(self, st, *fs):
        return State(st.facts | set(fs), st.env)

    def do_add(self, ip, fr, st, node, t, k, v):
        self.effects += 1
        if ('in', v, (t, k)) in st.facts:
            return st
        fs = set(f for f in st.facts if f != ('empty', (t, k)))
        fs.add(('add', t, k, v))
        if ('empty', (t, k)) in st.facts:
            fs.add(('was-empty', (t, k)))
        self.check_add(ip, fr, st, node, t, k, v)
        return State(frozenset(fs), st.env)

    def do_rem(self, ip, fr, st, node, t, k, v):
        self.effects += 1
        if ('empty', (t, k)) in st.facts:
            return st
        self.check_rem(ip, fr, st, node, t, k, v)
        return self.add_fact(st, ('rem', t, k, v))

    def do_del(self, ip, fr, st, node, t, k):
        self.effects += 1
        if ('empty', (t, k)) in st.facts:
            return st
        return self.add_fact(st, ('delgroup', t, k))

    def check_add(self, ip, fr, st, node, t, k, v):
        own = self.case.get('own')
        if own != t or k != ('own',):
            return
        q = self.root
        if ('present', v) not in st.facts:
            ip.report(fr, node, 'exists', '%s adds a link to an entity that is not known to exist in the target set' % q, key=q)
        if ('Many' not in self.mult(st, 'from') or len(self.mult(st, 'from')) > 1) and ('empty', (OPP[t], v)) not in st.facts and \
                ('was-empty', (OPP[t], v)) not in st.facts:
            ip.report(fr, node, 'from', '%s adds a link although the entity may be linked from another already, and only one is '
                                        'allowed' % q, key=q)

    def check_rem(self, ip, fr, st, node, t, k, v):
        if self.case.get('own') == t and 'One' in self.mult(st, 'from'):
            q = self.root
            ip.report(fr, node, 'required', '%s removes a link that the entity at the other end requires' % q, key=q)

    def mult(self, st, end):
        for f in st.facts:
            if f[0] == 'mult' and f[1] == end:
                return f[2]
        return MULTS

    # ------------------------------------------------------------ subscripts
    def load_group(self, ip, fr, st, node, t, k):
        g = (t, k)
        # the key may be absent: then there are no links
        if ('in', k, ('tab', t)) not in st.facts and not any(f[0] in ('add', 'rem', 'looped') for f in st.facts):
            ip.throw(fr, self.add_fact(st, ('empty', g)), ANY, node)
        return st

    def subscript_load(self, ip, fr, st, node, base, index):
        a = self.kind(base, 'tab')
        k = self.term(ip, index, node.slice.value) if node.slice.t == 'Index' else None
        if k is None:
            return None
        if a:
            st = self.load_group(ip, fr, st, node, a[2], k)
            return [(st, sym(('grp', a[2], k)))]
        if self.kind(base, 'assoc'):
            return [(st, self.inst(self.Index))]
        if self.kind(base, 'data') or self.is_coll(base, node.value):
            if ('present', k) not in st.facts:
                ip.throw(fr, st if self.narrowed(node.value) else self.add_fact(st, ('absent', k)), ANY, node)
            return [(self.add_fact(st, ('present', k)), TOP)]
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if node.slice.t != 'Index':
            return st
        k = self.term(ip, index, node.slice.value)
        a = self.kind(base, 'tab')
        if a:
            if value is None:
                return self.do_del(ip, fr, st, node, a[2], k)
            b = self.kind(value, 'newset')
            g = (a[2], k)
            if ('empty', g) not in st.facts and grp_of(value) != ('grp',) + g:
                st = self.do_del(ip, fr, st, node, a[2], k)
            if b:
                for e in b[2]:
                    st = self.do_add(ip, fr, st, node, a[2], k, e)
            return st
        if self.kind(base, 'data'):
            self.effects += 1
            if value is None:
                return self.add_fact(st, ('deldata', k), ('delitem', k))
            if 'entry' in self.case and fr.depth >= 0 and self.case['entry'] == 'collection':
                if ('present', k) not in st.facts and ('absent', k) not in st.facts:
                    ip.report(fr, node, 'replace', '%s stores an entity without knowing whether its key is taken' % self.root, key=self.root)
                elif ('absent', k) in st.facts and ('present', k) not in st.facts and ('constraints',) not in st.facts:
                    ip.report(fr, node, 'constraints', '%s stores a new entity before its required links were checked' % self.root, key=self.root)
            return st
        if self.kind(base, 'streams'):
            if value is None:
                return self.add_fact(st, ('delstream', k))
            return st
        if self.is_coll(base, node.value):
            if value is None:
                return self.add_fact(st, ('delitem', k))
            return self.add_fact(st, ('present', k))
        return st

    # ------------------------------------------------------------ calls
    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Name':
            if f.id in COPIES and len(args) == 1 and (grp_of(args[0]) or self.kind(args[0], 'assoc')):
                return [(st, args[0])]
            if f.id in ('set', 'frozenset') and (callee is None or callee[0] == 'ext'):
                els = ()
                if args:
                    d = node.args[0]
                    if d.t not in ('List', 'Tuple', 'Set'):
                        return None
                    els = tuple(self.term(ip, v, e) for e in d.elts for s, v in ip.ev(e, st, fr)[:1])
                return [(st, av(('o', 'newset', els)))]
            return None
        if f.t != 'Attribute':
            return None
        n = f.attr
        if n == 'CheckNavigationConstraints':
            return [(self.add_fact(st, ('constraints',)), TOP)]
        for s, b in ip.ev(f.value, st, fr)[:1]:
            g = grp_of(b)
            if g:
                t, k = g[1], g[2]
                x = self.term(ip, args[0], node.args[0]) if args else None
                if n in ('add', 'update'):
                    return [(self.do_add(ip, fr, st, node, t, k, x), av(NONE))]
                if n in ('remove', 'discard', 'difference_update', 'pop'):
                    return [(self.do_rem(ip, fr, st, node, t, k, x), av(NONE))]
                if n == 'clear':
                    return [(self.do_del(ip, fr, st, node, t, k), av(NONE))]
                if n in ('copy', '__iter__', 'union'):
                    return [(st, b)]
                return None
            a = self.kind(b, 'tab')
            if a:
                if n in ('get', 'setdefault', '__getitem__'):
                    k = self.term(ip, args[0], node.args[0])
                    return [(st, sym(('grp', a[2], k)))]
                if n == 'pop' and args:
                    k = self.term(ip, args[0], node.args[0])
                    return [(self.do_del(ip, fr, st, node, a[2], k), sym(('grp', a[2], k)))]
                if n in ('has_key',):
                    return None
            a = self.kind(b, 'assoc')
            if a:
                if n in ('values', 'itervalues', 'items', 'iteritems', 'copy'):
                    return [(st, av(('o', 'assoc', a[2], n.endswith('items'))))]
                if n == 'get':
                    return [(st, self.inst(self.Index) | av(NONE))]
            if self.kind(b, 'data') or self.kind(b, 'streams'):
                d = self.kind(b, 'data') is not None
                if n == 'pop' and args:
                    k = self.term(ip, args[0], node.args[0])
                    return [(self.add_fact(st, *((('deldata', k), ('delitem', k)) if d else (('delstream', k),))), TOP)]
                if n == 'get' and d and args:
                    k = self.term(ip, args[0], node.args[0])
                    return [(self.add_fact(st, ('present', k)), av(TRUTHY)), (self.add_fact(st, ('absent', k)), av(NONE))]
            if n == 'Key' and not args:
                t = self.term(ip, b, f.value)
                k = self.ek(st, t)
                if k[0] == 'keyof':
                    ip.throw(fr, st, 'KeyError', node)
                return [(st, sym(k))]
            if n == 'SetKey' and len(args) == 1:
                t = self.term(ip, b, f.value)
                return [(self.add_fact(st, ('setkey', t, self.term(ip, args[0], node.args[0]))), av(NONE))]
            if n == 'NextKey':
                return [(st, sym(('next', node.lineno)))]
            if n == 'UpdateBindings':
                return [(st, av(NONE))]
        return None

    def resolve_unknown(self, ip, fr, st, node, name):
        out = [c.methods[name] for c in (self.Index, self.Store) if name in c.methods]
        return out if len(out) == 1 and not any(x is out[0] for x in active(fr)) else []

    # ------------------------------------------------------------ tests
    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            lv = ip.ev(l, st, fr)[0][1]
            rv = ip.ev(r, st, fr)[0][1]
            if op in ('In', 'NotIn'):
                yes = sense == (op == 'In')
                x = self.term(ip, lv, l)
                g = grp_of(rv)
                if g:
                    f = (g[1], g[2])
                    if yes and (('empty', f) in st.facts or ('notin', x, f) in st.facts):
                        return []
                    if not yes and ('in', x, f) in st.facts:
                        return []
                    return [self.add_fact(st, ('in' if yes else 'notin', x, f))]
                a = self.kind(rv, 'tab')
                if a:
                    return [self.add_fact(st, ('in', x, ('tab', a[2])) if yes else ('empty', (a[2], x)))]
                if self.kind(rv, 'data') or self.is_coll(rv, r):
                    if yes and ('absent', x) in st.facts or not yes and ('present', x) in st.facts:
                        return []
                    if not yes and self.narrowed(r):
                        # it may only have been filtered out
                        return [st]
                    return [self.add_fact(st, ('present' if yes else 'absent', x))]
                if self.kind(rv, 'streams') and not yes:
                    return [self.add_fact(st, ('delstream', x))]
                t = term_of(lv)
                if t and t[0] == 'mult' and r.t in ('Tuple', 'List', 'Set'):
                    ms = frozenset(m for m in (mult_name(e) for e in r.elts) if m)
                    return self.set_mult(st, t[1], ms if yes else MULTS - ms)
                return None
            if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
                same = sense == (op in ('Eq', 'Is'))
                for v, e in ((lv, r), (rv, l)):
                    t = term_of(v)
                    if t and t[0] == 'mult':
                        m = mult_name(e)
                        if m:
                            return self.set_mult(st, t[1], frozenset([m]) if same else MULTS - set([m]))
                g = None
                for e, o in ((l, r), (r, l)):
                    if e.t == 'Call' and e.func.t == 'Name' and e.func.id == 'len' and len(e.args) == 1:
                        g = grp_of(ip.ev(e.args[0], st, fr)[0][1])
                        if g and o.t == 'Num' and o.n == 0 and same:
                            return [self.add_fact(st, ('empty', (g[1], g[2])))]
                a, b = term_of(lv), term_of(rv)
                if a and b and a[0] != 'grp':
                    return [self.add_fact(st, ('eq' if same else 'ne', a, b), ('eq' if same else 'ne', b, a))]
                return None
            if op in ('Gt', 'Lt', 'GtE', 'LtE') and not sense:
                for e in (l, r):
                    if e.t == 'Call' and e.func.t == 'Name' and e.func.id == 'len':
                        g = grp_of(ip.ev(e.args[0], st, fr)[0][1])
                        o = r if e is l else l
                        if g and o.t == 'Num' and o.n == 0:
                            return [self.add_fact(st, ('empty', (g[1], g[2])))]
            return None
        e = test
        if e.t == 'Call' and e.func.t == 'Name' and e.func.id in ('len', 'bool') and len(e.args) == 1:
            e = e.args[0]
        if not sense and e.t in ('Name', 'Attribute', 'Subscript', 'Call'):
            g = grp_of(ip.ev(e, st, fr)[0][1])
            if g:
                return [self.add_fact(st, ('empty', (g[1], g[2])))]
        return None

    def set_mult(self, st, end, ms):
        cur = self.mult(st, end)
        new = cur & ms
        if not new:
            return []
        fs = set(f for f in st.facts if not (f[0] == 'mult' and f[1] == end))
        fs.add(('mult', end, new))
        return [State(frozenset(fs), st.env)]

    # ------------------------------------------------------------ loops
    def for_element(self, ip, fr, st, node, itv):
        g = grp_of(itv)
        if g:
            node._grp = g
            return sym(('el', g, node.lineno))
        a = self.kind(itv, 'assoc')
        if a:
            node._grp = ('assoc', a[2])
            if len(a) > 3 and a[3]:
                return av(('tup', (TOP, self.inst(self.Index))))
            return self.inst(self.Index)
        node._grp = None
        return None

    def loop_head(self, ip, fr, st, node):
        g = getattr(node, '_grp', None)
        if g is None:
            return st
        return self.add_fact(st, ('looped', g))

    def stmt(self, ip, fr, st, node):
        u = node.up
        if u is not None and u.t == 'For' and u.body[0] is node and getattr(u, '_grp', None) is not None:
            return self.add_fact(st, ('inloop', u._grp))
        return st

    def loop_back(self, ip, fr, st, node):
        g = getattr(node, '_grp', None)
        if g is None:
            return st
        fs = set(st.facts)
        fs.discard(('inloop', g))
        if g[0] == 'assoc':
            side = g[1]
            gone = [f for f in fs if f[0] == 'delgroup' and f[1] == side or f[0] == 'empty' and f[1][0] == side]
            for f in gone:
                fs.add(('cleared', side, f[2] if f[0] == 'delgroup' else f[1][1]))
            if not gone:
                fs.add(('missed', g))
            fs = set(f for f in fs if f[0] not in ('delgroup', 'empty', 'rem', 'add', 'in', 'notin', 'looped') or f == ('looped', g)
                     or f[0] == 'looped' and f[1][0] == 'assoc')
            return State(frozenset(fs), st.env)
        el = ('el', g, node.lineno)
        t, k = g[1], g[2]
        if not any(f[0] == 'rem' and f[1] == t and f[2] == k and f[3] == el for f in fs) and \
                not any(f[0] == 'eq' and f[1] == el for f in fs) and ('empty', (t, k)) not in fs:
            fs.add(('kept', g))         # an element other than the one looked for stays
        mirror = ('rem', OPP[t], el, k)
        own = ('rem', t, k, el)
        if own in fs and mirror not in fs or ('delgroup', t, k) in fs and mirror not in fs:
            fs.add(('missed', g))
        if mirror in fs and own not in fs:
            fs.add(('did', g))
        elif mirror not in fs:
            fs.add(('missed', g))
        if self.case.get('entry') == 'collection' and own in fs and ('delitem', el) not in fs:
            ip.report(fr, node, 'cascade', '%s takes away the required link of an entity and leaves the entity' % self.root, key=self.root)
        if self.case.get('own') and own in fs:
            fs.add(('removed', g))
        fs = set(f for f in fs if not mentions(f, el))
        return State(frozenset(fs), st.env)


def active(fr):
    while fr is not None:
        yield fr.func
        fr = fr.caller


def mult_name(e):
    if e.t == 'Attribute' and e.attr in MULTS:
        return e.attr
    return None


def exits(out):
    for st, v, node in out.ret:
        yield st, node


def mirrored(fs):
    """-> what is not mirrored in a set of effects"""
    for f in fs:
        if f[0] in ('add', 'rem'):
            kind, t, k, v = f
            if (kind, OPP[t], v, k) in fs:
                continue
            if kind == 'rem' and (('delgroup', OPP[t], v) in fs or ('empty', (OPP[t], v)) in fs):
                continue
            if mentions(f, 'el'):
                continue
            yield 'a link is %s in one direction only' % ('added' if kind == 'add' else 'removed')
        elif f[0] == 'delgroup':
            g = ('grp', f[1], f[2])
            if ('looped', g) not in fs or ('missed', g) in fs or ('inloop', g) in fs:
                yield 'the links of an entity are dropped in one direction and not all of them in the other'
        elif f[0] == 'did':
            g = f[1]
            if ('delgroup', g[1], g[2]) not in fs and ('empty', (g[1], g[2])) not in fs:
                yield 'links are removed in one direction and stay in the other'


def params_env(f):
    return dict((p, sym(('p', p))) for p in f.params[1:] if p)


def nav_cases(prog):
    """reverse or not -> values of the attributes set in the constructor of the navigation collection"""
    N = prog.cls(MOD, 'NavigationCollection')
    init = N.find('__init__')
    for rev in (False, True):
        got = {}

        class Init(Links):
            def attr_store(self, ip, fr, st, node, base, path, value):
                if any(a[0] == 'bound' for a in value):
                    got[node.attr] = value
                return st

            def call(self, ip, fr, st, node, callee, recv_path, args, kw):
                return [(st, TOP)]
        cl = Init(prog)
        cl.root = 'init'
        Interp(prog, cl).run(init, cls=N, env={'reverse': av(TRUE if rev else FALSE)})
        got['reverse'] = av(TRUE if rev else FALSE)
        got['own'] = 'R' if rev else 'F'
        yield got


def analyse(prog, pid, tier):
    r = Result()
    m = prog.module(MOD)
    link(m.tree)
    Index, Store = prog.cls(MOD, 'InMemoryAssociationIndex'), prog.cls(MOD, 'InMemoryEntityStore')
    Coll, Nav = prog.cls(MOD, 'EntityCollection'), prog.cls(MOD, 'NavigationCollection')
    counts = {'index': 0, 'store': 0, 'collection': 0, 'navigation': 0}
    effects = dict(counts)

    def run(f, cls, kind, case=None):
        cl = Links(prog, case)
        cl.root = f.short
        ip = Interp(prog, cl)
        out = ip.run(f, cls=cls, env=params_env(f))
        counts[kind] += 1
        effects[kind] += cl.effects
        for (rule, q, what), text in ip.reports.items():
            r.add('%s|%s|%s' % (kind, rule, what), text)
        return out
    for f in Index.methods.values():
        if f.name == '__init__' or f.is_generator:
            continue
        for st, node in exits(run(f, Index, 'index')):
            for text in mirrored(st.facts):
                r.add('index|mirror|%s|%s' % (f.qname, text), '%s:%d mirror: %s in %s' % (f.module.rel, f.node.lineno, text, f.short))
    for f in Store.methods.values():
        if f.name == '__init__' or f.is_generator:
            continue
        for st, node in exits(run(f, Store, 'store')):
            fs = st.facts
            for k in [x[1] for x in fs if x[0] == 'deldata']:
                for side, word in (('F', 'from'), ('R', 'to')):
                    g = ('assoc', side)
                    if ('looped', g) not in fs or ('missed', g) in fs or ('inloop', g) in fs or \
                            any(x[0] == 'cleared' and x[1] == side and x[2] != k for x in fs):
                        r.add('store|links|%s|%s' % (f.qname, side), '%s:%d links: %s deletes an entity and leaves links %s it' % (
                            f.module.rel, f.node.lineno, f.short, word))
                if ('delstream', k) not in fs:
                    r.add('store|stream|%s' % f.qname, '%s:%d stream: %s deletes an entity and leaves its stream' % (
                        f.module.rel, f.node.lineno, f.short))
    for f in Coll.methods.values():
        if f.name == '__init__' or f.is_generator or f.name.startswith('_') and not f.name.startswith('__'):
            continue
        run(f, Coll, 'collection', {'entry': 'collection'})
    for case in nav_cases(prog):
        t = case['own']
        for f in Nav.methods.values():
            if f.name == '__init__' or f.is_generator or f.name.startswith('_') and not f.name.startswith('__'):
                continue
            for st, node in exits(run(f, Nav, 'navigation', dict(case, entry='navigation'))):
                fs = st.facts
                for text in mirrored(fs):
                    r.add('navigation|mirror|%s' % f.qname, '%s:%d mirror: %s in %s' % (f.module.rel, f.node.lineno, text, f.short))
                adds = [x for x in fs if x[0] == 'add']
                g = ('grp', t, ('own',))
                for x in adds:
                    if x[1] == t and x[2] != ('own',):
                        r.add('navigation|direction|%s' % f.qname, '%s:%d direction: %s adds a link the wrong way round' % (
                            f.module.rel, f.node.lineno, f.short))
                cl = Links(prog, case)
                to = cl.mult(st, 'to')
                mine = [x for x in adds if x[1] == t and x[2] == ('own',)]
                if mine and to != frozenset(['Many']):
                    ok = ('was-empty', (t, ('own',))) in fs or ('looped', g) in fs and ('kept', g) not in fs and ('inloop', g) not in fs
                    if not ok:
                        r.add('navigation|to|%s' % f.qname, '%s:%d to: %s may add a second link where only one is allowed' % (
                            f.module.rel, f.node.lineno, f.short))
                rems = any(x[0] == 'rem' and x[1] == t and x[2] == ('own',) for x in fs) or ('removed', g) in fs or \
                    ('delgroup', t, ('own',)) in fs
                if rems and not mine and 'One' in to and not any(x[0] == 'in' and x[2] == (t, ('own',)) for x in fs
                                                                if ('removed', g) in fs):
                    r.add('navigation|required|%s' % f.qname, '%s:%d required: %s may remove a link that the entity requires' % (
                        f.module.rel, f.node.lineno, f.short))
    for k in counts:
        r.coverage['operations_' + k] = counts[k]
        r.coverage['effects_' + k] = effects[k]
    r.floor('effects_index', effects['index'], 8)
    r.floor('effects_store', effects['store'], 3)
    r.floor('effects_navigation', effects['navigation'], 8)
    r.floor('effects_collection', effects['collection'], 4)
    r.files = ['pyslet/pyslet/odata2/memds.py']
    r.rules = ['mirror', 'links', 'stream', 'exists', 'from', 'to', 'required', 'direction', 'replace', 'constraints', 'cascade']
    r.samples = sorted(f.qname for c in (Index, Store, Coll, Nav) for f in c.methods.values())
    r.explanation = ('Every operation of the in-memory store was executed over symbolic keys and its effects on both '
                     'directions of the links, the entities and the streams were compared at each exit.')
    return r
