"""C31: what a collection returns is decided by the query options set on it.

Along every path of each way of reading a collection (count, by key, iteration,
page) each option either is known not to be set or its value is put to use, for
the entities that are returned.  Values that are kept for reuse are dropped by
whatever changes an option they were made with."""
from ..frontend import walk, link
from ..interp import Client, Interp, State, Frame, av, TOP, NONE, ANY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

OPTIONS = ('filter', 'expand', 'select', 'orderby', 'top', 'skip', 'skiptoken', 'topmax', 'source')
ALL = frozenset(OPTIONS + ('whole',))
PAGING = frozenset(['top', 'skip', 'skiptoken', 'topmax'])
NEXT = frozenset(['top', 'topmax', 'orderby'])          # only matter once there is more than one entity
ELEMENT = frozenset(['filter', 'expand', 'select', 'source'])
SOURCE = set(['fromEntity', 'key', 'baseURI', 'entityList', 'entityDict', 'keyCollection'])
PASS = ('list', 'tuple', 'iter', 'reversed', 'sorted', 'len', 'sum', 'enumerate', 'set', 'max', 'min', 'next')
NEED = {'__len__': set(['filter']),
        '__getitem__': set(['filter', 'expand', 'select']),
        'itervalues': set(['filter', 'expand', 'select', 'orderby']),
        'iterpage': set(['filter', 'expand', 'select', 'orderby', 'top', 'skip', 'skiptoken', 'topmax'])}
EMPTY = frozenset()


class Facts(object):
    names = ('G', 'C', 'first', 'base', 'stored', 'reset', 'P')
    init = (EMPTY, None, True, (), EMPTY, EMPTY, EMPTY)

    @staticmethod
    def get(st, n):
        return st.facts[Facts.names.index(n)]

    @staticmethod
    def put(st, **kw):
        fs = list(st.facts)
        for k, v in kw.items():
            fs[Facts.names.index(k)] = v
        return State(tuple(fs), st.env)


get, put = Facts.get, Facts.put


def ents(h):
    return av(('o', 'ents', frozenset(h)))


def held(v):
    """the options the entities of this value have been subject to"""
    h = None
    for a in v:
        if a[0] == 'o' and a[1] == 'ents':
            h = a[2] if h is None else h & a[2]
        elif a[0] == 'tup':
            for x in a[1]:
                y = held(x)
                if y is not None:
                    h = y if h is None else h & y
        elif a != NONE:
            return None if h is None else EMPTY
    return h


def marked(h, st):
    """what a value has been subject to, with what this path has done"""
    G = get(st, 'G')
    h = frozenset(['whole']) if h is None else h
    return (h | G) - (set(['whole', 'cut']) if 'cut' in G else set())


def opts(v):
    return frozenset(a[2] for a in v if a[0] == 'either' and a[1] == 'opt')


class Options(Client):
    init_facts = Facts.init
    max_states = 400
    max_depth = 14

    def __init__(self, prog, root, derived, useful, memos):
        self.prog, self.root, self.derived, self.useful = prog, root, derived, useful
        self.memos = memos          # (class, attribute) -> options
        self.new = {}
        self.loads = set()
        self.yields = []
        self.cur = None             # class being analysed
        self.gens = {}
        self.uses = 0
        self.early = {}
        self.sites = set()

    def relevant(self, ip, func):
        return func in self.useful

    def opaque_raises(self, ip, fr, st, node, callee):
        return (ANY,)

    def truthiness(self, a):
        if a[0] == 'o':
            return True if a[1] == 'ents' and False else None
        return truth(a)

    # ------------------------------------------------------------ options
    def is_self(self, base):
        return any(a[0] == 'inst' and a[1] is self.cur for a in base)

    def attr_load(self, ip, fr, st, node, base, path):
        if not self.is_self(base):
            if opts(base):
                return [(st, TOP)]
            return None
        n = node.attr
        o = self.option(n)
        if o:
            return [(st, av(('either', 'opt', o)))]
        m = self.memos.get((self.cur, n))
        if m is not None and path not in st.env:
            self.loads.add((self.cur, n))
            if m[0] == 'ents':
                return [(st, ents(m[1]) | av(NONE))]
            return [(st, av(('either', 'memo', n)))]
        return None

    def option(self, n):
        if n in OPTIONS:
            return n
        if n in SOURCE:
            return 'source'
        return self.derived.get(n)

    def attr_store(self, ip, fr, st, node, base, path, value):
        if not self.is_self(base):
            return st
        n = node.attr
        if n in OPTIONS:
            return put(st, stored=get(st, 'stored') | set([n]))
        if n in self.derived or n in SOURCE:
            return st
        u = node.up
        none = value is not None and all(a == NONE or a[0] == 'k' for a in value)
        if none:
            return put(st, reset=get(st, 'reset') | set([n]))
        h = held(value) if value is not None else None
        kind = 'ents' if h is not None else 'query'
        d = (h or EMPTY) | get(st, 'G')
        k = (self.cur, n)
        if k in self.new:
            d = d & self.new[k][1]
            kind = kind if kind == self.new[k][0] else 'query'
        self.new[k] = (kind, d)
        return put(st, reset=get(st, 'reset') - set([n]))

    # ------------------------------------------------------------ uses
    def stmt(self, ip, fr, st, node):
        if node.t in ('FunctionDef', 'ClassDef', 'Pass', 'TryExcept', 'TryFinally', 'Global', 'Import', 'ImportFrom'):
            return st
        roots = {'If': ('test',), 'While': ('test',), 'For': ('iter',), 'With': ('context_expr',)}.get(node.t)
        parts = [node] if roots is None else [getattr(node, r) for r in roots]
        found = keep = EMPTY
        for p in parts:
            for x in walk(p):
                if x.t not in ('Name', 'Attribute') or x.ctx != 'Load':
                    continue
                used = self.in_use(ip, fr, st, x, node)
                if not used and x.up.t != 'Return':
                    continue
                v = ip.ev(x, st, fr)[0][1]
                for a in v:
                    if a[0] == 'either' and a[1] == 'memo':
                        found = found | self.memos[(self.cur, a[2])][1]
                if used:
                    found = found | opts(v)
                    if not self.element_wise(x):
                        keep = keep | opts(v)
        if found:
            self.uses += 1
            if 'select' in found:
                found = found | set(['cut'])
            if 'select' in keep:
                keep = keep | set(['cut'])
            st = put(st, G=get(st, 'G') | found, P=get(st, 'P') | keep)
        return st

    def judged(self, ip, fr, st, node, v, what):
        h = held(v) if v is not None else None
        if 'cut' in get(st, 'G') or h is not None and 'whole' not in h:
            self.early.setdefault((fr.func.module.rel, node.lineno, fr.func.qname, what))

    def element_wise(self, x):
        """is this use about the element a loop has reached?"""
        u = x.up
        while u is not None and u.t not in ('Call', 'FunctionDef') and hasattr(u, 'up'):
            u = u.up
        if u is None or u.t != 'Call':
            return True
        names = set(n.id for n in walk(u) if n.t == 'Name' and n is not x)
        w = u.up
        while w is not None and w.t != 'FunctionDef':
            if w.t in ('For', 'While'):
                for n in walk(w):
                    if n.t == 'Name' and n.ctx == 'Store' and n.id in names:
                        return True
            w = w.up
        return False

    def in_use(self, ip, fr, st, x, top):
        """is the value consumed here (not only tested, copied or handed on to code that is followed)?"""
        if x.t == 'Attribute' and x.value.t != 'Name' or x.t == 'Name' and x.id == (fr.func.params or [None])[0]:
            return False
        if x.t == 'Name' and x.id not in fr.func.locals:
            return False
        u = x.up
        y = x
        while u.t == 'BinOp':
            u, y = u.up, u
        if y is not x:
            if u.t == 'Assign' and u.value is y and all(t.t == 'Name' for t in u.targets):
                return False                # carried on
            return not (u.t == 'Call' and self.followed(ip, fr, st, u))
        if u is top and u.t == 'For':
            return True
        if u.t == 'Attribute' and u.value is x:
            return True
        if u.t in ('Subscript', 'AugAssign', 'comprehension', 'Index', 'Slice'):
            return True
        if u.t == 'keyword':
            return not self.followed(ip, fr, st, u.up)
        if u.t == 'Call' and u.func is not x:
            return not self.followed(ip, fr, st, u)
        if u.t == 'Compare':
            return any(op in ('Lt', 'Gt', 'LtE', 'GtE', 'In', 'NotIn') for op in u.ops)
        if u.t == 'Assign':
            if any(t.t == 'Subscript' for t in u.targets):
                return True
            # a value made from an option and kept: unpacking a memo
            return any(t.t in ('Tuple', 'List') for t in u.targets)
        if u.t == 'Tuple' or u.t == 'List':
            return u.up.t not in ('Assign', 'Return')
        return False

    def followed(self, ip, fr, st, call):
        f = call.func
        if f.t == 'Name' and f.id in ('bool', 'isinstance', 'type', 'id', 'repr'):
            return True
        if f.t == 'Attribute' and f.attr in ('debug', 'info', 'warn', 'warning', 'error') and f.value.t == 'Name' and f.value.id == 'logging':
            return True
        if f.t == 'Attribute':
            for s, v in ip.ev(f, st, fr)[:1] if f.value.t == 'Name' else ():
                for a in v:
                    if a[0] in ('bound', 'func') and (a[1] in self.useful or a[1].is_generator and a[1].cls is not None):
                        return True
        return False

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            for a, b in ((l, r), (r, l)):
                if a.t in ('Name', 'Attribute') and b.t == 'Name' and b.id == 'None':
                    o = opts(ip.ev(a, st, fr)[0][1])
                    if o and op in ('Is', 'Eq', 'IsNot', 'NotEq') and sense == (op in ('Is', 'Eq')):
                        return [self.gain(st, o)]
                if a.t in ('Name', 'Attribute') and op in ('Eq', 'NotEq') and b.t == 'Num' and b.n == 0 and sense == (op == 'Eq'):
                    o = opts(ip.ev(a, st, fr)[0][1])
                    if o:
                        return [self.gain(st, o)]
            return None
        if test.t in ('Name', 'Attribute', 'Call'):
            v = [x for s, x in ip.ev(test, st, fr)[:1]]
            v = v[0] if v else TOP
            o = opts(v)
            if o and not sense:
                return [self.gain(st, o)]
            if sense and any(a == ('o', 'verdict') for a in v):
                return [self.gain(st, ['filter'])]
        return None

    def gain(self, st, o):
        return put(st, G=get(st, 'G') | frozenset(o))

    # ------------------------------------------------------------ loops
    def for_element(self, ip, fr, st, node, itv):
        node._ents = None
        if self.is_self(itv):
            for a in itv:
                if a[0] == 'inst':
                    f = a[1].find('__iter__')
                    if f is not None and f.is_generator:
                        itv = self.generator(ip, fr, st, f, a[1], {}, node)
        h = held(itv)
        if h is None:
            return None
        node._ents = h
        return ents(h)

    def loop_head(self, ip, fr, st, node):
        G = get(st, 'G')
        base = get(st, 'base')
        d = dict(base)
        k = (fr.func.qname, node.lineno)
        if k in d:
            G = d[k] | G & PAGING | get(st, 'P')
        else:
            base = base + ((k, G),)
        st = put(st, G=G, base=base)
        if node.t == 'For' and getattr(node, '_ents', None) is not None:
            c = get(st, 'C')
            st = put(st, C=node._ents if c is None else c & node._ents)
        return st

    def loop_back(self, ip, fr, st, node):
        k = (fr.func.qname, node.lineno)
        base = get(st, 'base')
        for i, (x, g) in enumerate(base):
            if x == k:
                return put(st, base=base[:i + 1])
        return st

    def on_enter(self, ip, fr, st, env):
        return put(st, base=()).facts, env, (get(st, 'base'),)

    def on_leave(self, token, facts, value, cenv, env):
        return put(State(facts, {}), base=token[0]).facts, value, cenv, env

    # ------------------------------------------------------------ generators
    def generator(self, ip, fr, st, func, cls, env, node):
        """the options the elements of this generator are subject to"""
        args = tuple(sorted((k, tuple(sorted(map(repr, v)))) for k, v in env.items()))
        key = (func, cls, st.facts, args)
        if key in self.gens:
            return self.gens[key]
        self.gens[key] = ents(ALL)
        e = {}
        for p in func.params:
            if p is not None:
                e[p] = TOP
        e[func.params[0]] = av(('inst', cls))
        e.update(env)
        ip.entered.add(func)
        for rounds in range(4):
            self.yields.append([])
            f2 = Frame(func, cls, fr.depth + 1 if fr else 0, fr, node if fr else None)
            ip.body(func, [put(State(st.facts, e), base=(), first=True)], f2)
            ys = self.yields.pop()
            h = ALL
            for first, x in ys:
                h = h & (x | NEXT if first else x)
            r = ents(h)
            if r == self.gens[key]:
                break
            self.gens[key] = r
        return self.gens[key]

    def on_yield(self, ip, fr, st, node, value):
        h = held(value)
        if self.yields:
            self.sites.add((fr.func.qname, node.lineno))
            self.yields[-1].append((get(st, 'first'), marked(h, st)))
        return put(st, first=False)

    # ------------------------------------------------------------ values
    def list_display(self, ip, fr, st, node, vals):
        h = ALL
        for v in vals:
            x = held(v)
            h = h & marked(x, st)
        return ents(h)

    def comp(self, ip, fr, st, node, parts):
        if len(parts) != 1:
            return None
        cur = [st]
        h0 = None
        for g in node.generators:
            nxt = []
            for s in cur:
                for s2, itv in ip.ev(g.iter, s, fr):
                    e = self.for_element(ip, fr, s2, g, itv)
                    if e is not None:
                        h0 = held(e) if h0 is None else h0 & held(e)
                    nxt.extend(ip.assign(g.target, TOP if e is None else e, s2, fr))
            cur = nxt
            for c in g.ifs:
                cur = [x for s in cur for x in ip.cond(c, s, fr)[0]]
        h = ALL
        for s in cur:
            for s2, v in ip.ev(parts[0], s, fr):
                x = held(v)
                h = h & marked(x if x is not None else h0, s2)
        return [(st, ents(h))]

    def binop(self, ip, fr, st, node, left, right):
        o = opts(left) | opts(right)
        if o:
            return av(*[('either', 'opt', x) for x in o])
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if f.t == 'Attribute' and name == 'Rollback' and node.args and not node.keywords and len(node.args) < 2:
            ip.throw(fr, st, ANY, node)
            return []
        if name == 'CheckFilter' and f.t == 'Attribute':
            ip.throw(fr, st, ANY, node)
            self.judged(ip, fr, st, node, args[0] if args else None, 'filter')
            return [(st, av(('o', 'verdict')))]
        if name == 'CalculateOrderKey' and f.t == 'Attribute':
            self.judged(ip, fr, st, node, args[0] if args else None, 'order')
            return None
        if f.t == 'Name' and name == 'filter' and len(node.args) == 2:
            x = held(args[1])
            fn = node.args[0]
            ok = fn.t == 'Attribute' and fn.attr == 'CheckFilter' or \
                fn.t == 'Lambda' and fn.body.t == 'Call' and fn.body.func.t == 'Attribute' and fn.body.func.attr == 'CheckFilter'
            if ok:
                self.judged(ip, fr, st, node, args[1], 'filter')
            return [(st, ents((x or EMPTY) | (set(['filter']) if ok else EMPTY)))]
        if (f.t == 'Name' and name in ('sorted', 'max', 'min') or f.t == 'Attribute' and name == 'sort') and any(
                n.t == 'Attribute' and n.attr == 'CalculateOrderKey' for k in list(node.keywords) + list(node.args) for n in walk(k)):
            if f.t == 'Attribute':
                for s, b in ip.ev(f.value, st, fr)[:1]:
                    self.judged(ip, fr, st, node, b, 'order')
            elif args:
                self.judged(ip, fr, st, node, args[0], 'order')
        if f.t == 'Name' and name in PASS and args:
            if self.is_self(args[0]) and name == 'len':
                for a in args[0]:
                    if a[0] == 'inst':
                        g = a[1].find('__len__')
                        if g is not None and g in self.useful:
                            return ip.enter(node, g, a[1], ip.path(node.args[0]), st, [], {}, fr, True)
            v = args[0]
            if self.is_self(v):
                v = self.for_element(ip, fr, st, node, v) or v
            h = held(v)
            if h is not None:
                return [(st, ents(h))]
            return None
        if callee is not None and callee[0] in ('func', 'bound') and callee[1].is_generator and callee[1].cls is not None \
                and callee[1].cls in self.root_family:
            fn = callee[1]
            cls = callee[3] if callee[0] == 'bound' and callee[3] is not None else self.cur
            env, links = ip.bind(fn, node, callee[2] if callee[0] == 'bound' else None, st, args, kw, callee[0] == 'bound', cls)
            env = dict((k, v) for k, v in env.items() if k in fn.params)
            return [(st, self.generator(ip, fr, st, fn, cls, env, node))]
        if f.t == 'Attribute' and name in ('append', 'insert', 'extend', 'add') and node.args:
            p = ip.path(f.value)
            if p is not None:
                for s, b in ip.ev(f.value, st, fr)[:1]:
                    h = held(b)
                    if h is not None:
                        x = held(args[-1])
                        return [(st.set(p, ents(h & marked(x, st))), av(NONE))]
            return None
        if f.t == 'Attribute' and name == 'Key':
            for s, b in ip.ev(f.value, st, fr)[:1]:
                h = held(b)
                if h is not None:
                    return [(st, ents(h))]
            return None
        if f.t == 'Attribute' and name in ('sort', 'reverse'):
            return [(st, av(NONE))]
        return None


def closure(prog, family):
    """functions of the collection classes whose code can reach an option"""
    funcs = []
    for c in family:
        for f in c.methods.values():
            funcs.append(f)
    byname = {}
    for f in funcs:
        byname.setdefault(f.name, []).append(f)
    marks = set(OPTIONS) | SOURCE | set(['CheckFilter', 'orderNames'])
    hit = set()
    calls = {}
    for f in funcs:
        attrs = set(n.attr for n in walk_own(f.node) if n.t == 'Attribute')
        if attrs & marks:
            hit.add(f)
        calls[f] = attrs
    while True:
        more = set(f for f in funcs if f not in hit and any(g in hit for n in calls[f] for g in byname.get(n, ())))
        if not more:
            break
        hit |= more
    return hit


def analyse(prog, pid, tier):
    r = Result()
    root = prog.cls('pyslet.odata2.csdl', 'EntityCollection')
    nav = prog.cls('pyslet.odata2.csdl', 'NavigationCollection')
    classes = [c for c in prog.classes() if c.is_subclass(root) and concrete(prog, c)]
    family = set()
    for c in classes:
        family.update(k for k in c.mro if hasattr(k, 'methods'))
    useful = set(f for f in closure(prog, family) if f.name not in ('__init__',) and not f.name.startswith('SQLExpression'))
    useful.update(f for c in family for f in c.methods.values() if f.name in NEED)
    useful = set(f for f in useful if not f.is_generator)
    for m in set(c.module for c in family):
        link(m.tree)
    # attributes worked out from an option by the method that sets it
    derived = {}
    for c in family:
        for f in c.methods.values():
            if f.name == '__init__':
                continue
            st = {}
            for n in walk_own(f.node):
                if n.t == 'Assign':
                    for t in n.targets:
                        if t.t == 'Attribute' and t.value.t == 'Name' and t.value.id == (f.params or [None])[0]:
                            st.setdefault(t.attr, []).append(n.value)
            os_ = [a for a in st if a in OPTIONS]
            reads = set(n.attr for n in walk_own(f.node) if n.t == 'Attribute')
            if len(os_) == 1 and f.name not in NEED:
                for a, vs in st.items():
                    if a not in OPTIONS and a not in SOURCE and a != 'nextSkiptoken' and not all(v.t == 'Name' and v.id == 'None' for v in vs):
                        derived[a] = os_[0]
    memos = {}
    reads = 0
    for rnd in range(4):
        cl = Options(prog, root, derived, useful, memos)
        cl.root_family = family
        ip = Interp(prog, cl)
        r.findings = []
        reads = 0
        for c in classes:
            cl.cur = c
            ip.memo = {}
            cl.gens = {}
            abstract = c is nav or c.qname == 'pyslet.odata2.core.NavigationCollection'
            for op, need in sorted(NEED.items()):
                f = c.find(op)
                if f is None:
                    continue
                need = set(need)
                if c.is_subclass(nav) and not abstract:
                    need.add('source')
                tm = c.find('TopMax')
                if 'topmax' in need and all(s.t in ('Raise', 'Expr') for s in tm.node.body):
                    need.discard('topmax')
                reads += 1
                judge(r, ip, cl, c, op, f, need)
        if cl.new == memos:
            break
        memos = dict(cl.new)
    for rel, line, q, what in sorted(cl.early):
        r.add('early|%s|%s' % (q, what), '%s:%d early: %s works out the %s from entities already cut down to the selected properties' % (
            rel, line, q.split('.', 2)[-1], what))
    # what is kept for reuse is dropped when an option changes
    kept = 0
    loads = cl.loads
    for c in classes:
        ms = dict((a, memos[(c, a)]) for (k, a) in loads if k is c and (c, a) in memos)
        if not ms:
            continue
        cl.cur = c
        ip.memo = {}
        names = set(n for k in c.mro if hasattr(k, 'methods') for n in k.methods)
        for n in sorted(names):
            f = c.find(n)
            if f is None or n == '__init__' or n in NEED or f.is_generator or not changes(f, c, set()):
                continue
            out = ip.run(f, c)
            for s, v, node in out.ret:
                for a, (kind, deps) in ms.items():
                    deps = deps & ELEMENT if kind == 'ents' else deps
                    late = get(s, 'stored') & deps
                    if late and a not in get(s, 'reset'):
                        r.add('stale|%s|%s|%s' % (f.qname, a, sorted(late)[0]),
                              '%s:%d stale: %s changes %s but keeps %s.%s, which was made with it' % (
                                  f.module.rel, f.node.lineno, f.qname.split('.', 2)[-1], ', '.join(sorted(late)), c.qname.split('.', 2)[-1], a))
            kept += 1
    r.floor('classes', len(classes), 12)
    r.floor('ways_of_reading', reads, 40)
    r.floor('uses_of_options', cl.uses, 30)
    r.coverage['kept_values'] = sorted(set(a for k, a in loads))
    r.coverage['setters_checked'] = kept
    r.coverage['yields'] = len(cl.sites)
    r.coverage['functions'] = len(ip.entered)
    check_filter(r, prog, root, classes)
    r.files = sorted(set(f.module.rel for f in ip.entered))
    r.rules = ['every option is unset or its value used, for each entity returned, on every path', 'a kept value is dropped when an option it was made with changes',
               'the filter test is true only for a true result']
    r.samples = sorted(f.qname for f in ip.entered)
    r.explanation = ('For each class of collection, the options applied to the entities were followed through every path of counting, '
                     'reading by key, iterating and paging, through its generators.')
    r.assumptions = ['An option whose value is handed to other code (the query builder, the URL, the sort key) is applied by it correctly.']
    return r


def concrete(prog, c):
    """classes that are made use of as such, not only derived from"""
    if not hasattr(prog, '_class_refs'):
        refs = prog._class_refs = set()
        for m in prog.modules.values():
            link(m.tree)
            for n in walk(m.tree):
                if n.t not in ('Name', 'Attribute') or n.ctx != 'Load':
                    continue
                u = n.up
                if u is None or u.t == 'ClassDef' or u.t == 'Attribute':
                    continue
                if u.t == 'Call' and u.func.t == 'Name' and u.func.id in ('super', 'isinstance', 'issubclass') and u.func is not n:
                    continue
                k = prog.resolve_expr(m, n)
                if k is not None and k[0] == 'class':
                    refs.add(k[1])
    return c in prog._class_refs


def changes(f, c, seen):
    if f in seen:
        return False
    seen.add(f)
    for n in walk_own(f.node):
        if n.t == 'Attribute' and n.ctx == 'Store' and n.attr in OPTIONS:
            return True
        if n.t == 'Call' and n.func.t == 'Attribute' and n.func.value.t == 'Name' and n.func.value.id == (f.params or [None])[0]:
            g = c.find(n.func.attr)
            if g is not None and changes(g, c, seen):
                return True
    return False


def judge(r, ip, cl, c, op, f, need):
    env = {}
    short = lambda q: q.split('.', 2)[-1]

    def bad(node, have):
        miss = sorted(need - have)
        what = {'source': 'which entity it belongs to'}
        for m in miss[:3]:
            r.add('option|%s|%s|%s' % (f.qname, op, m),
                  '%s:%d option: %s of a %s can return %s without regard to %s' % (
                      f.module.rel, getattr(node, 'lineno', 0), op, short(c.qname), 'a count' if op == '__len__' else 'entities',
                      what.get(m, 'its %s option' % m)))
    if f.is_generator:
        fr = Frame(f, c, 0)
        st = State(Facts.init, {})
        v = cl.generator(ip, None, st, f, c, {}, None)
        h = held(v)
        if not need <= h:
            bad(f.node, h)
        return
    out = ip.run(f, c)
    for s, v, node in out.ret:
        if v == av(NONE) and op != '__len__' and node is f.node:
            continue                    # falls off the end: raised in fact
        h = held(v)
        have = get(s, 'G') | (h or EMPTY)
        if op == '__len__':
            have = have | (get(s, 'C') or EMPTY)
        if op == '__len__' and any(a[0] == 'k' and a[2] in (0, 1) for a in v) and len(v) == 1 and 'filter' in have:
            pass
        if not need <= have:
            bad(node, have)


def check_filter(r, prog, root, classes):
    """the filter test: true only where there is no filter or the filter's value is true"""
    seen = set()
    for c in classes:
        f = c.find('CheckFilter')
        if f is None or f in seen:
            continue
        seen.add(f)
        self = f.params[0]
        link(f.node)

        class V(Client):
            init_facts = None
            max_states = 100

            def relevant(self, ip, func):
                return func.cls is not None and func.cls.is_subclass(root) and not func.is_generator

            def attr_load(self, ip, fr, st, node, base, path):
                if node.attr == 'filter' and any(a[0] == 'inst' for a in base):
                    return [(st, av(('o', 'filter')))]
                if ('either', 'result') in base and node.attr == 'value':
                    return [(st, av(('either', 'value')))]
                return None

            def truthiness(self, a):
                return None if a[0] == 'o' else truth(a)

            def call(self, ip, fr, st, node, callee, recv_path, args, kw):
                if node.func.t == 'Attribute' and node.func.attr == 'Evaluate':
                    for s, b in ip.ev(node.func.value, st, fr)[:1]:
                        if ('o', 'filter') in b:
                            return [(st.with_facts('evaluated'), av(('either', 'result')))]
                return None

            def refine(self, ip, fr, st, test, sense):
                if test.t == 'Compare' and len(test.ops) == 1:
                    op, l, rr = test.ops[0], test.left, test.comparators[0]
                    for a, b in ((l, rr), (rr, l)):
                        if a.t not in ('Attribute', 'Name') or b.t != 'Name':
                            continue
                        v = ip.ev(a, st, fr)[0][1]
                        if ('o', 'filter') in v and b.id == 'None' and sense == (op in ('Is', 'Eq')):
                            return [st.with_facts('none')]
                        if ('either', 'value') in v and b.id == 'True' and sense == (op in ('Is', 'Eq')):
                            return [st.with_facts('true')]
                        if ('either', 'value') in v and b.id == 'True':
                            return [st.with_facts('false')]
                elif test.t in ('Attribute', 'Name'):
                    v = ip.ev(test, st, fr)[0][1]
                    if ('o', 'filter') in v and not sense:
                        return [st.with_facts('none')]
                    if ('either', 'value') in v:
                        return [st.with_facts('true' if sense else 'false')]
                return None
        ip = Interp(prog, V())
        out = ip.run(f, c)
        for s, v, node in out.ret:
            val = getattr(node, 'value', None)
            while val is not None and val.t == 'Call' and val.func.t == 'Name' and val.func.id == 'bool' and len(val.args) == 1:
                val = val.args[0]
                if ('either', 'value') in ip.ev(val, s, Frame(f, c, 0))[0][1]:
                    v = av(('either', 'value'))
            okay = s.facts in ('none', 'true') or any(a == ('either', 'value') for a in v)
            if s.facts == 'evaluated' and val is not None and val.t == 'Compare' and any(
                    ('either', 'value') in ip.ev(x, s, Frame(f, c, 0))[0][1] for x in [val.left] + list(val.comparators)):
                okay = True
                other = [x for x in [val.left] + list(val.comparators) if x.t == 'Name' and x.id in ('True', 'False', 'None')]
                if val.ops[0] in ('NotEq', 'IsNot') or other and other[0].id != 'True':
                    okay = False
            if not okay and not (len(v) == 1 and all(truth(a) is False for a in v)):
                r.add('verdict|%s' % f.qname, '%s:%d verdict: %s can be true for an entity the filter is not true for' % (
                    f.module.rel, getattr(node, 'lineno', 0), f.qname.split('.', 2)[-1]))
