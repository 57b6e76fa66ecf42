"""C10: whatever opens a collection of entities closes it, on every way out.

Opened collections are followed as values through every function that opens one
(or is handed one that was opened for it); leaving such a function, returning or
raising, each is closed, handed to the caller, or kept by an object whose own
close() closes it."""
from ..frontend import walk, link
from ..interp import Client, Interp, av, TOP, NONE, ANY, truth
from ..model import AnalysisBroken, Class, walk_own
from ..result import Result

OPENERS = ('OpenCollection', 'OpenNavigation')
OPEN = frozenset()


def tokens(v):
    out = set()
    for a in v:
        if a[0] == 'inst' and len(a) == 3:
            out.add(a[2])
        elif a[0] == 'tup':
            for x in a[1]:
                out |= tokens(x)
    return out


class Closing(Client):
    init_facts = OPEN
    max_states = 400

    def __init__(self, prog, r, root, handers, members, helpers):
        self.prog, self.r, self.root = prog, r, root
        self.handers, self.members = handers, members       # functions that return what they opened / that are followed
        self.helpers, self.ids = helpers, {}
        self.sites, self.passed = set(), False
        self.entry = None
        self.kept = set()

    def relevant(self, ip, func):
        # what opens and hands nothing back is judged on its own
        return not func.is_generator and func.name not in OPENERS and (
            func in self.members and func.name in self.handers or func in self.helpers or self.passed and func not in self.members)

    def rep(self, node, func, rule, text):
        r = self.r
        r.add('%s|%s|%s' % (rule, func.qname, text), '%s:%d %s: %s %s' % (
            func.module.rel, getattr(node, 'lineno', 0), rule, func.qname.split('.', 2)[-1], text))

    def opener(self, node, callee):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if name in OPENERS:
            return True
        return f.t == 'Attribute' and name in self.handers and (callee is None or callee[0] not in ('func', 'bound') or
                                                                callee[1] not in self.members)

    def opaque_raises(self, ip, fr, st, node, callee):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'close' or f.t == 'Name' and f.id in ('isinstance', 'len', 'str', 'super') and False:
            return ()
        return (ANY,)

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        # what is given an open collection is followed
        self.passed = any(tokens(a) for a in list(args) + list(kw.values())) if isinstance(kw, dict) else any(tokens(a) for a in args)
        if f.t == 'Attribute' and f.attr in ('close', '__exit__'):
            for s, b in ip.ev(f.value, st, fr)[:1]:
                t = tokens(b)
                if t:
                    return [(st.with_facts(st.facts - t), av(NONE))]
            return None
        if self.opener(node, callee):
            p = ip.path(f.value) if f.t == 'Attribute' else None
            if p is not None:
                x = st.env.get(p + '.isExpanded')
                if x is not None and all(truth(a) is True for a in x):
                    ip.throw(fr, st, ANY, node)
                    return [(st, TOP)]          # what was expanded already: nothing is opened
            ip.throw(fr, st, ANY, node)
            site = (fr.func.qname, node.lineno, self.ids.setdefault(id(node), len(self.ids)))
            self.sites.add(site)
            if site in st.facts:
                self.rep(node, fr.func, 'lost', 'opens a collection again without having closed the one opened before')
            return [(st.with_facts(st.facts | set([site])), av(('inst', self.root, site)))]
        return None

    def with_enter(self, ip, fr, st, node, ctx, path):
        return st, ctx, frozenset(tokens(ctx))

    def with_exit(self, ip, fr, st, node, token):
        return st.with_facts(st.facts - token) if token else st

    def attr_store(self, ip, fr, st, node, base, path, value):
        t = tokens(value) if value is not None else set()
        if not t:
            return st
        for a in base:
            if a[0] == 'inst' and isinstance(a[1], Class):
                c = a[1].find('close')
                if c is not None and closes(c, a[1], node.attr, set()):
                    self.kept.add((a[1].qname, node.attr))
                    return st.with_facts(st.facts - t)
        return st


class Constructing(Client):
    """constructors of collections: what fails after something was acquired gives it back"""
    init_facts = OPEN
    max_states = 400

    def __init__(self, prog, r, cls, chain):
        self.prog, self.r, self.cls, self.chain = prog, r, cls, chain
        self.acquired = set()

    def relevant(self, ip, func):
        return func in self.chain

    def opaque_raises(self, ip, fr, st, node, callee):
        f = node.func
        return (ANY,) if f.t == 'Attribute' and f.attr in ('cursor', 'execute', 'Execute', 'executemany') else ()

    def mine(self, fr, node):
        return node.t == 'Name' and (fr.func.params or [None])[0] == node.id

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'close' and self.mine(fr, f.value):
            c = self.cls.find('close')
            if c is not None:
                self.tolerates(ip, c, st, node, fr)
                gone = set(x for x in st.facts if x[0] == 'held' and closes(c, self.cls, x[1], set()))
                return [(st.with_facts(st.facts - gone), av(NONE))]
        name = f.attr if f.t == 'Attribute' else None
        if name in OPENERS or name == 'AcquireConnection':
            ip.throw(fr, st, ANY, node)
            return [(st, av(('inst', None, 'acquired'), *([NONE] if name == 'AcquireConnection' else [])))]
        return None

    def attr_store(self, ip, fr, st, node, base, path, value):
        if node.value.t == 'Name' and self.mine(fr, node.value):
            facts = st.facts | set([('set', node.attr)])
            if value is not None and any(a[0] == 'inst' and len(a) == 3 and a[2] == 'acquired' for a in value):
                self.acquired.add((fr.func.qname, node.attr))
                facts = facts | set([('held', node.attr)])
            return st.with_facts(facts)
        return st

    def refine(self, ip, fr, st, test, sense):
        # nothing was acquired where what was acquired is None
        if test.t == 'Compare' and len(test.ops) == 1 and test.comparators[0].t == 'Name' and test.comparators[0].id == 'None' and \
                test.left.t == 'Attribute' and self.mine(fr, test.left.value):
            is_none = (test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t) in ('Is', 'Eq')
            if is_none == sense:
                return [st.with_facts(st.facts - set([('held', test.left.attr)]))]
        return None

    def tolerates(self, ip, close, st, node, fr):
        """close() is called during construction: what it reads is set by now"""
        seen, work = set(), [close]
        while work:
            g = work.pop()
            if g in seen or g is None:
                continue
            seen.add(g)
            me = (g.params or [None])[0]
            for n in walk_own(g.node):
                if n.t == 'Attribute' and n.ctx == 'Load' and n.value.t == 'Name' and n.value.id == me:
                    if ('set', n.attr) in st.facts or self.cls.find(n.attr) is not None or self.cls.find_attr(n.attr) is not None:
                        continue
                    where = [f for k in self.cls.mro for f in k.methods.values() if any(
                        m.t == 'Attribute' and m.attr == n.attr and m.ctx == 'Store' and m.value.t == 'Name' and
                        m.value.id == (f.params or [None])[0] for m in walk_own(f.node))]
                    if where and all(f in self.chain or f in seen for f in where):
                        self.r.add('unset|%s|%s' % (self.cls.qname, n.attr), '%s:%d %s.close() reads self.%s, and is called in line %d '
                                   'before that has been set' % (g.module.rel, n.lineno, self.cls.name, n.attr, node.lineno))
                if n.t == 'Call' and n.func.t == 'Attribute':
                    v = n.func.value
                    if v.t == 'Name' and v.id == me:
                        work.append(self.cls.find(n.func.attr))
                    elif v.t == 'Call' and v.func.t == 'Name' and v.func.id == 'super' and g.cls is not None:
                        work.append(self.cls.find_after(g.cls, n.func.attr))


def constructors(prog, root, r):
    n, held = 0, set()
    for c in sorted(root.all_subclasses(), key=lambda c: c.qname):
        if c.module.name.startswith('legacy'):
            continue
        init = c.find('__init__')
        if init is None or isinstance(init, tuple):
            continue
        chain = set(k.methods['__init__'] for k in c.mro if isinstance(k, Class) and '__init__' in k.methods)
        cl = Constructing(prog, r, c, chain)
        ip = Interp(prog, cl)
        out = ip.run(init, cls=c)
        n += 1
        held |= cl.acquired
        for s, x, node in out.exc:
            for f in sorted(x2 for x2 in s.facts if x2[0] == 'held'):
                r.add('held|%s|%s' % (c.qname, f[1]), '%s:%d constructing a %s can fail here with what was acquired in self.%s still held'
                      % (init.module.rel, getattr(node, 'lineno', 0), c.name, f[1]))
    r.floor('constructors', n, 12)
    r.floor('acquired_by_constructors', len(held), 3)


def closes(f, cls, attr, seen):
    if f in seen:
        return False
    seen.add(f)
    self = (f.params or [None])[0]
    for n in walk_own(f.node):
        if n.t == 'Call' and n.func.t == 'Attribute':
            v = n.func.value
            if n.func.attr == 'close' and v.t == 'Attribute' and v.attr == attr:
                return True
            if n.func.attr == 'ReleaseConnection' and any(a.t == 'Attribute' and a.attr == attr for a in n.args):
                return True
            if v.t == 'Name' and v.id == self:
                g = cls.find(n.func.attr)
                if g is not None and closes(g, cls, attr, seen):
                    return True
            if v.t == 'Call' and v.func.t == 'Name' and v.func.id == 'super' and f.cls is not None:
                g = cls.find_after(f.cls, n.func.attr)
                if g is not None and closes(g, cls, attr, seen):
                    return True
        if n.t == 'Attribute' and n.attr == attr and n.ctx == 'Load':
            u = getattr(n, 'up', None)
            if u is not None and u.t == 'Assign' and u.value is n:      # c=self.x ... c.close()
                names = [t.id for t in u.targets if t.t == 'Name']
                for m in walk_own(f.node):
                    if m.t == 'Call' and m.func.t == 'Attribute' and m.func.attr == 'close' and m.func.value.t == 'Name' and m.func.value.id in names:
                        return True
    return False


def analyse(prog, pid, tier):
    r = Result()
    root = prog.cls('pyslet.odata2.csdl', 'EntityCollection')
    funcs = [f for f in prog.all_funcs if not f.module.name.startswith('legacy')]
    for m in set(f.module for f in funcs):
        link(m.tree)

    def calls(f, names):
        return any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in names for n in walk_own(f.node))
    openers = set(f for f in funcs if calls(f, OPENERS))
    # functions that may close what they are given
    helpers = set(f for f in funcs if f not in openers and not f.is_generator and len(f.params or ()) > 1 and
                  any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr == 'close' and n.func.value.t == 'Name' and
                      n.func.value.id in f.params[0 if f.cls is None else 1:] for n in walk_own(f.node)))
    handers = {}
    members = set(openers)
    while True:
        # functions whose result may be a collection they opened
        more = False
        cl = Closing(prog, Result(), root, set(), members, helpers)
        ip = Interp(prog, cl)
        for f in sorted(members, key=lambda f: f.qname):
            if f.is_generator or f.name in handers or f.name in OPENERS:
                continue
            ip.memo = {}
            out = ip.run(f)
            if any(tokens(v) & s.facts for s, v, n in out.ret):
                handers[f.name] = f
                more = True
        new = set(f for f in funcs if calls(f, set(handers))) - members
        if not more and not new:
            break
        members |= new
    cl = Closing(prog, r, root, set(handers), members, helpers)
    ip = Interp(prog, cl)
    paths = 0
    for f in sorted(members, key=lambda f: f.qname):
        ip.memo = {}
        out = ip.run(f)
        for s, v, node in out.ret:
            paths += 1
            left = s.facts - tokens(v)
            for site in sorted(left):
                if site[0] != f.qname and site[0] in [g.qname for g in members if g is not f and g.name not in handers]:
                    continue
                cl.rep(node, f, 'left open', 'returns without closing the collection opened in line %d' % site[1])
        for s, x, node in out.exc:
            paths += 1
            if x == 'GeneratorExit':
                continue
            for site in sorted(s.facts):
                if site[0] != f.qname and site[0] in [g.qname for g in members if g is not f and g.name not in handers]:
                    continue
                cl.rep(node, f, 'left open', 'can fail without closing the collection opened in line %d' % site[1])
    constructors(prog, root, r)
    r.floor('opening_functions', len(openers), 20)
    r.floor('opening_calls', len(cl.sites), 30)
    r.coverage['functions'] = len(members)
    r.coverage['handed_to_the_caller_by'] = sorted(f.qname for f in handers.values())
    r.coverage['kept_by_objects'] = sorted('%s.%s' % x for x in cl.kept)
    r.coverage['ends_of_paths'] = paths
    r.files = sorted(set(f.module.rel for f in members))
    r.rules = ['on every way out each opened collection is closed, returned, or kept by an object whose close() closes it']
    r.samples = sorted(f.qname for f in members)
    r.explanation = ('Every function that opens a collection, and every function that receives one opened for it, was followed along all '
                     'its paths, exceptions included.')
    r.assumptions = ['Any call may raise, except close().', 'An object that keeps a collection is itself closed by its owner.',
                     'Constructors of collections fail where they open, acquire, execute or raise.']
    return r
