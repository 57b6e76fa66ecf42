"""C05: a database transaction always ends, in the right way.
C06: the further changes a change needs are made in the same transaction.

Typestate of the SQLTransaction object over every path, exception edges and
abandoned generators included.  Functions that both begin and close a
transaction are entry points and balanced for their callers; other functions
handed the transaction are entered."""
from ..interp import Client, Interp, Frame, ANY, av, NONE, TOP, TRUTHY, FALSE, TRUE, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

TXN_METHODS = ('Begin', 'Execute', 'Commit', 'Rollback', 'Close')
OWN, GIVEN = ('txn', 'own'), ('txn', 'given')
COLL = ('coll',)
MUTATORS = ('InsertEntity', 'UpdateEntity', 'Update', 'Delete', 'Commit', 'clear', 'Replace', 'InsertEntityFromXML')
READS = ('values', 'itervalues', 'items', 'iteritems', 'keys', 'iterkeys', 'iterpage', 'get', 'has_key', '__getitem__',
         '__len__', 'GetPage', 'GetEntity')


def txn_calls(func):
    """{local name: set of transaction methods called on it}"""
    if getattr(func, '_txn', None) is None:
        d = {}
        for n in walk_own(func.node):
            if n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in TXN_METHODS and n.func.value.t == 'Name':
                d.setdefault(n.func.value.id, set()).add(n.func.attr)
        func._txn = d
    return func._txn


class Txn(Client):
    max_states = 80
    init_facts = (0, 'clean')        # begun in this function, status ('!': begin failed)
    max_depth = 4

    def __init__(self, mod, tclass, cands, names):
        self.mod, self.tclass, self.cands, self.names = mod, tclass, cands, names
        self.counts = {'begin': 0, 'execute': 0, 'nested': 0, 'commit': 0, 'rollback': 0, 'close': 0}
        self.seen = set()
        self.want = False
        self.c5, self.c6 = {}, {}
        self.gen = False

    def note(self, kind, fr, node):
        if (kind, id(node)) not in self.seen:
            self.seen.add((kind, id(node)))
            self.counts[kind] += 1

    def rep(self, table, ip, fr, node, rule, what):
        f = fr
        while f.caller is not None:
            f = f.caller
        k = '%s|%s|%s' % (rule, f.func.qname, what)
        if k not in table:
            table[k] = '%s:%d %s: %s (%s)' % (fr.module.rel, getattr(node, 'lineno', 0), rule, what, fr.trail())

    def balanced(self, func):
        d = txn_calls(func)
        return any('Begin' in s for s in d.values())

    def relevant(self, ip, func):
        if func.module is not self.mod or func.cls is self.tclass:
            return False
        if func.name.startswith('__'):
            return False
        if self.balanced(func):
            return False
        if any(p in self.names for p in func.params if p) and not self.want:
            return False
        if self.want:
            return True
        for n in walk_own(func.node):
            if n.t == 'Call' and n.func.t == 'Attribute' and (n.func.attr in self.cands or n.func.attr == 'OpenCollection'
                                                              or n.func.attr in MUTATORS):
                return True
        return False

    def is_txn(self, v):
        return OWN in v or GIVEN in v

    def active(self, st):
        """a transaction is under way here"""
        if st.facts[0] > 0:
            return True
        for k, v in st.env.items():
            if '.' not in k and GIVEN in v and NONE not in v:
                return True
        return False

    def with_enter(self, ip, fr, st, node, ctx, path):
        e = node.context_expr
        if e.t == 'Call' and e.func.t == 'Attribute' and e.func.attr == 'OpenCollection':
            return st, av(COLL), None
        return st, (ctx if ctx != TOP else TOP), None

    def raise_any(self, ip, fr, st, node):
        ip.throw(fr, st, ANY, node)

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        self.want = any(self.is_txn(v) for v in list(args) + list(kw.values()))
        if callee is not None and callee[0] == 'class' and callee[1] is self.tclass:
            return [(st, av(OWN))]
        if f.t != 'Attribute':
            return None
        depth, status = st.facts
        if f.attr in TXN_METHODS and f.value.t == 'Name' and self.is_txn(st.env.get(f.value.id, ())):
            val = st.env[f.value.id]
            if f.attr == 'Begin':
                self.note('begin', fr, node)
                self.raise_any(ip, fr, st.with_facts((depth, '!clean' if depth == 0 and status == 'clean' else status)), node)
                if depth > 0:
                    self.rep(self.c5, ip, fr, node, 'begun twice', 'the transaction is begun twice on this path')
                if status in ('committed', 'rolledback'):
                    self.rep(self.c5, ip, fr, node, 'begun again', 'the transaction is begun again after it has ended')
                return [(st.with_facts((min(depth + 1, 2), status)), av(NONE))]
            if f.attr == 'Execute':
                self.note('execute', fr, node)
                if depth == 0 and GIVEN not in val:
                    self.rep(self.c5, ip, fr, node, 'not begun', 'a statement is executed outside a transaction')
                if status in ('committed', 'rolledback'):
                    self.rep(self.c5, ip, fr, node, 'after the end',
                             'a statement is executed after the transaction was committed or rolled back')
                s2 = st.with_facts((depth, 'dirty'))
                self.raise_any(ip, fr, s2, node)
                return [(s2, av(NONE))]
            if f.attr == 'Commit':
                self.note('commit', fr, node)
                if status == 'rolledback':
                    self.rep(self.c5, ip, fr, node, 'commit after rollback', 'the transaction is committed after it was rolled back')
                self.raise_any(ip, fr, st, node)
                return [(st.with_facts((depth, 'committed')), av(NONE))]
            if f.attr == 'Rollback':
                self.note('rollback', fr, node)
                if status == 'committed':
                    self.rep(self.c5, ip, fr, node, 'fails after commit', 'an error is handled by a rollback after the commit')
                s2 = st.with_facts((depth, '!rolledback' if status[0] == '!' else 'rolledback'))
                err = args[0] if args else kw.get('err', av(NONE))
                sw = args[1] if len(args) > 1 else kw.get('swallowErr', av(FALSE))
                out = []
                if NONE in err or any(truth(a) is not False for a in sw):
                    out.append((s2, av(NONE)))
                if any(a != NONE for a in err) and any(truth(a) is not True for a in sw):
                    for x in ip.exc_of(frozenset(a for a in err if a != NONE), node, fr):
                        ip.throw(fr, s2, x, node)
                return out
            if f.attr == 'Close':
                self.note('close', fr, node)
                if depth == 0 and status[0] != '!' and GIVEN in val and NONE not in val:
                    self.rep(self.c5, ip, fr, node, 'closed twice', 'a transaction of the caller is closed without having been begun here')
                return [(st.with_facts((max(depth - 1, 0), status)), av(NONE))]
        if f.attr in self.cands:
            act = self.active(st)
            ok = True
            for g in self.cands[f.attr]:
                b = self.binding(g, node, args, kw, callee)
                if b is None:
                    continue
                self.note('nested', fr, node)
                if act and not (self.is_txn(b) and NONE not in b):
                    ok = False
            if not ok:
                self.rep(self.c6, ip, fr, node, 'own transaction',
                         'the transaction under way is not handed to %s' % f.attr)
            if act and status in ('committed', 'rolledback'):
                self.rep(self.c5, ip, fr, node, 'after the end',
                         '%s is called after the transaction was committed or rolled back' % f.attr)
            if callee is not None and callee[0] in ('func', 'bound') and self.want and not self.balanced(callee[1]) \
                    and self.relevant(ip, callee[1]) and not self.stub(callee[1]):
                return None
            if self.want:
                s2 = st.with_facts((depth, 'dirty' if depth else status))
                self.raise_any(ip, fr, s2, node)
                return [(s2, TOP)]
            self.raise_any(ip, fr, st, node)
            return [(st, TOP)]
        if self.want and callee is not None and callee[0] in ('func', 'bound') and self.balanced(callee[1]):
            s2 = st.with_facts((depth, 'dirty' if depth else status))
            self.raise_any(ip, fr, s2, node)
            return [(s2, TOP)]
        if self.active(st):
            recv = st.env.get(recv_path, ()) if recv_path else ()
            if f.attr in MUTATORS and not (f.attr == 'Commit' and not recv) and (
                    COLL in recv or f.attr in ('InsertEntity', 'UpdateEntity', 'Replace')):
                self.rep(self.c6, ip, fr, node, 'own transaction', '%s makes its change in a transaction of its own' % f.attr)
            if f.attr in READS and COLL in recv:
                self.rep(self.c6, ip, fr, node, 'commits what is under way',
                         'reading a collection by %s commits the transaction under way on the same connection' % f.attr)
        if callee is not None and callee[0] == 'ext' and callee[1] == 'len' and args and COLL in args[0] and self.active(st):
            self.rep(self.c6, ip, fr, node, 'commits what is under way',
                     'reading a collection by len commits the transaction under way on the same connection')
        return None

    def stub(self, func):
        b = [s for s in func.node.body if not (s.t == 'Expr' and s.value.t == 'Str')]
        return len(b) == 1 and b[0].t == 'Raise'

    def binding(self, g, node, args, kw, callee):
        """the abstract value bound to the transaction parameter of g; None if g does not accept the call"""
        params = [p for p in g.params]
        if g.cls is not None and not g.is_static:
            params = params[1:]
        if node.starargs is not None or node.kwargs is not None:
            return None
        if len(args) > len(params):
            return None
        bound = dict(zip(params, args))
        for k, v in kw.items():
            if k not in params or k in bound:
                return None
            bound[k] = v
        nd = len(g.node.args.defaults or [])
        need = params[:len(params) - nd] if nd else params
        if any(p not in bound for p in need):
            return None
        t = [p for p in params if p in self.names]
        return bound.get(t[0], av(NONE)) if t else None

    def subscript_load(self, ip, fr, st, node, base, index):
        if COLL in base:
            if self.active(st):
                self.rep(self.c6, ip, fr, node, 'commits what is under way',
                         'reading a collection by key commits the transaction under way on the same connection')
            self.raise_any(ip, fr, st, node)
            return [(st, TOP)]
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if COLL in base and self.active(st):
            self.rep(self.c6, ip, fr, node, 'own transaction', 'a collection item is set in a transaction of its own')
        return st

    def on_yield(self, ip, fr, st, node, value):
        ip.throw(fr, st, 'GeneratorExit', node)
        return st

    def for_element(self, ip, fr, st, node, itv):
        if COLL in itv and self.active(st):
            self.rep(self.c6, ip, fr, node, 'commits what is under way',
                     'iterating over a collection commits the transaction under way on the same connection')
        return None

    def check_exits(self, ip, fr, out, given):
        for st, v, node in out.ret:
            d, s = st.facts
            if d > 0:
                self.rep(self.c5, ip, fr, node, 'left open', 'returns with the transaction still open')
            if s == 'dirty' and self.owns:
                self.rep(self.c5, ip, fr, node, 'not committed', 'returns normally without committing what was executed')
            if s == 'rolledback' or s[0] == '!':
                self.rep(self.c5, ip, fr, node, 'error swallowed', 'returns normally although the transaction was rolled back')
        for st, x, node in out.exc:
            d, s = st.facts
            if d > 0:
                self.rep(self.c5, ip, fr, node, 'left open', 'an exception leaves the transaction open')
            if x == 'GeneratorExit':
                continue
            if s == 'dirty' and self.owns:
                self.rep(self.c5, ip, fr, node, 'not rolled back', 'an exception leaves what was executed neither committed nor rolled back')
            if s == 'committed' and x != ANY:
                self.rep(self.c5, ip, fr, node, 'fails after commit', 'an error is raised after the transaction was committed')


class Obj(Client):
    """the transaction class itself: calls on the connection and cursor"""
    max_states = 60
    init_facts = ()

    def relevant(self, ip, func):
        return func.cls is not None and func.cls.name == self.cname

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr in ('commit', 'rollback', 'cursor', 'execute', 'close'):
            p = recv_path or ''
            w = f.attr if p.endswith('.dbc') or p.endswith('.cursor') else None
            if w is None:
                base = st.env.get(p, ())
                if ('dbc',) in base or ('cur',) in base:
                    w = f.attr
            if w:
                extra = ()
                if w == 'execute':
                    extra = (args[0], args[1] if len(args) > 1 else av(NONE))
                return [(st.with_facts(st.facts + ((w,) + extra,)), av(('cur',)) if w == 'cursor' else TOP)]
        return None

    def binop(self, ip, fr, st, node, l, r):
        return None


def check_class(prog, tclass, res):
    """transfer functions of the transaction class, by abstract interpretation from each nesting state"""
    me = 'self'

    def run(name, nest, cursor, args=None):
        f = tclass.find(name)
        if f is None:
            raise AnalysisBroken('%s has no %s' % (tclass.name, name))
        cl = Obj()
        cl.cname = tclass.name
        ip = Interp(prog, cl)
        s = f.params[0]
        env = {s + '.noCommit': av(('k', 'int', nest)), s + '.cursor': av(('cur',)) if cursor else av(NONE),
               s + '.dbc': av(('dbc',))}
        for k, v in (args or {}).items():
            if k in f.params:
                env[k] = v
        out = ip.run(f, cls=tclass, env=env)
        return f, s, out

    def bad(f, what, node=None):
        res['class|%s|%s' % (f.qname, what)] = '%s:%d transaction class: %s (%s)' % (
            f.module.rel, getattr(node, 'lineno', f.node.lineno), what, f.qname)

    def names(st):
        return [x[0] for x in st.facts]

    def val(st, p):
        return st.env.get(p)
    n = 0
    for nest in (0, 1, 2):
        f, s, out = run('Commit', nest, True)
        for st, v, node in out.ret:
            n += 1
            if nest and 'commit' in names(st):
                bad(f, 'a nested commit commits the outer transaction', node)
            if not nest and 'commit' not in names(st):
                bad(f, 'commit does not commit', node)
            if val(st, s + '.noCommit') != av(('k', 'int', nest)):
                bad(f, 'commit changes the nesting count', node)
        for swallow in (True, False):
            for err in (True, False):
                f, s, out = run('Rollback', nest, True, {
                    'err': av(('err',)) if err else av(NONE), 'swallowErr': av(TRUE if swallow else FALSE)})
                for st, v, node in out.ret:
                    n += 1
                    if not nest and 'rollback' not in names(st):
                        bad(f, 'rollback does not roll back', node)
                    if nest and 'rollback' in names(st):
                        bad(f, 'a nested rollback rolls back the outer transaction itself', node)
                    if err and not swallow:
                        bad(f, 'rollback does not raise the error it is given', node)
                for st, x, node in out.exc:
                    n += 1
                    if not nest and 'rollback' not in names(st):
                        bad(f, 'rollback raises before it rolls back', node)
        f, s, out = run('Close', nest, True)
        for st, v, node in out.ret:
            n += 1
            if nest and (val(st, s + '.noCommit') != av(('k', 'int', nest - 1)) or 'close' in names(st) or val(st, s + '.cursor') != av(('cur',))):
                bad(f, 'a nested close does not just leave one level', node)
            if not nest and ('close' not in names(st) or val(st, s + '.cursor') != av(NONE)):
                bad(f, 'the outermost close does not release the cursor', node)
        for cursor in (False, True):
            if not cursor and nest:
                continue
            f, s, out = run('Begin', nest, cursor)
            for st, v, node in out.ret:
                n += 1
                if cursor and (val(st, s + '.noCommit') != av(('k', 'int', nest + 1)) or 'cursor' in names(st)):
                    bad(f, 'a nested begin does not just enter one level', node)
                if not cursor and (val(st, s + '.cursor') != av(('cur',)) or val(st, s + '.noCommit') != av(('k', 'int', 0))):
                    bad(f, 'the outermost begin does not open a cursor', node)
    f, s, out = run('Close', 0, False)
    for st, v, node in out.ret:
        n += 1
        if 'close' in names(st):
            bad(f, 'closes a cursor that is not there', node)
    return n


def analyse(prog, pid, tier):
    r = Result()
    mod = prog.module('pyslet.odata2.sqlds')
    tclass = prog.cls('pyslet.odata2.sqlds', 'SQLTransaction')
    funcs = [f for c in mod.classes.values() for f in c.methods.values()] + list(mod.funcs.values())
    names = set()
    for f in funcs:
        if f.cls is tclass:
            continue
        for nm, s in txn_calls(f).items():
            if nm in f.params and ('Begin' in s or 'Execute' in s):
                names.add(nm)
    cands = {}
    for f in funcs:
        if f.cls is not tclass and any(p in names for p in f.params if p):
            cands.setdefault(f.name, []).append(f)
    if not names or len(cands) < 4:
        raise AnalysisBroken('no functions with a transaction parameter found')
    cl = Txn(mod, tclass, cands, names)
    entries = 0
    for f in funcs:
        if f.cls is tclass:
            continue
        given = [p for p in f.params if p in names]
        begins = any('Begin' in s for s in txn_calls(f).values())
        makes = any(n.t == 'Call' and n.func.t == 'Name' and n.func.id == tclass.name for n in walk_own(f.node))
        if not (given or begins or makes):
            continue
        if cl.stub(f):
            continue
        variants = [None]
        if given:
            dflt = len(f.node.args.defaults or []) >= len(f.params) - f.params.index(given[0])
            variants = ['given', 'none'] if dflt else ['given']
        for v in variants:
            entries += 1
            cl.owns = begins or makes
            ip = Interp(prog, cl)
            env = {}
            if v == 'given':
                env[given[0]] = av(GIVEN)
            elif v == 'none':
                env[given[0]] = av(NONE)
            out = ip.run(f, env=env)
            cl.check_exits(ip, Frame(f, f.cls, 0), out, v)
    nobj = check_class(prog, tclass, cl.c5)
    table = cl.c5 if pid == 'C05' else cl.c6
    for k, t in table.items():
        r.add(k, t)
    for k, v in cl.counts.items():
        r.coverage['sites_' + k] = v
    r.floor('entry_functions', entries, 20)
    r.floor('sites_nested', cl.counts['nested'], 15)
    r.floor('sites_execute', cl.counts['execute'], 12)
    r.floor('class_transitions', nobj, 15)
    r.files = ['pyslet/pyslet/odata2/sqlds.py']
    if pid == 'C05':
        r.rules = ['left open', 'not committed', 'not rolled back', 'error swallowed', 'fails after commit', 'after the end',
                   'not begun', 'begun twice', 'closed twice', 'class']
        r.explanation = ('Typestate of the transaction along every path (exceptions at every call, abandoned generators) of '
                         'every function that begins or is handed one, and the transfer functions of the transaction class.')
    else:
        r.rules = ['own transaction', 'commits what is under way']
        r.explanation = ('At every call made while a transaction is under way, the transaction parameter of every function '
                         'the call can reach is bound to it, and nothing is called that ends it on the shared connection.')
    r.assumptions = ['closing a cursor does not raise', 'collections opened in one thread share one connection']
    return r
