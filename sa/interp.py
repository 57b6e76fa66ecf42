"""A path-sensitive abstract interpreter over the syntax trees.

States are pairs (facts, env).  `facts` is the property automaton's state, a
hashable value the client owns; `env` maps access paths ('x', 'self.a.b') to
abstract values.  States with the same merge key (facts plus the values of
the function's branch variables) are joined, as in property simulation (ESP);
loops run to a fixed point; calls to repository functions the client finds
relevant are entered, with memoised summaries, so that extracting a helper or
inlining one does not change a verdict.  Every call that is not entered may
raise.

Abstract values are frozensets of atoms:
   NONE, TRUTHY, FALSY           unknown values by truthiness
   ('k', tag, value)             a constant
   ('class', C) ('func', F) ('mod', M) ('ext', name)
   ('bound', F, path)            a bound method
   ('inst', C)                   an instance of a repository class
   ('tup', (av, av...))          a tuple/list display of known length
   ('unbound',)                  a local not yet assigned
   anything else                 tokens of the client (truthy)
"""
from . import model
from .frontend import walk, children, Node
from .model import Class, External, Func, dotted, target_names, walk_own, bound_by

NONE = ('none',)
TRUTHY = ('truthy',)
FALSY = ('falsy',)
UNBOUND = ('unbound',)
TOP = frozenset([NONE, TRUTHY, FALSY])
NOTNONE = frozenset([TRUTHY, FALSY])
ANY = 'ANY'         # an exception of unknown class

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'StandardError': 'Exception',
    'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException',
    'StopIteration': 'Exception', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'DeprecationWarning': 'Warning',
    'ArithmeticError': 'StandardError', 'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'AssertionError': 'StandardError', 'AttributeError': 'StandardError',
    'EnvironmentError': 'StandardError', 'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError',
    'EOFError': 'StandardError', 'ImportError': 'StandardError', 'LookupError': 'StandardError',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'MemoryError': 'StandardError',
    'NameError': 'StandardError', 'UnboundLocalError': 'NameError', 'ReferenceError': 'StandardError',
    'RuntimeError': 'StandardError', 'NotImplementedError': 'RuntimeError', 'SyntaxError': 'StandardError',
    'SystemError': 'StandardError', 'TypeError': 'StandardError', 'ValueError': 'StandardError',
    'UnicodeError': 'ValueError', 'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
}


def const(v):
    if v is None:
        return NONE
    return ('k', type(v).__name__ if not isinstance(v, str) else 'str', str(v) if isinstance(v, str) else v)


def av(*atoms):
    return frozenset(atoms)


def avk(v):
    return frozenset([const(v)])


TRUE = const(True)
FALSE = const(False)
BOOL = frozenset([TRUE, FALSE])


def truth(atom):
    """True, False or None (either)"""
    if atom == NONE or atom == FALSY:
        return False
    if atom[0] == 'k':
        return bool(atom[2])
    if atom[0] == 'tup':
        return bool(atom[1])
    if atom == UNBOUND:
        return None
    if atom[0] == 'either':
        return None
    return True


def widen(a, limit=16):
    if len(a) <= limit:
        return a
    out = set()
    for x in a:
        if x[0] == 'k':
            out.add(TRUTHY if x[2] else FALSY)
        else:
            out.add(x)
    return frozenset(out)


def join_av(a, b):
    if a is b or a == b:
        return a
    return widen(a | b)


class State(object):
    __slots__ = ('facts', 'env')

    def __init__(self, facts, env):
        self.facts, self.env = facts, env

    def set(self, path, value):
        env = dict(self.env)
        kill(env, path)
        env[path] = value
        return State(self.facts, env)

    def with_facts(self, facts):
        return State(facts, self.env)


def kill(env, path):
    pre = path + '.'
    for k in [k for k in env if k == path or k.startswith(pre)]:
        del env[k]


def join_env(a, b):
    if a is b:
        return a
    out = {}
    for k, v in a.items():
        if k in b:
            out[k] = join_av(v, b[k])
        elif '.' not in k:
            # a plain local unknown on the other side
            out[k] = v
    for k, v in b.items():
        if k not in a and '.' not in k:
            out[k] = v
    return out


class StateSet(object):
    """states indexed by merge key"""

    def __init__(self, interp, frame):
        self.d = {}
        self.interp, self.frame = interp, frame

    def add(self, st):
        """returns True when something new was added"""
        k = self.interp.merge_key(st, self.frame)
        if len(self.d) > self.interp.max_states and k not in self.d:
            k = ('merged', st.facts)
        o = self.d.get(k)
        if o is None:
            self.d[k] = st
            return True
        e = join_env(o.env, st.env)
        if e == o.env:
            return False
        self.d[k] = State(st.facts, e)
        return True

    def update(self, it):
        ch = False
        for s in it:
            if self.add(s):
                ch = True
        return ch

    def __iter__(self):
        return iter(list(self.d.values()))

    def __len__(self):
        return len(self.d)


class Out(object):
    """outcomes of a block"""

    def __init__(self):
        self.normal = []
        self.ret = []       # (State, av, node)
        self.exc = []       # (State, exc, node)
        self.brk = []
        self.cont = []


class Frame(object):
    def __init__(self, func, cls, depth, caller=None, callnode=None):
        self.func, self.cls, self.depth, self.caller, self.callnode = func, cls, depth, caller, callnode
        self.excs = []      # exceptions raised while evaluating the current statement
        self.handling = []  # stack of exceptions being handled
        self.branch = branch_vars(func)
        self.temps = 0

    @property
    def module(self):
        return self.func.module

    def trail(self):
        out = []
        f = self
        while f is not None:
            out.append(f.func.qname)
            f = f.caller
        return ' <- '.join(out)


def branch_vars(func):
    """local names tested bare in branch conditions of the function"""
    if getattr(func, '_branch', None) is not None:
        return func._branch
    names = set()

    def atoms(e):
        if e.t == 'BoolOp':
            for v in e.values:
                atoms(v)
        elif e.t == 'UnaryOp' and e.op == 'Not':
            atoms(e.operand)
        elif e.t == 'Name':
            names.add(e.id)
        elif e.t == 'Compare' and len(e.ops) == 1 and e.left.t == 'Name' and e.ops[0] in (
                'Is', 'IsNot', 'Eq', 'NotEq', 'In', 'NotIn', 'Gt', 'GtE', 'Lt', 'LtE'):
            names.add(e.left.id)
    nodes = walk_own(func.node)
    for n in nodes:
        if n.t in ('If', 'While', 'IfExp'):
            atoms(n.test)
        elif n.t == 'Assert':
            atoms(n.test)
    func._branch = frozenset(names & func.locals)
    return func._branch


PURE_BUILTINS = set('''isinstance issubclass len str unicode repr int long float bool type id hash
hasattr callable tuple list dict set frozenset range xrange min max sum abs ord chr unichr sorted
reversed enumerate zip map filter iter getattr any all super cmp'''.split())


class Client(object):
    """default behaviour; the properties override what they need"""
    max_depth = 12
    max_states = 48
    init_facts = ()
    track_unbound = False

    def relevant(self, interp, func):
        """enter calls to this function?"""
        return False

    def call(self, interp, frame, st, node, callee, recv_path, args, kwargs):
        """handle a call event.  Return None for the default treatment or a
        list of (state, av)."""
        return None

    def opaque_raises(self, interp, frame, st, node, callee):
        return (ANY,)

    def opaque_result(self, interp, frame, st, node, callee, args):
        return TOP

    def opaque_havoc(self, interp, frame, st, node, recv_path, args):
        """paths forgotten by an opaque call: default those below receiver and arguments"""
        return True

    def attr_load(self, interp, frame, st, node, base, path):
        return None

    def attr_store(self, interp, frame, st, node, base, path, value):
        return st

    def attr_delete(self, interp, frame, st, node):
        return st

    def subscript_load(self, interp, frame, st, node, base, index):
        return None

    def subscript_store(self, interp, frame, st, node, base, index, value):
        return st

    def subscript_raises(self, interp, frame, st, node):
        return ()

    def name_load(self, interp, frame, st, node, value):
        return None

    def with_enter(self, interp, frame, st, node, ctx, path):
        """returns (state, value bound, token)"""
        return st, TOP, None

    def with_exit(self, interp, frame, st, node, token):
        return st

    def on_return(self, interp, frame, st, node, value):
        return st

    def on_raise(self, interp, frame, st, node, exc):
        return st

    def on_yield(self, interp, frame, st, node, value):
        return st

    def binop(self, interp, frame, st, node, left, right):
        return None

    def tuple_display(self, interp, frame, st, node, values):
        return st

    def list_display(self, interp, frame, st, node, values):
        return None

    def comp(self, interp, frame, st, node, parts):
        """comprehensions: None or a list of (state, av)"""
        return None

    export_roots = False        # parameters of list kind flow back to the caller

    def on_enter(self, interp, frame, st, env):
        """-> (facts of the callee, env of the callee, token)"""
        return st.facts, env, None

    def on_leave(self, token, facts, value, cenv, env):
        """-> (facts, value, callee env, caller env)"""
        return facts, value, cenv, env

    def refine(self, interp, frame, st, test, sense):
        """extra refinement for atomic tests: None, or a list of states"""
        return None

    def loop_head(self, interp, frame, st, node):
        """applied to each state that starts an iteration"""
        return st

    def loop_back(self, interp, frame, st, node):
        """applied to each state that completes an iteration"""
        return st

    def for_element(self, interp, frame, st, node, itervalue):
        return None

    def stmt(self, interp, frame, st, node):
        return st

    def truthiness(self, atom):
        return truth(atom)

    def unpack(self, atom, n):
        """the tuple of n values an atom of the client stands for, or None"""
        return None

    def merge_key(self, st, frame):
        return None

    def key_extra(self, st, frame):
        return None

    def resolve_unknown(self, interp, frame, st, node, name):
        """functions an attribute call on an unknown receiver may reach"""
        return ()


class Interp(object):
    def __init__(self, prog, client):
        self.prog, self.client = prog, client
        self.max_states = client.max_states
        self.memo = {}
        self.stack = []
        self.reports = {}
        self.entered = set()
        self.stats = {'functions_entered': 0, 'statements': 0, 'calls_entered': 0, 'calls_opaque': 0}

    # ------------------------------------------------------------ reports
    def report(self, frame, node, rule, what, key=None):
        k = (rule, frame.func.qname, key or what)
        if k not in self.reports:
            self.reports[k] = '%s:%d %s: %s (%s)' % (
                frame.module.rel, getattr(node, 'lineno', 0), rule, what, frame.trail())

    # ------------------------------------------------------------ keys
    def merge_key(self, st, frame):
        k = self.client.merge_key(st, frame)
        if k is not None:
            return k
        bv = []
        for n in frame.branch:
            v = st.env.get(n)
            if v is not None:
                bv.append((n, tuple(sorted(set(self._kc(x) for x in v)))))
        bv.sort()
        return (st.facts, tuple(bv), self.client.key_extra(st, frame))

    @staticmethod
    def _kc(x):
        if x == NONE:
            return 'N'
        if x == UNBOUND:
            return 'U'
        t = truth(x)
        if x[0] == 'k':
            return 'K%r' % (x[2],)
        return 'T' if t else ('F' if t is False else '?')

    # ------------------------------------------------------------ entry
    def run(self, func, cls=None, env=None, facts=None):
        """analyse one function as an entry point -> Out"""
        cls = cls or func.cls
        fr = Frame(func, cls, 0)
        e = {}
        for p in func.params:
            if p is not None:
                e[p] = TOP
        a = func.node.args
        for x in a.args or []:
            for nm in target_names(x):
                e.setdefault(nm, TOP)
        if a.vararg:
            e[a.vararg] = NOTNONE
        if a.kwarg:
            e[a.kwarg] = NOTNONE
        if func.cls is not None and func.params and not func.is_static:
            e[func.params[0]] = av(('inst', cls)) if not func.is_classmethod else av(('class', cls))
        if env:
            e.update(env)
        if self.client.track_unbound:
            for nm in func.locals:
                e.setdefault(nm, av(UNBOUND))
        self.entered.add(func)
        st = State(self.client.init_facts if facts is None else facts, e)
        return self.body(func, [st], fr)

    def body(self, func, states, fr):
        self.stats['functions_entered'] += 1
        if func.node.t == 'Lambda':
            out = Out()
            for st in states:
                for s, v in self.ev(func.node.body, st, fr):
                    out.ret.append((s, v, func.node))
            out.exc.extend(fr.excs)
            fr.excs = []
            return out
        out = self.block(func.node.body, states, fr)
        for st in out.normal:
            st = self.client.on_return(self, fr, st, func.node, av(NONE))
            if st is not None:
                out.ret.append((st, av(NONE), func.node))
        out.normal = []
        return out

    # ------------------------------------------------------------ blocks
    def merge(self, states, fr):
        if len(states) <= 1:
            return states
        ss = StateSet(self, fr)
        ss.update(states)
        return list(ss)

    def block(self, stmts, states, fr):
        out = Out()
        cur = self.merge(list(states), fr)
        for s in stmts:
            if not cur:
                break
            o = self.stmt(s, cur, fr)
            out.ret.extend(o.ret)
            out.exc.extend(o.exc)
            out.brk.extend(o.brk)
            out.cont.extend(o.cont)
            cur = self.merge(o.normal, fr)
        out.normal = cur
        self.squash(out, fr)
        return out

    def squash(self, out, fr):
        """join exceptional and return outcomes that do not differ"""
        if len(out.exc) > 8:
            g = {}
            for st, e, n in out.exc:
                k = (self.merge_key(st, fr), e)
                if k in g:
                    o = g[k]
                    g[k] = (State(st.facts, join_env(o[0].env, st.env)), e, o[2])
                else:
                    g[k] = (st, e, n)
            out.exc = list(g.values())
        if len(out.ret) > 8:
            g = {}
            for st, v, n in out.ret:
                k = (self.merge_key(st, fr), v, id(n))
                if k in g:
                    o = g[k]
                    g[k] = (State(st.facts, join_env(o[0].env, st.env)), v, n)
                else:
                    g[k] = (st, v, n)
            out.ret = list(g.values())
        for nm in ('brk', 'cont'):
            l = getattr(out, nm)
            if len(l) > 4:
                setattr(out, nm, self.merge(l, fr))

    def take_excs(self, fr, out):
        out.exc.extend(fr.excs)
        fr.excs = []

    def throw(self, fr, st, exc, node):
        fr.excs.append((st, exc, node))

    def stmt(self, n, states, fr):
        self.stats['statements'] += 1
        out = Out()
        states = [s for s in (self.client.stmt(self, fr, st, n) for st in states) if s is not None]
        m = getattr(self, 's_' + n.t, None)
        if m is None:
            raise model.AnalysisBroken('statement kind %s' % n.t)
        m(n, states, fr, out)
        self.take_excs(fr, out)
        return out

    def s_Pass(self, n, states, fr, out):
        out.normal = list(states)

    s_Global = s_Import = s_ImportFrom = None

    def s_Global(self, n, states, fr, out):
        out.normal = list(states)

    def s_Import(self, n, states, fr, out):
        for st in states:
            for b in bound_by(n):
                st = st.set(b, av(TRUTHY))
            out.normal.append(st)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, states, fr, out):
        f = getattr(n, '_func', None)
        for st in states:
            out.normal.append(st.set(n.name, av(('func', f)) if f else av(TRUTHY)))

    def s_ClassDef(self, n, states, fr, out):
        for st in states:
            out.normal.append(st.set(n.name, av(('class', n._class))))

    def s_Expr(self, n, states, fr, out):
        for st in states:
            for s, v in self.ev(n.value, st, fr):
                out.normal.append(s)

    def s_Print(self, n, states, fr, out):
        cur = list(states)
        for e in ([n.dest] if n.dest is not None else []) + list(n.values or []):
            cur = [s for st in cur for s, v in self.ev(e, st, fr)]
        out.normal = cur

    def s_Assert(self, n, states, fr, out):
        for st in states:
            t, f = self.cond(n.test, st, fr)
            out.normal.extend(t)
            for s in f:
                if n.msg is not None:
                    for s2, v in self.ev(n.msg, s, fr):
                        out.exc.append((s2, 'AssertionError', n))
                else:
                    out.exc.append((s, 'AssertionError', n))

    def s_Exec(self, n, states, fr, out):
        out.normal = list(states)

    def s_Delete(self, n, states, fr, out):
        for st in states:
            cur = [st]
            for t in n.targets:
                nxt = []
                for s in cur:
                    if t.t == 'Name':
                        nxt.append(s.set(t.id, av(UNBOUND)))
                    elif t.t == 'Subscript':
                        for s2, b in self.ev(t.value, s, fr):
                            for s3, i in self.ev_slice(t.slice, s2, fr):
                                for e in self.client.subscript_raises(self, fr, s3, t):
                                    self.throw(fr, s3, e, t)
                                nxt.append(self.client.subscript_store(self, fr, s3, t, b, i, None))
                    elif t.t == 'Attribute':
                        for s2, b in self.ev(t.value, s, fr):
                            s2 = self.client.attr_delete(self, fr, s2, t)
                            p = self.path(t)
                            if p:
                                env = dict(s2.env)
                                kill(env, p)
                                s2 = State(s2.facts, env)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                cur = [x for x in nxt if x is not None]
            out.normal.extend(cur)

    def s_Return(self, n, states, fr, out):
        for st in states:
            if n.value is None:
                res = [(st, av(NONE))]
            else:
                res = self.ev(n.value, st, fr)
            for s, v in res:
                s = self.client.on_return(self, fr, s, n, v)
                if s is not None:
                    out.ret.append((s, v, n))

    def s_Break(self, n, states, fr, out):
        out.brk = list(states)

    def s_Continue(self, n, states, fr, out):
        out.cont = list(states)

    def exc_of(self, v, n, fr):
        """exception classes named by an abstract value"""
        out = []
        for a in v:
            if a[0] in ('class', 'inst', 'exc'):
                out.append(a[1])
            elif a[0] == 'ext':
                out.append(a[1].rpartition('.')[2] if a[1] in BUILTIN_EXC else a[1])
            elif a[0] == 'extinst':
                out.append(a[1])
            else:
                out.append(ANY)
        return out or [ANY]

    def s_Raise(self, n, states, fr, out):
        for st in states:
            if n.type is None:
                exc = fr.handling[-1] if fr.handling else ANY
                s = self.client.on_raise(self, fr, st, n, exc)
                if s is not None:
                    out.exc.append((s, exc, n))
                continue
            for s, v in self.ev(n.type, st, fr):
                ss = [s]
                if n.inst is not None:
                    ss = [x for x, _ in self.ev(n.inst, s, fr)]
                for s2 in ss:
                    for e in self.exc_of(v, n, fr):
                        s3 = self.client.on_raise(self, fr, s2, n, e)
                        if s3 is not None:
                            out.exc.append((s3, e, n))

    def s_Assign(self, n, states, fr, out):
        for st in states:
            for s, v in self.ev(n.value, st, fr):
                cur = [s]
                for t in n.targets:
                    cur = [x for c in cur for x in self.assign(t, v, c, fr, n.value)]
                out.normal.extend(cur)

    def s_AugAssign(self, n, states, fr, out):
        t = n.target
        for st in states:
            fake = Node('BinOp')
            fake._fields = ['left', 'op', 'right']
            fake.lineno = n.lineno
            fake.op = n.op
            load = Node(t.t)
            load.__dict__.update(t.__dict__)
            load.t = t.t
            load.ctx = 'Load'
            fake.left = load
            fake.right = n.value
            fake.aug = True
            for s, v in self.ev(fake, st, fr):
                out.normal.extend(self.assign(t, v, s, fr, fake))

    def assign(self, t, v, st, fr, src=None):
        """-> list of states"""
        if t.t == 'Name':
            s = st.set(t.id, v)
            # copy what is known below the source path
            p = self.path(src) if src is not None else None
            if p and p != t.id:
                pre = p + '.'
                add = [(t.id + k[len(p):], x) for k, x in st.env.items() if k.startswith(pre)]
                if add:
                    env = dict(s.env)
                    env.update(add)
                    s = State(s.facts, env)
            return [s]
        if t.t == 'Attribute':
            res = []
            for s, b in self.ev(t.value, st, fr):
                p = self.path(t)
                s = self.client.attr_store(self, fr, s, t, b, p, v)
                if s is None:
                    continue
                env = dict(s.env)
                suffix = '.' + t.attr
                for k in [k for k in env if k.endswith(suffix) or (suffix + '.') in k]:
                    del env[k]
                if p:
                    env[p] = v
                res.append(State(s.facts, env))
            return res
        if t.t == 'Subscript':
            res = []
            for s, b in self.ev(t.value, st, fr):
                for s2, i in self.ev_slice(t.slice, s, fr):
                    s3 = self.client.subscript_store(self, fr, s2, t, b, i, v)
                    if s3 is not None:
                        res.append(s3)
            return res
        if t.t in ('Tuple', 'List'):
            parts = None
            v = frozenset(self.client.unpack(a, len(t.elts)) or a for a in v)
            tups = [a for a in v if a[0] == 'tup' and len(a[1]) == len(t.elts)]
            if tups and len(tups) == len(v):
                parts = [frozenset().union(*[a[1][i] for a in tups]) for i in range(len(t.elts))]
            cur = [st]
            for i, e in enumerate(t.elts):
                val = parts[i] if parts else TOP
                cur = [x for c in cur for x in self.assign(e, val, c, fr)]
            return cur
        return [st]

    def s_If(self, n, states, fr, out):
        T, F = [], []
        for st in states:
            t, f = self.cond(n.test, st, fr)
            T.extend(t)
            F.extend(f)
        self.take_excs(fr, out)
        if T:
            self.absorb(self.block(n.body, T, fr), out)
        if F:
            if n.orelse:
                self.absorb(self.block(n.orelse, F, fr), out)
            else:
                out.normal.extend(F)

    def absorb(self, o, out):
        out.normal.extend(o.normal)
        out.ret.extend(o.ret)
        out.exc.extend(o.exc)
        out.brk.extend(o.brk)
        out.cont.extend(o.cont)

    def s_While(self, n, states, fr, out):
        seen = StateSet(self, fr)
        work = [s for s in states]
        exits = []
        first = True
        rounds = 0
        while work:
            rounds += 1
            if rounds > 200:
                raise model.AnalysisBroken('no fixed point in %s' % fr.func.qname)
            fresh = []
            for s in work:
                s = self.client.loop_head(self, fr, s, n)
                if s is not None and seen.add(s):
                    fresh.append(seen.d.get(self.merge_key(s, fr), s))
            work = []
            if not fresh:
                break
            T = []
            for s in fresh:
                t, f = self.cond(n.test, s, fr)
                T.extend(t)
                exits.extend(f)
            self.take_excs(fr, out)
            if not T:
                continue
            o = self.block(n.body, T, fr)
            out.ret.extend(o.ret)
            out.exc.extend(o.exc)
            out.normal.extend(o.brk)
            for s in o.normal + o.cont:
                s = self.client.loop_back(self, fr, s, n)
                if s is not None:
                    work.append(s)
            work = self.merge(work, fr)
        exits = self.merge(exits, fr)
        if n.orelse and exits:
            o = self.block(n.orelse, exits, fr)
            self.absorb(o, out)
        else:
            out.normal.extend(exits)

    def s_For(self, n, states, fr, out):
        exits = []
        for st in states:
            for s0, itv in self.ev(n.iter, st, fr):
                seen = StateSet(self, fr)
                work = [s0]
                rounds = 0
                elem = self.client.for_element(self, fr, s0, n, itv)
                nonempty = False
                tups = [a for a in itv if a[0] == 'tup']
                if elem is None:
                    if tups and len(tups) == len(itv):
                        elem = frozenset().union(*[x for a in tups for x in a[1]]) if any(a[1] for a in tups) else frozenset()
                        nonempty = all(len(a[1]) > 0 for a in tups)
                    else:
                        elem = TOP
                firstround = True
                while work:
                    rounds += 1
                    if rounds > 200:
                        raise model.AnalysisBroken('no fixed point in %s' % fr.func.qname)
                    fresh = []
                    for s in work:
                        s = self.client.loop_head(self, fr, s, n)
                        if s is not None and seen.add(s):
                            fresh.append(seen.d.get(self.merge_key(s, fr), s))
                    work = []
                    if not fresh:
                        break
                    if not (nonempty and firstround):
                        exits.extend(fresh)
                    firstround = False
                    if not elem:
                        break
                    T = []
                    for s in fresh:
                        T.extend(self.assign(n.target, elem, s, fr))
                    for s in T:
                        for e in self.iter_raises(n, itv):
                            self.throw(fr, s, e, n)
                    self.take_excs(fr, out)
                    o = self.block(n.body, T, fr)
                    out.ret.extend(o.ret)
                    out.exc.extend(o.exc)
                    out.normal.extend(o.brk)
                    for s in o.normal + o.cont:
                        s = self.client.loop_back(self, fr, s, n)
                        if s is not None:
                            work.append(s)
                    work = self.merge(work, fr)
        exits = self.merge(exits, fr)
        if n.orelse and exits:
            o = self.block(n.orelse, exits, fr)
            self.absorb(o, out)
        else:
            out.normal.extend(exits)

    def iter_raises(self, n, itv):
        return ()

    def s_With(self, n, states, fr, out):
        for st in states:
            for s, ctx in self.ev(n.context_expr, st, fr):
                s2, val, tok = self.client.with_enter(self, fr, s, n, ctx, self.path(n.context_expr))
                if s2 is None:
                    continue
                cur = [s2]
                if n.optional_vars is not None:
                    cur = self.assign(n.optional_vars, val, s2, fr)
                self.take_excs(fr, out)
                o = self.block(n.body, cur, fr)
                cx = self.client.with_exit
                out.normal.extend(x for x in (cx(self, fr, q, n, tok) for q in o.normal) if x)
                out.brk.extend(x for x in (cx(self, fr, q, n, tok) for q in o.brk) if x)
                out.cont.extend(x for x in (cx(self, fr, q, n, tok) for q in o.cont) if x)
                for q, v, node in o.ret:
                    q = cx(self, fr, q, n, tok)
                    if q:
                        out.ret.append((q, v, node))
                for q, e, node in o.exc:
                    q = cx(self, fr, q, n, tok)
                    if q:
                        out.exc.append((q, e, node))

    # ------------------------------------------------------------ exceptions
    def exc_match(self, exc, handler_type, fr):
        """does an except clause naming handler_type catch exc? True/False/None"""
        if handler_type is None:
            return True
        if handler_type.t == 'Tuple':
            res = [self.exc_match(exc, e, fr) for e in handler_type.elts]
            if any(r is True for r in res):
                return True
            if any(r is None for r in res):
                return None
            return False
        k = self.prog.resolve_expr(fr.module, handler_type, fr.func.locals)
        if k and k[0] == 'class':
            h = k[1]
        else:
            h = dotted(handler_type)
            if k and k[0] == 'ext':
                h = k[1].name
        if h in ('Exception', 'BaseException', 'StandardError'):
            if exc == ANY:
                return True
            if exc in ('GeneratorExit', 'KeyboardInterrupt', 'SystemExit'):
                return h == 'BaseException'
            return True
        if exc == ANY:
            return None
        if exc == h:
            return True
        if isinstance(exc, Class):
            if isinstance(h, Class):
                return exc.is_subclass(h)
            for c in exc.mro:
                for b in c.bases:
                    if isinstance(b, External) and self.builtin_sub(b.name, h):
                        return True
            return False
        if isinstance(h, Class):
            # a builtin exception is never an instance of a repository class
            return False
        if exc in BUILTIN_EXC and h in BUILTIN_EXC:
            return self.builtin_sub(exc, h)
        if exc in BUILTIN_EXC or h in BUILTIN_EXC:
            return False if exc in BUILTIN_EXC else None
        return None

    @staticmethod
    def builtin_sub(a, b):
        while a is not None:
            if a == b:
                return True
            a = BUILTIN_EXC.get(a)
        return False

    def s_TryExcept(self, n, states, fr, out):
        o = self.block(n.body, states, fr)
        self.squash(o, fr)
        out.ret.extend(o.ret)
        out.brk.extend(o.brk)
        out.cont.extend(o.cont)
        if n.orelse and o.normal:
            o2 = self.block(n.orelse, o.normal, fr)
            self.absorb(o2, out)
        else:
            out.normal.extend(o.normal)
        per = [dict() for h in n.handlers]
        for st, exc, node in o.exc:
            escaped = True
            for i, h in enumerate(n.handlers):
                mt = self.exc_match(exc, h.type, fr)
                if mt is False:
                    continue
                per[i].setdefault(exc, []).append((st, node))
                if mt is True:
                    escaped = False
                    break
            if escaped:
                out.exc.append((st, exc, node))
        for i, h in enumerate(n.handlers):
            for exc, lst in per[i].items():
                shown = exc
                if exc == ANY and h.type is not None and h.type.t != 'Tuple':
                    k = self.prog.resolve_expr(fr.module, h.type, fr.func.locals)
                    if k and k[0] == 'class':
                        shown = k[1]
                    elif dotted(h.type) in BUILTIN_EXC and dotted(h.type) not in ('Exception', 'BaseException'):
                        shown = dotted(h.type)
                cur = []
                for st, node in lst:
                    if h.name is not None:
                        cur.extend(self.assign(h.name, av(('exc', shown)), st, fr))
                    else:
                        cur.append(st)
                fr.handling.append(shown)
                o3 = self.block(h.body, cur, fr)
                fr.handling.pop()
                self.absorb(o3, out)

    def s_TryFinally(self, n, states, fr, out):
        o = self.block(n.body, states, fr)
        self.squash(o, fr)

        def fin(sts):
            """run the finally block from these states -> normal states; abrupt outcomes override"""
            if not sts:
                return []
            f = self.block(n.finalbody, sts, fr)
            out.ret.extend(f.ret)
            out.exc.extend(f.exc)
            out.brk.extend(f.brk)
            out.cont.extend(f.cont)
            return f.normal
        out.normal.extend(fin(o.normal))
        out.brk.extend(fin(o.brk))
        out.cont.extend(fin(o.cont))
        groups = {}
        for st, v, node in o.ret:
            groups.setdefault((v, id(node)), ([], v, node))[0].append(st)
        for sts, v, node in groups.values():
            for s in fin(sts):
                out.ret.append((s, v, node))
        groups = {}
        for st, e, node in o.exc:
            groups.setdefault(e, ([], node))[0].append(st)
        for e, (sts, node) in groups.items():
            for s in fin(sts):
                out.exc.append((s, e, node))

    # ------------------------------------------------------------ paths
    def path(self, e):
        if e is None:
            return None
        if e.t == 'Name':
            return e.id
        if e.t == 'Attribute':
            b = self.path(e.value)
            return b + '.' + e.attr if b else None
        return None

    # ------------------------------------------------------------ conditions
    def split(self, res, fr, path=None):
        """partition [(state, av)] by truthiness, refining path"""
        T, F = [], []
        for s, v in res:
            t = frozenset(a for a in v if self.client.truthiness(a) is not False)
            f = frozenset(a for a in v if self.client.truthiness(a) is not True)
            if t:
                T.append(self.refine_path(s, path, t))
            if f:
                F.append(self.refine_path(s, path, f))
        return T, F

    def refine_path(self, s, path, v):
        if path is None:
            return s
        if s.env.get(path) == v:
            return s
        env = dict(s.env)
        env[path] = v
        return State(s.facts, env)

    def is_tracked(self, e, fr):
        p = self.path(e)
        if p is None:
            return None
        root = p.split('.')[0]
        if root in fr.func.locals:
            return p
        o = fr.func.outer
        while o is not None:
            if root in o.locals:
                return p
            o = o.outer
        return None

    def cond(self, e, st, fr):
        """-> (states where e is true, states where it is false)"""
        if e.t == 'BoolOp':
            isand = e.op == 'And'
            cur = [st]
            done = []
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(v, s, fr)
                    if isand:
                        nxt.extend(t)
                        done.extend(f)
                    else:
                        nxt.extend(f)
                        done.extend(t)
                cur = nxt
            return (cur, done) if isand else (done, cur)
        if e.t == 'UnaryOp' and e.op == 'Not':
            t, f = self.cond(e.operand, st, fr)
            return f, t
        if e.t == 'Compare' and len(e.ops) > 1:
            # a < b < c: both comparisons hold
            cur, done, left = [st], [], e.left
            for op, right in zip(e.ops, e.comparators):
                pair = Node('Compare')
                pair._fields = ['left', 'ops', 'comparators']
                pair.lineno, pair.left, pair.ops, pair.comparators = e.lineno, left, [op], [right]
                pair.up = getattr(e, 'up', None)
                nxt = []
                for s in cur:
                    t, f = self.cond(pair, s, fr)
                    nxt.extend(t)
                    done.extend(f)
                cur, left = nxt, right
            T, F = cur, done
        elif e.t == 'Compare' and len(e.ops) == 1:
            T, F = self.compare(e, st, fr)
        elif e.t == 'Call' and e.func.t == 'Name' and e.func.id == 'isinstance' and len(e.args) == 2:
            T, F = self.isinstance_(e, st, fr)
        else:
            p = self.is_tracked(e, fr) if e.t in ('Name', 'Attribute') else None
            T, F = self.split(self.ev(e, st, fr), fr, p)
        return self.extra(e, T, F, fr)

    def extra(self, e, T, F, fr):
        T2, F2 = [], []
        for s in T:
            r = self.client.refine(self, fr, s, e, True)
            T2.extend([s] if r is None else r)
        for s in F:
            r = self.client.refine(self, fr, s, e, False)
            F2.extend([s] if r is None else r)
        return T2, F2

    def isinstance_(self, e, st, fr):
        p = self.is_tracked(e.args[0], fr)
        T, F = [], []
        types = e.args[1].elts if e.args[1].t == 'Tuple' else [e.args[1]]
        classes, names = [], []
        for t in types:
            k = self.prog.resolve_expr(fr.module, t, fr.func.locals)
            if k and k[0] == 'class':
                classes.append(k[1])
            elif k and k[0] == 'ext':
                names.append(k[1].name)
            else:
                names.append(dotted(t) or '?')
        for s, v in self.ev(e.args[0], st, fr):
            t, f = set(), set()
            for a in v:
                if a == NONE:
                    (t if any('NoneType' in x for x in names) else f).add(a)
                elif a[0] == 'inst' and isinstance(a[1], Class):
                    if any(a[1].is_subclass(c) for c in classes):
                        t.add(a)
                    elif any(c.is_subclass(a[1]) for c in classes):
                        t.add(a)
                        f.add(a)
                    elif names:
                        t.add(a)
                        f.add(a)
                    else:
                        f.add(a)
                elif a[0] == 'k':
                    if classes and not names:
                        f.add(a)
                    elif a[1] == 'str' and any(x.endswith(('StringTypes', 'basestring', 'StringType', 'str', 'unicode', 'UnicodeType')) for x in names):
                        t.add(a)
                        if not any(x.endswith(('StringTypes', 'basestring')) for x in names):
                            f.add(a)
                    else:
                        t.add(a)
                        f.add(a)
                elif a == TRUTHY and len(classes) == 1 and not names:
                    t.add(('inst', classes[0]))
                    f.add(a)
                else:
                    t.add(a)
                    f.add(a)
            if t:
                T.append(self.refine_path(s, p, frozenset(t)))
            if f:
                F.append(self.refine_path(s, p, frozenset(f)))
        return T, F

    def compare(self, e, st, fr):
        op = e.ops[0]
        left, right = e.left, e.comparators[0]
        T, F = [], []
        lp, rp = self.is_tracked(left, fr), self.is_tracked(right, fr)
        for s, lv in self.ev(left, st, fr):
            for s2, rv in self.ev(right, s, fr):
                if op in ('Is', 'Eq', 'IsNot', 'NotEq'):
                    t, f = self.eq(s2, lv, rv, lp, rp, op in ('Is', 'IsNot'))
                    if op in ('IsNot', 'NotEq'):
                        t, f = f, t
                    T.extend(t)
                    F.extend(f)
                elif op in ('In', 'NotIn'):
                    t, f = self.in_(s2, lv, rv, lp)
                    if op == 'NotIn':
                        t, f = f, t
                    T.extend(t)
                    F.extend(f)
                else:
                    lc, rc = self.single_const(lv), self.single_const(rv)
                    if lc is not None and rc is not None and isinstance(lc[2], (int, float)) and isinstance(rc[2], (int, float)):
                        r = {'Lt': lc[2] < rc[2], 'LtE': lc[2] <= rc[2], 'Gt': lc[2] > rc[2], 'GtE': lc[2] >= rc[2]}[op]
                        (T if r else F).append(s2)
                    else:
                        T.append(s2)
                        F.append(s2)
        return T, F

    @staticmethod
    def single_const(v):
        if len(v) == 1:
            a = next(iter(v))
            if a[0] == 'k':
                return a
        return None

    @staticmethod
    def maybe_equal(a, b, identity):
        """may / must two atoms be equal: (may, must)"""
        if a[0] in ('either', 'cc', 'oc') or b[0] in ('either', 'cc', 'oc'):
            return True, False
        if a == NONE or b == NONE:
            if a == b:
                return True, True
            return (False, False)
        if a[0] == 'k' and b[0] == 'k':
            same = a[2] == b[2]
            return same, same
        if UNBOUND in (a, b):
            return True, False
        for x, y in ((a, b), (b, a)):
            if x == TRUTHY and y[0] == 'k' and not y[2]:
                return False, False
            if x == FALSY and (truth(y) is True):
                return False, False
            if x[0] == 'k' and y[0] in ('other', 'class', 'func', 'inst', 'mod'):
                return False, False
        if a[0] == 'class' and b[0] == 'class':
            return a == b, a == b
        if a == b and a[0] in ('func', 'mod'):
            return True, True
        return True, False

    def eq(self, s, lv, rv, lp, rp, identity):
        lt, lf, rt, rf = set(), set(), set(), set()
        for a in lv:
            for b in rv:
                may, must = self.maybe_equal(a, b, identity)
                if may:
                    # an equal pair takes the more precise atom
                    x = b if (b[0] == 'k' and a in (TRUTHY, FALSY)) else a
                    y = a if (a[0] == 'k' and b in (TRUTHY, FALSY)) else b
                    lt.add(x)
                    rt.add(y)
                if not must:
                    lf.add(a)
                    rf.add(b)
        T = F = []
        if lt:
            t = self.refine_path(s, lp, frozenset(lt)) if lp else s
            t = self.refine_path(t, rp, frozenset(rt)) if rp else t
            T = [t]
        if lf:
            # the false branch refines a side only when the other is one constant
            f = s
            if len(rv) == 1 and lp:
                f = self.refine_path(f, lp, frozenset(lf))
            if len(lv) == 1 and rp:
                f = self.refine_path(f, rp, frozenset(rf))
            F = [f]
        return T, F

    def in_(self, s, lv, rv, lp):
        tups = [a for a in rv if a[0] == 'tup']
        if len(tups) == 1 and len(rv) == 1 and all(len(x) == 1 and next(iter(x))[0] in ('k', 'none', 'class') for x in tups[0][1]):
            members = [next(iter(x)) for x in tups[0][1]]
            lt, lf = set(), set()
            for a in lv:
                must = False
                for b in members:
                    may, mu = self.maybe_equal(a, b, False)
                    if may:
                        lt.add(b if b[0] == 'k' and a in (TRUTHY, FALSY) else a)
                    must = must or mu
                if not must:
                    lf.add(a)
            T = [self.refine_path(s, lp, frozenset(lt))] if lt else []
            F = [self.refine_path(s, lp, frozenset(lf))] if lf else []
            return T, F
        return [s], [s]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        """-> list of (state, av)"""
        m = getattr(self, 'e_' + e.t, None)
        if m is None:
            # generic: evaluate children
            cur = [st]
            for c in children(e):
                if c.t in ('comprehension',):
                    continue
                cur = [s for x in cur for s, v in self.ev(c, x, fr)]
            return [(s, TOP) for s in cur]
        return m(e, st, fr)

    def e_Str(self, e, st, fr):
        return [(st, avk(e.s))]

    def e_Num(self, e, st, fr):
        return [(st, avk(e.n))]

    def e_Lambda(self, e, st, fr):
        f = getattr(e, '_func', None)
        if f is None:
            f = e._func = Func(fr.module, e, None, fr.func)
        return [(st, av(('func', f)))]

    def e_Name(self, e, st, fr):
        v = st.env.get(e.id)
        if v is None:
            v = self.global_value(e, fr)
        r = self.client.name_load(self, fr, st, e, v)
        if r is not None:
            return r
        return [(st, v)]

    def global_value(self, e, fr):
        if e.t == 'Name':
            if e.id == 'None':
                return av(NONE)
            if e.id == 'True':
                return av(TRUE)
            if e.id == 'False':
                return av(FALSE)
            f = fr.func
            while f is not None:
                if e.id in f.locals:
                    # a local with no information, or a closure variable
                    return TOP
                f = f.outer
        k = self.prog.resolve_expr(fr.module, e)
        return self.kind_value(k, e)

    def kind_value(self, k, e):
        if k is None:
            if e.t == 'Name' and e.id in BUILTIN_EXC:
                return av(('ext', e.id))
            return TOP if e.t != 'Name' else av(('ext', e.id))
        if k[0] == 'class':
            return av(('class', k[1]))
        if k[0] == 'func':
            return av(('func', k[1]))
        if k[0] == 'mod':
            return av(('mod', k[1]))
        if k[0] == 'ext':
            return av(('ext', k[1].name))
        if k[0] == 'method':
            return av(('func', k[2]))
        if k[0] == 'var' and len(k[1]) == 1 and k[1][0] is not None:
            n = k[1][0]
            return self.const_value(n)
        if k[0] == 'classattr' and k[2] is not None:
            return self.const_value(k[2])
        return TOP

    def const_value(self, n):
        if n.t == 'Str':
            return avk(n.s)
        if n.t == 'Num':
            return avk(n.n)
        if n.t == 'Name' and n.id in ('True', 'False'):
            return av(TRUE if n.id == 'True' else FALSE)
        if n.t == 'Name' and n.id == 'None':
            return av(NONE)
        if n.t == 'Call' and n.func.t == 'Name' and n.func.id in ('chr', 'unichr') and len(n.args or []) == 1 and n.args[0].t == 'Num' and isinstance(n.args[0].n, int):
            return avk(chr(n.args[0].n))
        if n.t in ('Tuple', 'List', 'Set'):
            vs = [self.const_value(x) for x in n.elts]
            if n.t == 'Tuple':
                return av(('tup', tuple(vs)))
        return NOTNONE if n.t in ('Dict', 'List', 'Lambda') else TOP

    def e_Attribute(self, e, st, fr):
        p = self.path(e)
        tracked = self.is_tracked(e, fr) is not None
        out = []
        for s, b in self.ev(e.value, st, fr):
            r = self.client.attr_load(self, fr, s, e, b, p)
            if r is not None:
                out.extend(r)
                continue
            if p and p in s.env:
                out.append((s, s.env[p]))
                continue
            v = None
            if not tracked and p is not None:
                v = self.global_value(e, fr)
            else:
                vs = set()
                for a in b:
                    if a[0] == 'inst' and isinstance(a[1], Class):
                        f = a[1].find(e.attr)
                        if f is not None:
                            vs.add(('bound', f, self.path(e.value), a[1]) if not f.is_static else ('func', f))
                            continue
                        ca = a[1].find_attr(e.attr)
                        if ca is not None and ca[1] is not None and not self.attr_assigned(a[1], e.attr):
                            vs |= self.const_value(ca[1])
                            continue
                        vs |= TOP
                    elif a[0] == 'class' and isinstance(a[1], Class):
                        f = a[1].find(e.attr)
                        if f is not None:
                            vs.add(('bound', f, self.path(e.value), a[1]) if f.is_classmethod else ('func', f))
                            continue
                        ca = a[1].find_attr(e.attr)
                        if ca is not None and ca[1] is not None:
                            vs |= self.const_value(ca[1])
                        else:
                            vs |= TOP
                    elif a[0] == 'mod':
                        k = self.prog.resolve_mod_attr(a[1], e.attr)
                        vs |= self.kind_value(k, e)
                    else:
                        vs |= TOP
                v = frozenset(vs) if vs else TOP
            out.append((s, v))
        return out

    def attr_assigned(self, cls, attr):
        """is the attribute ever assigned on instances anywhere in the package?"""
        cache = self.prog.__dict__.setdefault('_attr_stores', None)
        if cache is None:
            cache = set()
            for m in self.prog.modules.values():
                for n in walk(m.tree):
                    if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore', 'Del'):
                        cache.add(n.attr)
            self.prog._attr_stores = cache
        return attr in cache

    def ev_slice(self, sl, st, fr):
        if sl.t == 'Index':
            return self.ev(sl.value, st, fr)
        cur = [st]
        for c in children(sl):
            cur = [s for x in cur for s, v in (self.ev(c, x, fr) if c.t not in ('Slice', 'Index', 'ExtSlice') else self.ev_slice(c, x, fr))]
        return [(s, TOP) for s in cur]

    def e_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            for s2, i in self.ev_slice(e.slice, s, fr):
                r = self.client.subscript_load(self, fr, s2, e, b, i)
                if r is not None:
                    out.extend(r)
                    continue
                for x in self.client.subscript_raises(self, fr, s2, e):
                    self.throw(fr, s2, x, e)
                v = TOP
                c = self.single_const(i)
                if c is not None and isinstance(c[2], int) and b and \
                        all(a[0] == 'tup' and -len(a[1]) <= c[2] < len(a[1]) for a in b):
                    v = frozenset().union(*[a[1][c[2]] for a in b])
                out.append((s2, v))
        return out

    def e_Tuple(self, e, st, fr):
        cur = [(st, ())]
        for x in e.elts:
            cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.ev(x, s, fr)]
        cur = [(self.client.tuple_display(self, fr, s, e, vs), vs) for s, vs in cur]
        return [(s, av(('tup', vs)) if len(vs) <= 12 else NOTNONE) for s, vs in cur]

    def e_List(self, e, st, fr):
        cur = [(st, ())]
        for x in e.elts:
            cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.ev(x, s, fr)]
        # lists are mutable: only the literal itself is known, unless the client says otherwise
        out = []
        for s, vs in cur:
            v = self.client.list_display(self, fr, s, e, vs)
            out.append((s, av(FALSY, TRUTHY) if v is None else v))
        return out

    def e_Dict(self, e, st, fr):
        cur = [st]
        for x in list(e.keys) + list(e.values):
            cur = [s2 for s in cur for s2, v in self.ev(x, s, fr)]
        return [(s, NOTNONE) for s in cur]

    def e_BinOp(self, e, st, fr):
        out = []
        for s, l in self.ev(e.left, st, fr):
            for s2, r in self.ev(e.right, s, fr):
                v = self.client.binop(self, fr, s2, e, l, r)
                if v is None:
                    v = NOTNONE
                    lc, rc = self.single_const(l), self.single_const(r)
                    if lc and rc and isinstance(lc[2], int) and isinstance(rc[2], int) and e.op in ('Add', 'Sub', 'Mult'):
                        x = {'Add': lc[2] + rc[2], 'Sub': lc[2] - rc[2], 'Mult': lc[2] * rc[2]}[e.op]
                        if -2 <= x <= 3:
                            v = avk(x)
                out.append((s2, v))
        return out

    def e_UnaryOp(self, e, st, fr):
        if e.op == 'Not':
            t, f = self.cond(e.operand, st, fr)
            return [(s, av(FALSE)) for s in t] + [(s, av(TRUE)) for s in f]
        out = []
        for s, v in self.ev(e.operand, st, fr):
            c = self.single_const(v)
            if e.op == 'USub' and c and isinstance(c[2], (int, float)):
                out.append((s, avk(-c[2])))
            else:
                out.append((s, NOTNONE))
        return out

    def e_BoolOp(self, e, st, fr):
        out = []
        cur = [st]
        isand = e.op == 'And'
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                if last:
                    out.extend(self.ev(x, s, fr))
                    continue
                p = self.is_tracked(x, fr) if x.t in ('Name', 'Attribute') else None
                if x.t in ('Compare', 'BoolOp') or (x.t == 'UnaryOp' and x.op == 'Not') or (
                        x.t == 'Call' and x.func.t == 'Name' and x.func.id == 'isinstance'):
                    t, f = self.cond(x, s, fr)
                    if isand:
                        nxt.extend(t)
                        out.extend((y, av(FALSE)) for y in f)
                    else:
                        nxt.extend(f)
                        out.extend((y, av(TRUE)) for y in t)
                    continue
                for s2, v in self.ev(x, s, fr):
                    t = frozenset(a for a in v if self.client.truthiness(a) is not False)
                    f = frozenset(a for a in v if self.client.truthiness(a) is not True)
                    if t:
                        y = self.refine_path(s2, p, t) if p else s2
                        if isand:
                            nxt.append(y)
                        else:
                            out.append((y, t))
                    if f:
                        y = self.refine_path(s2, p, f) if p else s2
                        if isand:
                            out.append((y, f))
                        else:
                            nxt.append(y)
            cur = nxt
        return out

    def e_Compare(self, e, st, fr):
        if len(e.ops) == 1:
            t, f = self.extra(e, *self.compare(e, st, fr), fr=fr)
            # one boolean-valued result per branch keeps correlation
            return [(s, av(TRUE)) for s in t] + [(s, av(FALSE)) for s in f]
        cur = [st]
        for x in [e.left] + list(e.comparators):
            cur = [s2 for s in cur for s2, v in self.ev(x, s, fr)]
        return [(s, BOOL) for s in cur]

    def e_IfExp(self, e, st, fr):
        t, f = self.cond(e.test, st, fr)
        out = []
        for s in t:
            out.extend(self.ev(e.body, s, fr))
        for s in f:
            out.extend(self.ev(e.orelse, s, fr))
        return out

    def e_Yield(self, e, st, fr):
        res = [(st, av(NONE))] if e.value is None else self.ev(e.value, st, fr)
        out = []
        for s, v in res:
            s = self.client.on_yield(self, fr, s, e, v)
            if s is not None:
                out.append((s, TOP))
        return out

    def _comp(self, e, st, fr, parts):
        r = self.client.comp(self, fr, st, e, parts)
        if r is not None:
            return r
        cur = [st]
        shadow = set()
        for g in e.generators:
            nxt = []
            for s in cur:
                for s2, itv in self.ev(g.iter, s, fr):
                    elem = self.client.for_element(self, fr, s2, g, itv)
                    nxt.extend(self.assign(g.target, TOP if elem is None else elem, s2, fr))
            cur = nxt
            for c in g.ifs:
                cur = [x for s in cur for x in self.cond(c, s, fr)[0]]
        for s in cur:
            for p in parts:
                for s2, v in self.ev(p, s, fr):
                    pass
        return [(st, NOTNONE)]

    def e_ListComp(self, e, st, fr):
        return self._comp(e, st, fr, [e.elt])

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, st, fr):
        return self._comp(e, st, fr, [e.key, e.value])

    def e_Repr(self, e, st, fr):
        return [(s, av(TRUTHY)) for s, v in self.ev(e.value, st, fr)]

    # ------------------------------------------------------------ calls
    def resolve_callee(self, fv, e, st, fr):
        """abstract function value -> list of atoms callable"""
        out = []
        for a in fv:
            if a[0] in ('func', 'bound', 'class', 'ext'):
                out.append(a)
            else:
                out.append(None)
        return out

    def e_Call(self, e, st, fr):
        out = []
        # super(C, self).m
        fn = e.func
        recv_path = None
        results = []
        if fn.t == 'Attribute' and fn.value.t == 'Call' and fn.value.func.t == 'Name' \
                and fn.value.func.id == 'super' and len(fn.value.args) == 2:
            k = self.prog.resolve_expr(fr.module, fn.value.args[0], fr.func.locals)
            recv_path = self.path(fn.value.args[1])
            f = None
            if k and k[0] == 'class':
                start = fr.cls if fr.cls is not None and fr.cls.is_subclass(k[1]) else k[1]
                f = start.find_after(k[1], fn.attr)
            results = [(st, av(('bound', f, recv_path, fr.cls)) if f is not None else TOP)]
        else:
            results = self.ev(fn, st, fr)
            if fn.t == 'Attribute':
                recv_path = self.path(fn.value)
        for s, fv in results:
            # arguments
            cur = [(s, [], {})]
            for a in e.args or []:
                cur = [(s3, args + [v], kw) for s2, args, kw in cur for s3, v in self.ev(a, s2, fr)]
            for k in e.keywords or []:
                cur = [(s3, args, dict(kw, **{str(k.arg): v})) for s2, args, kw in cur for s3, v in self.ev(k.value, s2, fr)]
            for extra in (e.starargs, e.kwargs):
                if extra is not None:
                    cur = [(s3, args + self.star(v) if extra is e.starargs else args, kw) for s2, args, kw in cur for s3, v in self.ev(extra, s2, fr)]
            for s2, args, kw in cur:
                for atom in self.resolve_callee(fv, e, s2, fr):
                    out.extend(self.call_one(e, atom, s2, recv_path, args, kw, fr))
        # join identical results
        return self.join_results(out, fr)

    def star(self, v):
        """arguments made of the elements of a sequence"""
        return []

    def join_results(self, res, fr):
        if len(res) <= 3:
            return res
        g = {}
        for s, v in res:
            k = (self.merge_key(s, fr), v)
            if k in g:
                g[k] = (State(s.facts, join_env(g[k][0].env, s.env)), v)
            else:
                g[k] = (s, v)
        return list(g.values())

    def call_one(self, e, atom, st, recv_path, args, kw, fr):
        func = None
        bound_cls = None
        self_av = None
        if atom is not None and atom[0] in ('func', 'bound'):
            func = atom[1]
        elif atom is not None and atom[0] == 'class' and isinstance(atom[1], Class):
            pass
        r = self.client.call(self, fr, st, e, atom, recv_path, args, kw)
        if r is not None:
            return r
        if atom is None and e.func.t == 'Attribute':
            cands = self.client.resolve_unknown(self, fr, st, e, e.func.attr)
            if cands:
                out = []
                for f in cands:
                    out.extend(self.enter(e, f, f.cls, recv_path, st, args, kw, fr, True))
                return out
        if func is not None and fr.depth < self.client.max_depth and not func.is_generator \
                and self.client.relevant(self, func):
            bound = atom[0] == 'bound' or (func.cls is not None and not func.is_static and False)
            cls = atom[3] if atom[0] == 'bound' else func.cls
            rp = atom[2] if atom[0] == 'bound' else None
            if atom[0] == 'func' and func.cls is not None and not func.is_static and e.args:
                # C.m(self, ...): the first argument is the receiver
                p0 = self.path(e.args[0])
                c0 = None
                for a in args[0]:
                    if a[0] == 'inst':
                        c0 = a[1]
                return self.enter(e, func, c0 or func.cls, p0, st, args, kw, fr, False)
            return self.enter(e, func, cls, rp, st, args, kw, fr, bound)
        if atom is not None and atom[0] == 'class' and isinstance(atom[1], Class):
            init = atom[1].find('__init__')
            inst = av(('inst', atom[1]))
            if init is not None and self.client.relevant(self, init) and fr.depth < self.client.max_depth:
                res = self.enter(e, init, atom[1], None, st, args, kw, fr, True)
                return [(s, inst) for s, v in res]
            for x in self.client.opaque_raises(self, fr, st, e, atom):
                self.throw(fr, st, x, e)
            st = self.havoc(e, None, st, fr)
            return [(st, inst)]
        if atom is not None and atom[0] == 'ext':
            if atom[1] in BUILTIN_EXC:
                return [(st, av(('extinst', atom[1])))]
        self.stats['calls_opaque'] += 1
        pure = atom is not None and atom[0] == 'ext' and atom[1] in PURE_BUILTINS
        for x in self.client.opaque_raises(self, fr, st, e, atom):
            self.throw(fr, st, x, e)
        if not pure:
            st = self.havoc(e, recv_path, st, fr)
        v = self.client.opaque_result(self, fr, st, e, atom, args)
        if v is TOP and func is not None and func.is_generator:
            v = av(('gen', func))
        if v is TOP and pure and atom[1] == 'bool' and len(args) == 1:
            t = set(self.client.truthiness(a) for a in args[0])
            if len(t) == 1 and None not in t:
                v = av(TRUE if True in t else FALSE)
        if v is TOP and pure and atom[1] in ('str', 'unicode', 'len', 'int', 'list', 'tuple', 'dict', 'repr', 'set',
                                            'float', 'bool', 'sorted', 'range', 'xrange', 'type', 'isinstance'):
            v = NOTNONE
        return [(st, v)]

    def havoc(self, e, recv_path, st, fr):
        """an opaque call may change the attributes of what it is given"""
        if not self.client.opaque_havoc(self, fr, st, e, recv_path, None):
            return st
        roots = []
        if recv_path:
            roots.append(recv_path)
        for a in (e.args or []):
            p = self.path(a)
            if p:
                roots.append(p)
        for k in e.keywords or []:
            p = self.path(k.value)
            if p:
                roots.append(p)
        if not roots:
            return st
        ks = [k for k in st.env if any(k.startswith(r + '.') for r in roots)]
        if not ks:
            return st
        env = dict(st.env)
        for k in ks:
            del env[k]
        return State(st.facts, env)

    def bind(self, func, e, recv_path, st, args, kw, bound, cls):
        """environment of the callee, and [(callee path, caller path)]"""
        a = func.node.args
        params = func.params
        env = {}
        links = []
        pos = list(args)
        exprs = list(e.args or [])
        if bound and params:
            env[params[0]] = av(('inst', cls)) if not func.is_classmethod else av(('class', cls))
            if recv_path and recv_path in st.env:
                env[params[0]] = st.env[recv_path]
            if recv_path:
                links.append((params[0], recv_path))
            names = params[1:]
        else:
            names = params
        for i, v in enumerate(pos):
            if i < len(names) and names[i] is not None:
                env[names[i]] = v
                p = self.path(exprs[i]) if i < len(exprs) else None
                if p:
                    links.append((names[i], p))
        for k in e.keywords or []:
            if k.arg in names:
                env[str(k.arg)] = kw[str(k.arg)]
                p = self.path(k.value)
                if p:
                    links.append((str(k.arg), p))
        defaults = a.defaults or []
        nd = len(defaults)
        for i, nm in enumerate(params):
            if nm is None or nm in env:
                continue
            j = i - (len(params) - nd)
            if j >= 0 and e.starargs is None and e.kwargs is None:
                env[nm] = self.const_value(defaults[j])
            else:
                env[nm] = TOP
        for x in a.args or []:
            for nm in target_names(x):
                env.setdefault(nm, TOP)
        if a.vararg:
            env[a.vararg] = NOTNONE
        if a.kwarg:
            env[a.kwarg] = NOTNONE
        if self.client.track_unbound:
            for nm in func.locals:
                env.setdefault(nm, av(UNBOUND))
        for inner, outer in links:
            pre = outer + '.'
            for k, v in st.env.items():
                if k.startswith(pre):
                    env[inner + k[len(outer):]] = v
        if func.outer is not None:
            # closure: enclosing locals visible by name
            for k, v in st.env.items():
                root = k.split('.')[0]
                if root not in func.locals and root not in env:
                    env[k] = v
        return env, links

    def enter(self, e, func, cls, recv_path, st, args, kw, fr, bound):
        self.stats['calls_entered'] += 1
        self.entered.add(func)
        env, links = self.bind(func, e, recv_path, st, args, kw, bound, cls)
        cfacts, env, token = self.client.on_enter(self, fr, st, env)
        st0, st = st, State(cfacts, st.env)
        key = (func, cls, st.facts, tuple(sorted(((k, v) for k, v in env.items() if v != TOP), key=lambda x: (x[0], sorted(map(repr, x[1]))))),
               self.client.key_extra(st, fr))
        res = self.summary(key, func, cls, st, env, fr, e)
        out = []
        for kind, facts, v, cenv, node in res:
            e2 = dict(st0.env)
            if token is not None:
                facts, v, cenv, e2 = self.client.on_leave(token, facts, v, cenv, e2)
            for inner, outer in links:
                pre = outer + '.'
                for k in [k for k in e2 if k.startswith(pre)]:
                    del e2[k]
            for inner, outer in links:
                pre = inner + '.'
                for k, x in cenv.items():
                    if k.startswith(pre):
                        e2[outer + k[len(inner):]] = x
                if self.client.export_roots and inner in cenv and inner not in rebound(func):
                    e2[outer] = cenv[inner]
            s2 = State(facts, e2)
            if kind == 'ret':
                out.append((s2, v))
            else:
                self.throw(fr, s2, v, e)
        return out

    def summary(self, key, func, cls, st, env, fr, callnode):
        if key in self.memo and not self.memo[key].get('open'):
            return self.memo[key]['res']
        if key in self.memo:
            # recursive use: the approximation so far
            self.memo[key]['used'] = True
            return self.memo[key]['res']
        rec = self.memo[key] = {'open': True, 'res': [], 'used': False}
        for rnd in range(20):
            rec['used'] = False
            cf = Frame(func, cls, fr.depth + 1, fr, callnode)
            o = self.body(func, [State(st.facts, env)], cf)
            res = {}
            params = [p for p in func.params if p]
            for s, v, node in o.ret:
                ce = self.exported(s.env, func)
                k = ('ret', s.facts, v if len(o.ret) < 40 else None, self.retkey(s))
                if k in res:
                    res[k] = ('ret', s.facts, join_av(v, res[k][2]), join_env_paths(res[k][3], ce), node)
                else:
                    res[k] = ('ret', s.facts, v, ce, node)
            for s, x, node in o.exc:
                ce = self.exported(s.env, func)
                k = ('exc', s.facts, x)
                if k in res:
                    res[k] = ('exc', s.facts, x, join_env_paths(res[k][3], ce), node)
                else:
                    res[k] = ('exc', s.facts, x, ce, node)
            new = list(res.values())
            old = rec['res']
            rec['res'] = new
            if not rec['used'] or same_res(old, new):
                break
            # summaries computed under this approximation are stale
            for k2 in [k2 for k2, r in self.memo.items() if not r.get('open') and r.get('under') is not None and r['under'] >= fr.depth]:
                del self.memo[k2]
        rec['open'] = False
        rec['under'] = fr.depth + 1 if any(r.get('open') for r in self.memo.values()) else None
        return rec['res']

    def retkey(self, s):
        return None

    def exported(self, env, func):
        keep = set(p for p in func.params if p)
        if self.client.export_roots:
            return dict((k, v) for k, v in env.items() if k.split('.')[0] in keep)
        return dict((k, v) for k, v in env.items() if '.' in k and k.split('.')[0] in keep)


def rebound(func):
    """names the function assigns (its parameters among them no longer are the caller's objects)"""
    if getattr(func, '_rebound', None) is None:
        s = set()
        nodes = walk_own(func.node)
        aug = set(id(n.target) for n in nodes if n.t == 'AugAssign')
        for n in nodes:
            if n.t == 'Name' and n.ctx in ('Store', 'Del') and id(n) not in aug:
                s.add(n.id)
        func._rebound = s
    return func._rebound


def join_env_paths(a, b):
    return dict((k, join_av(v, b[k])) for k, v in a.items() if k in b)


def same_res(a, b):
    def norm(r):
        return sorted(repr((x[0], x[1], sorted(map(repr, x[2])) if isinstance(x[2], frozenset) else x[2],
                            sorted((k, sorted(map(repr, v))) for k, v in x[3].items()))) for x in r)
    return norm(a) == norm(b)
