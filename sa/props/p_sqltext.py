"""C03: no data value becomes part of the text of an SQL statement.
C04: parameters are bound in the order of their placeholders.

Abstract interpretation of the SQL layer over an algebra of text fragments.
A fragment is raw (may contain data) or safe; a safe one carries the interval
of the parameter counter its placeholders were added in.  Concatenation is in
order when the intervals are adjacent.  At the point a statement is executed
its text must be safe and cover all parameters added so far."""
import os
import re
import time
from ..frontend import walk, Node
from ..interp import Client, Interp, Frame, State, av, NONE, TOP, TRUTHY, FALSY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

SQL = ('sql',)
RAW = ('raw',)
BAD = ('bad',)
QUERY = ('query',)
PARAMS = ('params',)
LST = ('lst',)
EMPTY = ('L', frozenset())
CONV = re.compile(r'%(\((?P<k>[^)]*)\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?(?P<c>[a-zA-Z%])')
SAFE_METHODS = ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'ljust', 'rjust', 'encode', 'decode')


def remap(a, m):
    if a[0] in ('sql', 'lst') and len(a) == 3:
        return (a[0], m[a[1]], m[a[2]])
    if a[0] == 'params' and len(a) == 2:
        return (a[0], m[a[1]])
    if a[0] == 'tup':
        return ('tup', tuple(frozenset(remap(x, m) for x in v) for v in a[1]))
    if a[0] == 'L':
        return ('L', frozenset(remap(x, m) for x in a[1]))
    return a


def marks(a, out):
    if a[0] in ('sql', 'lst') and len(a) == 3:
        out.add(a[1])
        out.add(a[2])
    elif a[0] == 'params' and len(a) == 2:
        out.add(a[1])
    elif a[0] == 'tup':
        for v in a[1]:
            for x in v:
                marks(x, out)
    elif a[0] == 'L':
        for x in a[1]:
            marks(x, out)


def depth(a):
    if a[0] == 'L':
        return 1 + max([0] + [depth(x) for x in a[1]])
    if a[0] == 'tup':
        return 1 + max([0] + [depth(x) for v in a[1] for x in v])
    return 0


def has_marks(v):
    for a in v:
        if a[0] in ('tup', 'L') or len(a) == 3 and a[0] in ('sql', 'lst') or a[0] == 'params' and len(a) == 2:
            return True
    return False


class Text(Client):
    max_states = 10
    max_depth = 14
    export_roots = True
    init_facts = (0, ())

    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.A, self.A2 = {}, {}        # attribute -> atoms (this round, last round)
        self.P, self.P2 = {}, {}        # (func, param) -> atoms
        self.Y, self.Y2 = {}, {}        # generator -> atoms yielded
        self.executes, self.literals = {}, {}
        self.adds = set()
        self.c3, self.c4 = {}, {}
        self.final, self.first = False, True
        self.prepare()

    # ------------------------------------------------------- preparation
    def prepare(self):
        mod = self.mod
        self.funcs = [f for c in mod.classes.values() for f in c.methods.values()] + list(mod.funcs.values())
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        stored, elsewhere = set(), set()
        for m in self.prog.modules.values():
            for n in walk(m.tree):
                if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore'):
                    (stored if m is mod else elsewhere).add(n.attr)
        self.attrs = stored - elsewhere
        # dispatch tables: strings that name methods
        self.dispatch = set()
        for n in walk(mod.tree):
            if n.t == 'Dict':
                for v in n.values:
                    if v.t == 'Str' and v.s in self.byname:
                        self.dispatch.add(v.s)
        # functions that add parameters to one of their parameters
        addp = set()
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                if f in addp:
                    continue
                for n in walk(f.node):
                    if n.t != 'Call' or n.func.t != 'Attribute' and n.func.t != 'Call':
                        continue
                    hit = n.func.t == 'Attribute' and n.func.attr == 'AddParam'
                    if not hit and n.func.t == 'Call' and self.dispatch:
                        hit = n.func.func.t == 'Name' and n.func.func.id == 'getattr'
                    if not hit and n.func.t == 'Attribute':
                        hit = any(g in addp for g in self.byname.get(n.func.attr, ()))
                    if hit:
                        addp.add(f)
                        ch = True
                        break
        self.adding = addp
        # recursive through each other or called by dispatch: not entered, each is checked against the contract
        # "returns text whose placeholders are those of the parameters it added, in order"
        edges = dict((f, set()) for f in addp)
        for f in addp:
            for n in walk(f.node):
                if n.t != 'Call':
                    continue
                if n.func.t == 'Attribute':
                    edges[f] |= set(g for g in self.byname.get(n.func.attr, ()) if g in addp)
                elif n.func.t == 'Call' and n.func.func.t == 'Name' and n.func.func.id == 'getattr':
                    edges[f] |= set(g for d in self.dispatch for g in self.byname[d] if g in addp)
        def reach(f):
            seen, work = set(), list(edges[f])
            while work:
                g = work.pop()
                if g not in seen:
                    seen.add(g)
                    work.extend(edges[g])
            return seen
        self.contract = set(f for f in addp if f in reach(f))
        self.contract |= set(g for d in self.dispatch for g in self.byname[d])
        self.exec_funcs = set()
        for f in self.funcs:
            if any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr == 'Execute' for n in walk_own(f.node)):
                self.exec_funcs.add(f)
        self.helpers()

    def helpers(self):
        """functions that add parameters and keep the contract too: a call need not enter them"""
        cand = []
        for f in self.adding - self.contract:
            if f.is_generator or f in self.exec_funcs or self.is_entry_like(f) or f.node.t == 'Lambda':
                continue
            if any(n.t == 'Return' and n.value is not None and n.value.t in ('Tuple', 'List') for n in walk_own(f.node)):
                continue
            if any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in ('append', 'extend', 'insert')
                   and n.func.value.t == 'Name' and n.func.value.id in f.params for n in walk_own(f.node)):
                continue
            cand.append(f)
        for f in sorted(cand, key=lambda f: f.qname):
            ip = Interp(self.prog, self)
            out = ip.run(f, cls=f.cls)
            ok = bool(out.ret)
            for st, v, node in out.ret:
                for a in v:
                    x = self.frag(a)
                    if x[0] != 'sql' or (x[1:] or (0, 0)) != (0, st.facts[0]):
                        ok = False
            if ok:
                self.contract.add(f)
        self.A, self.P, self.Y = {}, {}, {}
        self.executes, self.literals, self.adds = {}, {}, set()

    def is_entry_like(self, f):
        """begins or closes a transaction itself: not entered"""
        return any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr == 'Begin' for n in walk_own(f.node))

    # ------------------------------------------------------- clock
    def canon(self, st):
        now, pins = st.facts
        ms = set((0, now)) | set(pins)
        for k, v in st.env.items():
            if has_marks(v):
                for a in v:
                    marks(a, ms)
        order = sorted(ms)
        if order == list(range(len(order))):
            return st
        m = dict((x, i) for i, x in enumerate(order))
        env = dict((k, frozenset(remap(a, m) for a in v) if has_marks(v) else v) for k, v in st.env.items())
        return State((m[now], tuple(m[p] for p in pins)), env)

    def stmt(self, ip, fr, st, node):
        return self.canon(st)

    def loop_head(self, ip, fr, st, node):
        return self.canon(st)

    def on_enter(self, ip, fr, st, env):
        now, pins = st.facts
        ms = set((0, now)) | set(pins)
        for v in st.env.values():
            if has_marks(v):
                for a in v:
                    marks(a, ms)
        mine = tuple(sorted(ms))
        s2 = self.canon(State((now, mine), env))
        return s2.facts, s2.env, (mine, now, pins)

    def on_leave(self, token, facts, v, cenv, env):
        mine, now, pins = token
        m = dict(zip(mine, facts[1]))
        env = dict((k, frozenset(remap(a, m) for a in x) if has_marks(x) else x) for k, x in env.items())
        return (facts[0], tuple(m[p] for p in pins)), v, cenv, env

    def merge_key(self, st, frame):
        return (st.facts, tuple(sorted(((k, tuple(sorted(v, key=repr))) for k, v in st.env.items()
                                        if any(a[0] in ('sql', 'lst') and len(a) == 3 or a[0] == 'params' and len(a) == 2 for a in v)), key=lambda x: x[0])))

    # ------------------------------------------------------- algebra
    def frag(self, a):
        """atom -> text atom"""
        if a[0] == 'k':
            return SQL if a[1] == 'str' else (SQL if a[1] in ('int', 'float', 'bool') else RAW)
        if a[0] == 'sql' or a in (BAD, QUERY):
            return a
        return RAW

    def cat1(self, a, b):
        if RAW in (a, b):
            return RAW
        if BAD in (a, b):
            return BAD
        if a == QUERY or b == QUERY:
            return QUERY if SQL in (a, b) else BAD
        if len(a) == 1:
            return b
        if len(b) == 1:
            return a
        if a[2] == b[1]:
            return ('sql', a[1], b[2])
        return BAD

    def cat(self, x, y):
        return frozenset(self.cat1(self.frag(a), self.frag(b)) for a in x for b in y)

    def is_list(self, a):
        return a[0] in ('lst', 'L')

    def elems(self, a):
        if a[0] == 'lst':
            return frozenset([SQL]) if len(a) == 1 else frozenset([BAD])
        if a[0] == 'L':
            return a[1]
        if a[0] == 'tup':
            return frozenset().union(*a[1]) if a[1] else frozenset()
        return frozenset([RAW])

    def append1(self, l, x):
        """list atom, element atom -> list atom"""
        if l == EMPTY:
            l = LST
        if l[0] == 'lst':
            f = self.frag(x)
            if f[0] == 'sql' and x[0] in ('k', 'sql'):
                c = self.cat1(('sql',) + l[1:], f)
                if c[0] == 'sql':
                    return ('lst',) + c[1:]
                return ('L', frozenset([BAD]))
            if l == LST:
                return ('L', frozenset([x]))
            return ('L', frozenset([BAD if f == RAW or f == BAD else BAD, x]))
        if l[0] == 'L':
            return ('L', self.shrink(l[1] | frozenset([x])))
        return RAW

    def shrink(self, s):
        s = frozenset(RAW if depth(x) > 3 else x for x in s)
        return s if len(s) <= 24 else frozenset([RAW])

    def append(self, lv, xv):
        return self.onel(frozenset(self.append1(l if self.is_list(l) else ('L', self.elems(l)), x) for l in lv for x in xv))

    def onel(self, v):
        ls = [a for a in v if a[0] == 'L']
        if len(ls) <= 1:
            return v
        return frozenset(a for a in v if a[0] != 'L') | frozenset([('L', self.shrink(frozenset().union(*[a[1] for a in ls])))])

    def joined(self, v, empty=False):
        """text of a list whose elements are concatenated"""
        out = set()
        for a in v:
            if a[0] == 'lst':
                out.add(('sql',) + a[1:])
            elif a[0] in ('L', 'tup'):
                es = self.elems(a)
                if a[0] == 'tup':
                    cur = frozenset([SQL])
                    for x in a[1]:
                        cur = self.cat(cur, x)
                    out |= cur
                    continue
                fs = set(self.frag(x) for x in es)
                if fs <= set([SQL]):
                    out.add(SQL)
                elif RAW in fs:
                    out.add(RAW)
                else:
                    out.add(BAD)
            elif empty:
                out.add(self.frag(a))
            else:
                out.add(RAW)
        return frozenset(out)

    def listadd(self, x, y):
        out = set()
        for a in x:
            for b in y:
                if a == LST or a == EMPTY:
                    out.add(b if self.is_list(b) else ('L', self.elems(b)))
                elif b == LST or b == EMPTY:
                    out.add(a if self.is_list(a) else ('L', self.elems(a)))
                elif a[0] == 'lst' and b[0] == 'lst':
                    c = self.cat1(('sql',) + a[1:], ('sql',) + b[1:])
                    out.add(('lst',) + c[1:] if c[0] == 'sql' else ('L', frozenset([BAD])))
                else:
                    out.add(('L', self.shrink(self.elems(a) | self.elems(b))))
        return self.onel(frozenset(out))

    def norm(self, v, now):
        """value leaving the function through an attribute or parameter: only complete texts keep their meaning"""
        out = set()
        for a in v:
            if a[0] == 'sql' and len(a) == 3:
                out.add(QUERY if (a[1], a[2]) == (0, now) else BAD)
            elif a[0] == 'lst' and len(a) == 3:
                out.add(('L', frozenset([BAD])))
            elif a[0] == 'tup':
                out.add(('tup', tuple(self.norm(x, now) for x in a[1])))
            elif a[0] == 'L':
                out.add(('L', self.norm(a[1], now)))
            elif a[0] == 'params':
                out.add(PARAMS)
            elif a[0] in ('inst', 'class', 'func', 'bound', 'mod', 'ext', 'extinst', 'exc'):
                out.add(TRUTHY)
            else:
                out.add(a)
        return frozenset(out)

    # ------------------------------------------------------- events
    def relevant(self, ip, func):
        if func.module is not self.mod or func.name == '__init__' or self.is_entry_like(func):
            return False
        return not func.is_generator

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def record(self, table, key, v):
        table[key] = self.onel(table.get(key, frozenset()) | v)

    def list_display(self, ip, fr, st, node, vals):
        cur = frozenset([EMPTY])
        for v in vals:
            cur = self.append(cur, v)
        return cur

    def attr_load(self, ip, fr, st, node, base, path):
        if path and path in st.env:
            return None
        if node.attr in self.attrs and not any(a[0] in ('inst', 'class') and a[1].find(node.attr) for a in base if a[0] in ('inst', 'class') and hasattr(a[1], 'find')):
            v = self.A2.get(node.attr)
            if v is None and self.first:
                v = av(SQL)
            if v is not None:
                return [(st, v)]
        return None

    def attr_store(self, ip, fr, st, node, base, path, value):
        if node.attr in self.attrs:
            self.record(self.A, node.attr, self.norm(value, st.facts[0]))
        return st

    def subscript_load(self, ip, fr, st, node, base, index):
        e = node.value
        if e.t == 'Attribute' and e.attr == 'mangledNames':
            return [(st, av(SQL))]
        if node.slice.t != 'Index':
            if any(self.is_list(a) for a in base):
                return [(st, frozenset(a if self.is_list(a) and len(a) < 3 else ('L', self.elems(a)) for a in base))]
            fs = set(self.frag(a) for a in base)
            return [(st, av(SQL) if fs == set([SQL]) else TOP)]
        if any(self.is_list(a) for a in base):
            return [(st, frozenset().union(*[self.elems(a) for a in base]))]
        d = e
        if e.t == 'Name' and e.id not in fr.func.locals:
            x = self.mod.names.get(e.id)
            if x is not None and x[0] == 'var' and len(x[1]) == 1 and e.id not in self.mod.global_writes:
                d = x[1][0]
        if d.t == 'Dict' and d.values and all(v.t in ('Str', 'Num') for v in d.values):
            # one of the constants of a table
            return [(st, av(SQL))]
        return None

    def refine(self, ip, fr, st, test, sense):
        if sense and test.t == 'Call' and test.func.t == 'Name' and test.func.id == 'isinstance' and len(test.args) == 2 and test.args[0].t == 'Name':
            # an element of a list of expressions, told apart by its class
            v = st.env.get(test.args[0].id)
            if v and RAW in v:
                x = self.prog.resolve_expr(fr.func.module, test.args[1], fr.func.locals)
                if x is not None and isinstance(x, tuple) and x[0] == 'class':
                    return [st.set(test.args[0].id, frozenset(a for a in v if a[0] != 'raw') | av(('inst', x[1])))]
        return None

    def for_element(self, ip, fr, st, node, itv):
        if any(self.is_list(a) or a[0] == 'tup' for a in itv):
            return frozenset().union(*[self.elems(a) for a in itv if self.is_list(a) or a[0] == 'tup'])
        return None

    def binop(self, ip, fr, st, node, l, r):
        if node.op == 'Mod':
            out = set()
            for a in l:
                if a[0] == 'k' and a[1] == 'str':
                    out |= self.format(a[2], r)
                elif a == SQL:
                    ops = frozenset([SQL])
                    for x in r:
                        for y in ([frozenset([x])] if x[0] != 'tup' else x[1]):
                            ops = self.cat(ops, y)
                    out |= frozenset(SQL if o == SQL else (o if o == RAW else BAD) for o in ops)
                else:
                    return None
            return frozenset(out)
        if node.op == 'Add':
            if any(self.is_list(a) for a in l | r):
                return self.listadd(l, r)
            if all(a[0] == 'k' and a[1] != 'str' for a in l | r):
                return None
            if any(self.frag(a) != RAW for a in l | r):
                return self.cat(l, r)
            return None
        if node.op == 'Mult':
            if any(self.frag(a) == SQL and not (a[0] == 'k' and a[1] != 'str') for a in l):
                return av(SQL)
            if l == frozenset([EMPTY]):
                return l
        return None

    def format(self, fmt, r):
        convs = [m.group('c') for m in CONV.finditer(fmt) if m.group('c') != '%']
        if any(m.group('k') for m in CONV.finditer(fmt)):
            return frozenset([RAW])
        out = set()
        for a in r:
            ops = a[1] if a[0] == 'tup' else (frozenset([a]),)
            if len(ops) != len(convs):
                out.add(RAW)
                continue
            cur = frozenset([SQL])
            for c, v in zip(convs, ops):
                cur = self.cat(cur, frozenset([SQL]) if c in 'idufFeEgGxXoc' else v)
            out |= cur
        return frozenset(out)

    def comp(self, ip, fr, st, node, parts):
        if len(parts) != 1:
            return None
        def element(s):
            return ip.ev(parts[0], s, fr)
        return self.loop(ip, fr, st, node.generators, element)

    def loop(self, ip, fr, st, gens, element):
        """all results of building a list by a comprehension"""
        results = {}
        starts = [st]
        for g in gens:
            starts = [(s, itv) for s0 in starts for s, itv in ip.ev(g.iter, s0, fr)]
            break
        if len(gens) != 1:
            return None
        g = gens[0]
        out = []
        for s0, itv in starts:
            el = self.for_element(ip, fr, s0, g, itv)
            el = TOP if el is None else el
            work = [(s0, frozenset([EMPTY]))]
            seen = set()
            while work:
                nxt = []
                for s, acc in work:
                    tmp = self.canon(s.set('%acc', acc))
                    acc = tmp.env['%acc']
                    key = (tmp.facts, acc)
                    if key in seen:
                        continue
                    seen.add(key)
                    if len(seen) > 30:
                        raise AnalysisBroken('comprehension does not settle in %s' % fr.func.qname)
                    env = dict(tmp.env)
                    del env['%acc']
                    out.append((State(tmp.facts, env), acc))
                    for t in ip.assign(g.target, el, tmp, fr):
                        ts = [t]
                        for c in g.ifs or []:
                            ts = [x for y in ts for x in ip.cond(c, y, fr)[0]]
                        for t2 in ts:
                            for s3, v in element(t2):
                                a2 = s3.env['%acc']
                                nxt.append((s3, self.append(a2, v)))
                work = nxt
        # restore names bound by the loop
        return out

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        now, pins = st.facts
        if f.t == 'Call' and f.func.t == 'Name' and f.func.id == 'getattr':
            return [(State((now + 1, pins), st.env), av(('sql', now, now + 1)))]
        name = f.attr if f.t == 'Attribute' else (f.id if f.t == 'Name' else None)
        if f.t == 'Attribute':
            if name == 'AddParam':
                self.adds.add((fr.func.qname, node.lineno, node.col))
                return [(State((now + 1, pins), st.env), av(('sql', now, now + 1)))]
            if name == 'ParamsClass' or (callee is not None and callee[0] == 'class' and callee[1].find('AddParam')):
                return [(st, av(('params', now)))]
            if name == 'QuoteIdentifier':
                return [(st, av(SQL))]
            if name == 'get' and f.value.t == 'Attribute' and f.value.attr == 'mangledNames':
                d = args[1] if len(args) > 1 else av(NONE)
                return [(st, av(SQL) | frozenset(self.frag(a) if a != NONE else NONE for a in d))]
            if name == 'SetFromValue' and recv_path:
                c = args[0] if args else TOP
                if len(c) == 1 and next(iter(c))[0] == 'k':
                    return [(st.set(recv_path + '.#v', c), TOP)]
                env = dict(st.env)
                env.pop(recv_path + '.#v', None)
                return [(State(st.facts, env), TOP)]
            if name in ('append', 'insert') and args:
                recv = st.env.get(recv_path) if recv_path else None
                if recv is None and f.value.t == 'Attribute' and f.value.attr in self.attrs:
                    recv = self.A2.get(f.value.attr) or av(LST)
                if recv is not None:
                    x = args[-1]
                    if name == 'insert':
                        new = frozenset(('L', self.elems(l) | x) if has_marks(recv) or has_marks(x) else None for l in recv)
                        new = self.append(recv, x) if None in new else frozenset(('L', frozenset([BAD])) for l in recv)
                    else:
                        new = self.append(recv, x)
                    if f.value.t == 'Attribute' and f.value.attr in self.attrs:
                        self.record(self.A, f.value.attr, self.norm(new, now))
                    if recv_path:
                        return [(self.put(st, recv_path, new), av(NONE))]
                    return [(st, av(NONE))]
            if name == 'extend' and args and recv_path and recv_path in st.env:
                return [(self.put(st, recv_path, self.listadd(st.env[recv_path], args[0])), av(NONE))]
            if name == 'join':
                base = None
                if f.value.t == 'Name' and f.value.id == 'string':
                    lv, sep = (args + [av(SQL)])[:2] if args else (TOP, av(SQL))
                else:
                    lv = args[0] if args else TOP
                    sep = None
                    for s, b in ip.ev(f.value, st, fr):
                        sep = b
                empty = sep is None and False or all(a[0] == 'k' and a[2] == '' for a in sep or [('',)])
                j = self.joined(lv, empty)
                if sep is not None and any(self.frag(a) != SQL for a in sep):
                    j = frozenset(RAW if RAW in set(self.frag(a) for a in sep) else BAD for _ in j)
                return [(st, j)]
            if name in SAFE_METHODS:
                for s, b in ip.ev(f.value, st, fr):
                    if b and all(self.frag(a)[0] == 'sql' for a in b):
                        return [(s, frozenset(self.frag(a) for a in b))]
            if name == 'replace' and len(args) == 2:
                c = Interp.single_const(args[0])
                if c is not None and '"' in str(c[2]) and fr.func.name == 'QuoteIdentifier':
                    return [(st, av(SQL))]
                for s, b in ip.ev(f.value, st, fr):
                    if b and all(self.frag(a)[0] == 'sql' for a in b | args[0] | args[1]):
                        return [(s, frozenset(self.frag(a) for a in b))]
            if name == 'Execute' and len(args) >= 1:
                return self.execute(ip, fr, st, node, args, kw)
        if callee is not None and callee[0] == 'ext':
            x = callee[1]
            if x in ('str', 'unicode') and len(args) == 1:
                a0 = node.args[0]
                if a0.t == 'Attribute' and a0.attr == 'value':
                    for s, b in ip.ev(a0.value, st, fr):
                        if any(a[0] == 'inst' and a[1].name == 'UnparameterizedLiteral' for a in b) and all(
                                a[0] == 'inst' or a == FALSY for a in b):
                            return [(st, av(SQL))]
                if args[0] and all(self.frag(a)[0] == 'sql' for a in args[0]):
                    return [(st, frozenset(self.frag(a) for a in args[0]))]
                return [(st, av(RAW))]
            if x in ('list', 'tuple', 'sorted', 'reversed', 'iter') and len(args) == 1:
                if any(self.is_list(a) or a[0] == 'tup' for a in args[0]):
                    if x in ('sorted', 'reversed'):
                        return [(st, frozenset(a if a == LST else ('L', self.elems(a)) for a in args[0]))]
                    return [(st, frozenset(self.aslist(a) for a in args[0]))]
                return [(st, frozenset([('L', frozenset([RAW]))]))]
            if x in ('list', 'tuple') and not args:
                return [(st, av(EMPTY))]
            if x == 'zip':
                return [(st, self.zipped(node, args, ip, fr, st))]
            if x == 'map' and len(node.args) == 2 and node.args[0].t == 'Lambda' and len(node.args[0].args.args) == 1:
                g = Node('comprehension')
                g._fields = ['target', 'iter', 'ifs']
                g.target, g.iter, g.ifs = node.args[0].args.args[0], node.args[1], []
                return self.loop(ip, fr, st, [g], lambda s: ip.ev(node.args[0].body, s, fr))
            if x == 'map':
                g = frozenset([('L', frozenset([RAW]))])
                return [(st, g)]
        if callee is not None and callee[0] == 'class' and callee[1].name == 'UnparameterizedLiteral':
            self.literals[id(node)] = (fr.func, node.lineno)
            p = ip.path(node.args[0]) if node.args else None
            c = st.env.get(p + '.#v') if p else None
            if c is None and self.final:
                self.c3.setdefault('literal|%s' % fr.func.qname,
                                   '%s:%d literal: an unparameterized literal is made from a value that is not constant (%s)' % (
                                       fr.module.rel, node.lineno, fr.func.qname))
            return [(st, av(('inst', callee[1])))]
        if callee is not None and callee[0] in ('func', 'bound') and callee[1] in self.contract or \
                callee is None and name in self.byname and any(g in self.contract for g in self.byname[name]):
            for g in self.byname[name]:
                self.record_args(g, node, args, kw, now)
            return [(State((now + 1, pins), st.env), av(('sql', now, now + 1)))]
        # functions that execute: their parameters get what the calls pass
        if name in self.byname:
            for g in self.byname[name]:
                if g in self.exec_funcs or self.is_entry_like(g):
                    self.record_args(g, node, args, kw, now)
        if callee is not None and callee[0] in ('func', 'bound') and callee[1].is_generator and callee[1].module is self.mod:
            return [(st, frozenset([('L', self.Y2.get(callee[1], frozenset()))]))]
        return None

    def put(self, st, path, value):
        env = dict(st.env)
        env[path] = value
        return State(st.facts, env)

    def used(self, a, b, now):
        """a value after the statement with parameters b..now has been executed"""
        if a[0] == 'sql' and len(a) == 3:
            return QUERY if (a[1], a[2]) == (b, now) else (BAD if a[1] >= b else a)
        if a[0] == 'lst' and len(a) == 3:
            return a if a[1] < b else ('L', frozenset([BAD]))
        if a[0] == 'params' and len(a) == 2:
            return PARAMS if a[1] == b else a
        if a[0] == 'tup':
            return ('tup', tuple(frozenset(self.used(x, b, now) for x in v) for v in a[1]))
        if a[0] == 'L':
            return ('L', frozenset(self.used(x, b, now) for x in a[1]))
        return a

    def aslist(self, a):
        if self.is_list(a):
            return a
        if a[0] == 'tup':
            l = frozenset([EMPTY])
            for v in a[1]:
                l = self.append(l, v)
            return next(iter(l)) if len(l) == 1 else ('L', self.elems(a))
        return ('L', frozenset([RAW]))

    def zipped(self, node, args, ip, fr, st):
        if node.starargs is not None:
            v = ip.ev(node.starargs, st, fr)
            out = set()
            for s, x in v:
                for a in x:
                    tups = [t for t in self.elems(a) if t[0] == 'tup']
                    if not tups:
                        continue
                    n = min(len(t[1]) for t in tups)
                    cols = []
                    for i in range(n):
                        l = frozenset([LST])
                        es = frozenset().union(*[t[1][i] for t in tups])
                        if any(self.frag(e) != SQL or not (e[0] in ('k', 'sql')) for e in es):
                            l = frozenset([('L', es)])
                        cols.append(l)
                    out.add(('tup', tuple(cols)))
            return frozenset(out)
        t = tuple(frozenset().union(*[self.elems(a) for a in v]) for v in args)
        return frozenset([('L', frozenset([('tup', t)]))])

    def resolve_unknown(self, ip, fr, st, node, name):
        c = [f for f in self.byname.get(name, ()) if f in self.adding and not self.is_entry_like(f) and not f.is_generator
             and f.cls is not None]
        return c

    def record_args(self, g, node, args, kw, now):
        params = g.params
        if g.cls is not None and not g.is_static:
            params = params[1:]
        for p, v in list(zip(params, args)) + [(k, v) for k, v in kw.items() if k in params]:
            self.record(self.P, (g, p), self.norm(v, now))
        passed = set(params[:len(args)]) | set(kw)
        d = g.node.args.defaults or []
        for i, p in enumerate(params):
            j = i - (len(params) - len(d))
            if p not in passed and j >= 0:
                n = d[j]
                if n.t == 'Name' and n.id == 'None':
                    self.record(self.P, (g, p), av(NONE))
                elif n.t in ('Tuple', 'List') and not n.elts:
                    self.record(self.P, (g, p), av(EMPTY))
                elif n.t == 'Str':
                    self.record(self.P, (g, p), av(SQL))

    def on_yield(self, ip, fr, st, node, value):
        self.record(self.Y, fr.func, self.norm(value, st.facts[0]))
        return st

    def execute(self, ip, fr, st, node, args, kw):
        now, pins = st.facts
        self.executes[(fr.func.qname, node.lineno, node.col)] = fr
        par = args[1] if len(args) > 1 else next(iter(kw.values()), None)
        bases = set(a[1] for a in par or () if a[0] == 'params' and len(a) == 2)
        if not bases:
            bases = set([now] if par is None else [0])
        if self.final:
            for a in args[0]:
                for b in bases:
                    self.judge(fr, node, self.frag(a), b, now)
        b = min(bases)
        env = dict((k, frozenset(self.used(a, b, now) for a in v) if has_marks(v) else v) for k, v in st.env.items())
        return [(State(st.facts, env), TOP)]

    def judge(self, fr, node, f, b, now):
        k = '|%s' % fr.func.qname
        if f == RAW:
            self.c3.setdefault('text' + k, '%s:%d text: the statement executed may contain a data value in its text (%s)' % (
                fr.module.rel, node.lineno, fr.trail()))
        elif f == BAD:
            self.c4.setdefault('order' + k, '%s:%d order: the placeholders of the statement are not in the order '
                               'their parameters were added (%s)' % (fr.module.rel, node.lineno, fr.trail()))
        elif f == QUERY:
            pass
        elif (len(f) == 1 and now != b) or (len(f) == 3 and (f[1], f[2]) != (b, now)):
            self.c4.setdefault('missing' + k, '%s:%d order: not every parameter added has its placeholder in the '
                               'statement executed (%s)' % (fr.module.rel, node.lineno, fr.trail()))

    def kept(self, f, st, v, node):
        now = st.facts[0]
        for a in v:
            x = self.frag(a)
            if a == NONE:
                continue
            k = '|%s' % f.qname
            at = '%s:%d ' % (f.module.rel, node.lineno if node is not None else f.node.lineno)
            if x == RAW:
                self.c3.setdefault('text' + k, at + 'text: the text of an expression may contain a data value (%s)' % f.qname)
            elif x in (BAD, QUERY) or (x[1:] or (0, 0)) != (0, now):
                self.c4.setdefault('order' + k, at + 'order: the placeholders of an expression are not in the order their '
                                   'parameters were added (%s)' % f.qname)


def quote_check(prog, cl, r):
    """the identifiers' quoting: the closing quote cannot occur inside"""
    n = 0
    for f in cl.byname.get('QuoteIdentifier', ()):
        p = [x for x in f.params if x][-1]
        c2 = Text(prog, cl.mod)
        ip = Interp(prog, c2)
        out = ip.run(f, env={p: av(RAW)})
        for st, v, node in out.ret:
            n += 1
            if any(c2.frag(a) != SQL for a in v):
                r.add('quote|%s' % f.qname, '%s:%d quote: an identifier is quoted without removing or doubling the quote '
                      'character in it (%s)' % (f.module.rel, node.lineno, f.qname))
    return n


def analyse(prog, pid, tier):
    r = Result()
    mod = prog.module('pyslet.odata2.sqlds')
    cl = Text(prog, mod)
    runs = []
    def differs(f, c):
        """f, inherited by c, reaches a method that c's bases below f's class replace"""
        seen, work = set(), [f]
        while work:
            g = work.pop()
            for n in walk(g.node):
                if n.t == 'Attribute' and n.attr not in seen and n.attr in cl.byname:
                    seen.add(n.attr)
                    a, b = c.find(n.attr), f.cls.find(n.attr)
                    if a is not b and a is not None and a.module is mod:
                        return True
                    if b is not None and b.module is mod:
                        work.append(b)
        return False
    for c in mod.classes.values():
        for name in set(n for k in c.mro for n in getattr(k, 'methods', {})):
            f = c.find(name)
            if f is None or f.module is not mod:
                continue
            if f.cls is c or (f in cl.exec_funcs or f in cl.adding) and c.is_subclass(f.cls) and differs(f, c):
                runs.append((f, c))
    for f in mod.funcs.values():
        runs.append((f, None))
    nruns = 0
    for rnd in range(8):
        cl.A, cl.P, cl.Y = {}, {}, {}
        ip = Interp(prog, cl)
        for f, c in runs:
            if f.node.t == 'Lambda':
                continue
            env = {}
            for p in f.params:
                if p and (f, p) in cl.P2:
                    env[p] = cl.P2[(f, p)]
            ip.stack = []
            t0 = time.time()
            if os.environ.get('SQLT'):
                print('%d %6.2f %s %s' % (rnd, time.process_time(), c and c.name, f.qname), flush=True)
            out = ip.run(f, cls=c, env=env)
            if cl.final and f in cl.contract:
                for st, v, node in out.ret:
                    cl.kept(f, st, v, node)
            nruns += 1
        if os.environ.get('SQLT'):
            for a, b in ((cl.A, cl.A2), (cl.P, cl.P2), (cl.Y, cl.Y2)):
                for k, v in a.items():
                    if b.get(k) != v:
                        print('   ', k[0].name + ':' + k[1] if isinstance(k, tuple) else getattr(k, 'name', k), sorted(v, key=repr)[:14])
        same = (cl.A, cl.P, cl.Y) == (cl.A2, cl.P2, cl.Y2)
        for a, b in ((cl.A, cl.A2), (cl.P, cl.P2), (cl.Y, cl.Y2)):
            for k, v in a.items():
                b[k] = v if rnd < 4 else b.get(k, frozenset()) | v
        cl.first = False
        if cl.final:
            break
        if same:
            cl.final = True
    else:
        raise AnalysisBroken('attribute kinds do not settle')
    nq = quote_check(prog, cl, r) if pid == 'C03' else 0
    # constructions of literals nothing above has seen
    for m in prog.modules.values():
        for n in walk(m.tree):
            if n.t == 'Call' and (n.func.t == 'Name' and n.func.id == 'UnparameterizedLiteral' or
                                  n.func.t == 'Attribute' and n.func.attr == 'UnparameterizedLiteral') and id(n) not in cl.literals:
                cl.c3.setdefault('literal|%s:%d' % (m.name, n.lineno),
                                 '%s:%d literal: an unparameterized literal is made out of reach of the analysis' % (m.rel, n.lineno))
    for k, t in (cl.c3 if pid == 'C03' else cl.c4).items():
        r.add(k, t)
    r.floor('execute_sites', len(cl.executes), 12)
    r.floor('parameter_sites', len(cl.adds), 15)
    r.floor('functions_run', len(runs), 80)
    r.coverage['rounds'] = rnd + 1
    r.coverage['attributes'] = len(cl.A)
    r.files = ['pyslet/pyslet/odata2/sqlds.py']
    r.samples = sorted('%s:%d' % k[:2] for k in cl.executes)
    if pid == 'C03':
        r.floor('literal_sites', len(cl.literals), 2)
        r.floor('quoting_functions', nq, 1)
        r.rules = ['text', 'literal', 'quote']
        r.explanation = ('Every text that reaches the point where a statement is executed was traced to constants, mangled '
                         'names, quoted identifiers, integer formats and placeholders.')
    else:
        r.rules = ['order']
        r.explanation = ('Every concatenation, list append and join that builds a statement was checked to keep the '
                         'placeholders in the order their parameters were added, and every parameter to have its placeholder.')
    r.assumptions = ['mangled names come from the metadata model, not from requests',
                     'a parameter object is not shared between statements under construction']
    return r
