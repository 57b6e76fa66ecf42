"""C29: QTI operators pass NULL on and check what they are given.

Each operator is interpreted over the kinds of its operands: base type,
cardinality, whether it is NULL, and for a pair of single values how they
compare.  The values themselves stay opaque.  What comes out (an error of the
protocol, NULL, a value of some type) is compared with what QTI says of the
operator."""
import multiprocessing
import os
from ..frontend import walk
from ..interp import Client, Interp, Out, Frame, State, av, avk, const as k, TOP, NONE, NOTNONE, TRUE, FALSE, truth, TRUTHY, FALSY
from ..model import AnalysisBroken, walk_own, Class, dotted
from ..result import Result

TYPES = ['boolean', 'directedPair', 'duration', 'file', 'float', 'identifier', 'integer', 'pair', 'point', 'string', 'uri']
VALUE_CLASSES = dict((t[0].upper() + t[1:] + 'Value', t) for t in TYPES)
VALUE_CLASSES['URIValue'] = VALUE_CLASSES.pop('UriValue')
CARDS = {'Value': None, 'SingleValue': 'single', 'Container': None, 'OrderedContainer': 'ordered', 'MultipleContainer': 'multiple', 'RecordContainer': 'record'}
NUM = ('float', 'integer')


def bt(x):
    return NONE if x is None else ('k', 'str', 'BaseType:' + x)


def cd(x):
    return NONE if x is None else ('k', 'str', 'Cardinality:' + x)


def nullish(v):
    """is this NULL, or the value of something that may be?"""
    return NONE in v and all(a == NONE or a[0] in ('val', 'num') for a in v)


def un(atom):
    """name of an enumeration constant, or None"""
    if atom == NONE:
        return None
    if atom[0] == 'k' and isinstance(atom[2], str) and ':' in atom[2]:
        return atom[2].split(':', 1)[1]
    return '?'


class KindInterp(Interp):
    """unrolls loops over lists whose elements are known"""

    def s_For(self, n, states, fr, out):
        for st in states:
            for s, itv in self.ev(n.iter, st, fr):
                itv = self.client.as_list(itv)
                if len(itv) == 1 and next(iter(itv))[0] == 'tup' and len(next(iter(itv))[1]) <= 6:
                    cur = [s]
                    for elem in next(iter(itv))[1]:
                        T = []
                        for c in cur:
                            T.extend(self.assign(n.target, elem, c, fr))
                        o = self.block(n.body, T, fr)
                        out.ret.extend(o.ret)
                        out.exc.extend(o.exc)
                        out.normal.extend(o.brk)
                        cur = o.normal + o.cont
                    if n.orelse and cur:
                        self.absorb(self.block(n.orelse, cur, fr), out)
                    else:
                        out.normal.extend(cur)
                    continue
                if itv and all(a[0] == 'vals' for a in itv):
                    # at least one element, as often as one likes
                    cur, seen = [s], []
                    elem = av(*[('el', a[1][0] if len(a[1]) == 1 else '?') for a in itv])
                    for i in range(2):
                        T = [y for c in cur for y in self.assign(n.target, elem, c, fr)]
                        o = self.block(n.body, T, fr)
                        out.ret.extend(o.ret)
                        out.exc.extend(o.exc)
                        out.normal.extend(o.brk)
                        cur = self.merge(o.normal + o.cont, fr)
                        seen.extend(cur)
                    if n.orelse and seen:
                        self.absorb(self.block(n.orelse, seen, fr), out)
                    else:
                        out.normal.extend(seen)
                    continue
                if nullish(itv):
                    self.client.needs(self, fr, s, n.iter, NONE, 'iterate')
                self.take_excs(fr, out)
                if all(a == NONE for a in itv):
                    continue
                Interp.s_For(self, n, [s], fr, out)

    def bind(self, func, e, recv_path, st, args, kw, bound, cls):
        env, links = Interp.bind(self, func, e, recv_path, st, args, kw, bound, cls)
        if func.node.args.vararg:
            n = len(func.params) - (1 if bound and func.params else 0)
            rest = list(args[n:])
            if e.starargs is not None:
                for s, v in self.ev(e.starargs, st, fr_of(self)):
                    if not self.star(v) and self.client.as_list(v) != av(('tup', ())):
                        rest = None
                        break
            if rest is not None:
                env[func.node.args.vararg] = av(('tup', tuple(rest)))
        return env, links

    def enter(self, e, func, cls, recv_path, st, args, kw, fr, bound):
        if func.is_classmethod and not bound:
            bound, cls = True, func.cls
        self.frames.append(fr)
        try:
            return Interp.enter(self, e, func, cls, recv_path, st, args, kw, fr, bound)
        finally:
            self.frames.pop()

    frames = None

    def star(self, v):
        v = self.client.as_list(v)
        if len(v) == 1 and next(iter(v))[0] == 'tup':
            return list(next(iter(v))[1])
        return []

    def compare(self, e, st, fr):
        op = e.ops[0]
        T, F = [], []
        for s, lv in self.ev(e.left, st, fr):
            for s2, rv in self.ev(e.comparators[0], s, fr):
                for a in lv:
                    for b in rv:
                        if a[0] == b[0] == 'op' and op in ('Eq', 'NotEq'):
                            eqf = self.client.value_cls.find('__eq__')
                            if eqf is None:
                                raise AnalysisBroken('values are not compared')
                            other = [p for p in eqf.params if p][1]
                            out = self.sub(eqf, {eqf.params[0]: av(a), other: av(b)}, fr, s2, e)
                            for v in out:
                                for x in v:
                                    t = truth(x)
                                    if op == 'NotEq' and t is not None:
                                        t = not t
                                    if t is not False:
                                        T.append(s2)
                                    if t is not True:
                                        F.append(s2)
                            continue
                        r = self.client.judge(self, fr, s2, e, op, a, b, lv, rv)
                        if r == 'raises':
                            continue
                        if r is not None:
                            (T if r else F).append(s2)
                            continue
                        lp, rp = self.is_tracked(e.left, fr), self.is_tracked(e.comparators[0], fr)
                        if op in ('Is', 'Eq', 'IsNot', 'NotEq'):
                            t, f = self.eq(s2, av(a), av(b), lp, rp, op in ('Is', 'IsNot'))
                            if op in ('IsNot', 'NotEq'):
                                t, f = f, t
                        elif op in ('In', 'NotIn'):
                            t, f = self.in_(s2, av(a), av(b), lp)
                            if op == 'NotIn':
                                t, f = f, t
                        else:
                            t = f = [s2]
                        T.extend(t)
                        F.extend(f)
        return self.merge(T, fr), self.merge(F, fr)

    def sub(self, func, env, fr, st, node):
        """the values a function returns; what it raises is thrown here"""
        f2 = Frame(func, func.cls, fr.depth + 1, fr, node)
        self.frames.append(fr)
        o = self.body(func, [State(st.facts, dict(st.env, **env))], f2)
        self.frames.pop()
        for s, x, n in o.exc:
            self.throw(fr, st, x, node)
        return [v for s, v, n in o.ret]


def fr_of(ip):
    return ip.frames[-1]


class Kinds(Client):
    init_facts = frozenset()
    max_depth = 8
    max_states = 400

    def __init__(self, model, ctx):
        self.m, self.ctx = model, ctx
        self.value_cls = model['Value']
        self.crash = {}

    # ---- what is entered
    def relevant(self, ip, func):
        return func.module in self.m['modules'] and func.name not in ('IntegerOrTemplateRef', 'FloatOrTemplateRef', 'StringOrTemplateRef',
                                                                     'SetValue', 'TestPoint', '__init__', 'GetValues', 'Evaluate')

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def truthiness(self, a):
        if a[0] == 'op':
            return a[4]
        if a[0] == 'res':
            return {'null': False, 'non': True}.get(a[3])
        if a[0] in ('val', 'opq'):
            return None
        if a[0] == 'vals':
            return True
        return truth(a)

    def as_list(self, v):
        return v

    # ---- operands
    def fail(self, ip, fr, st, node, exc, why):
        self.crash[exc + ': ' + why] = '%s:%d' % (fr.module.rel, getattr(node, 'lineno', 0))
        ip.throw(fr, st, 'crash', node)

    def needs(self, ip, fr, st, node, a, what):
        """the value of an operand is used: NULL has none"""
        if a == NONE:
            self.fail(ip, fr, st, node, 'TypeError', 'the value of an operand is used though it is NULL')
            return False
        return True

    def operands(self):
        return ('tup', tuple(av(('op', i) + kd) for i, kd in enumerate(self.ctx['kinds'])))

    def attr_load(self, ip, fr, st, node, base, p):
        out = set()
        n = node.attr
        for a in base:
            if a[0] == 'class' and isinstance(a[1], Class) and a[1].name in self.m['enums'] and n in self.m['enums'][a[1].name]:
                out.add(('k', 'str', '%s:%s' % (a[1].name, n)))
            elif a[0] == 'op':
                i, t, c, non, v = a[1:]
                if n == 'baseType':
                    out.add(bt(t))
                elif n == 'value':
                    out.add(NONE if not non else k(v) if isinstance(v, bool) else ('val', i, t, c))
                elif n in ('Cardinality', 'IsNull', 'GetValues'):
                    out.add(('opm', a, n))
                else:
                    out.add(('opq', i))
            elif a[0] == 'res':
                if n == 'baseType':
                    out.add(bt(a[1]) if a[1] != '?' else TRUTHY)
                elif n == 'value':
                    out |= set([NONE]) if a[3] == 'null' else TOP if a[3] == 'may' else NOTNONE
                elif n in ('Cardinality', 'IsNull', 'GetValues', 'SetValue'):
                    out.add(('opm', a, n))
                else:
                    out.add(TRUTHY)
            elif a[0] == 'val' or a == NONE and nullish(base):
                if a == NONE and not self.needs(ip, fr, st, node, a, n):
                    continue
                out.add(('vm', a, n))
            elif a[0] in ('exc', 'inst') and getattr(a[1], 'name', '') == 'NullResult' and n == 'value':
                out.add(('res', 'boolean', 'single', 'null', None))
            elif a[0] == 'inst' and n == 'Expression':
                if self.ctx['unary']:
                    out.add(('expr', 0))
                else:
                    out.add(('tup', tuple(av(('expr', i)) for i in range(len(self.ctx['kinds'])))))
            elif a[0] == 'inst' and n in self.ctx.get('attrs', ()):
                out.add(self.ctx['attrs'][n])
            elif a[0] == 'expr' and n == 'Evaluate':
                out.add(('ev', a[1]))
            elif a[0] == 'k' and a[1] == 'str' or a[0] in ('tup', 'vals'):
                out.add(('vm', a, n))
            else:
                return None
        return [(st, frozenset(out))]

    def list_display(self, ip, fr, st, node, values):
        return av(('tup', tuple(values))) if len(values) <= 8 else None

    def binop(self, ip, fr, st, node, left, right):
        ok = True
        for v in (left, right):
            if nullish(v):
                ok = self.needs(ip, fr, st, node, NONE, 'arithmetic')
            for a in v:
                if a[0] == 'op' or a[0] == 'res':
                    self.fail(ip, fr, st, node, 'TypeError', 'arithmetic on a value object')
        if node.op == 'Mod' and left and all(a[0] == 'k' and a[1] == 'str' for a in left):
            return av(TRUTHY)
        if len(left) == len(right) == 1:
            (a,), (b,) = left, right
            if a[0] == b[0] == 'tup' and node.op == 'Add':
                return av(('tup', a[1] + b[1]))
            if set([a[0], b[0]]) <= set(['tup', 'vals']) and node.op == 'Add':
                return av(self.vals(av(a), av(b)))
            if a[0] == b[0] == 'k' and all(isinstance(x[2], (int, bool)) for x in (a, b)) and node.op in ('Add', 'Sub', 'Mult'):
                x, y = a[2], b[2]
                return avk({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[node.op])
        if node.op in ('Div', 'FloorDiv', 'Mod') and any(a[0] in ('val', 'opq') for a in right):
            ip.throw(fr, st, 'ZeroDivisionError', node)
        # integers that are worked out may be beyond the range of the integers of QTI
        tys = set(a[2] for v in (left, right) for a in v if a[0] in ('val', 'num'))
        if tys and tys <= set(NUM):
            t = 'float' if 'float' in tys else 'integer'
            return av(('num', None, t, 'worked out'))
        return av(('opq', 'x'))

    # ---- comparisons
    def judge(self, ip, fr, st, e, op, a, b, lv, rv):
        if op in ('In', 'NotIn') and b[0] == 'op':
            if b[3] != 'record':
                self.fail(ip, fr, st, e, 'TypeError', 'in a value that is no record')
                return 'raises'
            return (op == 'NotIn') if not b[4] else None
        if a[0] in ('val', 'num') and b[0] in ('val', 'num') and a[1] is not None and b[1] is not None and a[1] != b[1]:
            rel = self.ctx.get('rel')
            if op in ('In', 'NotIn'):
                r = self.ctx.get('in')
                if r is None:
                    return None
                r = (a[1], b[1]) in r
                return r if op == 'In' else not r
            if rel is None:
                return None
            if a[1] > b[1]:
                rel = {'<': '>', '>': '<', '=': '=', '!': '!'}[rel]
            if rel == '!':
                return {'Eq': False, 'NotEq': True}.get(op)
            return {'Eq': rel == '=', 'NotEq': rel != '=', 'Lt': rel == '<', 'LtE': rel in '<=', 'Gt': rel == '>', 'GtE': rel in '>='}.get(op)
        if op in ('In', 'NotIn') and b == NONE and nullish(rv):
            self.needs(ip, fr, st, e, b, 'in')
            return 'raises'
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            if (a == NONE and nullish(lv) or b == NONE and nullish(rv)) and (a[0] in ('val', 'num') or b[0] in ('val', 'num') or a == b):
                self.needs(ip, fr, st, e, NONE, 'compare')
                return 'raises'
            if a[0] == b[0] == 'k' and not isinstance(a[2], str) and not isinstance(b[2], str):
                x, y = a[2], b[2]
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        if a[0] in ('val', 'num') and b == NONE or a == NONE and b[0] in ('val', 'num', 'op', 'res'):
            return {'Is': False, 'Eq': False, 'IsNot': True, 'NotEq': True}.get(op)
        if a[0] in ('op', 'res') and b == NONE:
            return {'Is': False, 'IsNot': True}.get(op)
        return None

    # ---- calls
    def comp(self, ip, fr, st, node, parts):
        if len(node.generators) != 1 or len(parts) != 1:
            return None
        g = node.generators[0]
        out = []
        for s, itv in ip.ev(g.iter, st, fr):
            if len(itv) != 1 or next(iter(itv))[0] != 'tup' or len(next(iter(itv))[1]) > 6:
                return None
            cur = [(s, ())]
            for elem in next(iter(itv))[1]:
                nxt = []
                for s2, vs in cur:
                    for s3 in ip.assign(g.target, elem, s2, fr):
                        yes, no = [s3], []
                        for c in g.ifs:
                            y2 = []
                            for y in yes:
                                t, f = ip.cond(c, y, fr)
                                y2.extend(t)
                                no.extend(f)
                            yes = y2
                        for y in yes:
                            for s4, v in ip.ev(parts[0], y, fr):
                                nxt.append((s4, vs + (v,)))
                        nxt.extend((f, vs) for f in no)
                cur = nxt
            out.extend((s2, av(('tup', vs))) for s2, vs in cur)
        return out

    def evaluated(self, i):
        return av(('op', i) + self.ctx['kinds'][i])

    def made(self, ip, fr, st, node, cls, args, kw):
        """a value object is constructed"""
        name = cls.name
        t, c = self.m['types'].get(name), self.m['cards'].get(name)
        first = args[0] if args else kw.get('value') or kw.get('baseType')
        if c in ('ordered', 'multiple') or name == 'Container':
            ts = set(un(a) for a in first) if first else set([None])
            return [(st, av(*[('res', x, c, 'null', None) for x in ts]))]
        if t is None:
            return [(st, av(('res', None, c, 'null', None)))]
        return self.set_single(ip, fr, st, node, t, first)

    def set_single(self, ip, fr, st, node, t, v):
        out = set()
        if v is None:
            v = av(NONE)
        for a in v:
            if a == NONE:
                out.add(('res', t, 'single', 'null', None))
                continue
            if a[0] in ('op', 'res', 'vals', 'tup') and t not in ('point', 'pair', 'directedPair'):
                self.fail(ip, fr, st, node, 'ValueError', 'a %s is made from something that is not one value' % t)
                continue
            if a[0] in ('val', 'num') and a[1] != 'res':
                ty, c = a[2], a[3]
                bad = c not in ('single', 'worked out') if a[0] == 'val' else False
                if bad or ty != t and not (ty == 'boolean' and t == 'integer' or ty == 'integer' and t in ('boolean',) or ty == '?' or t == '?'):
                    self.fail(ip, fr, st, node, 'ValueError', 'a value of type %s is made from one of type %s' % (t, ty))
                    continue
            out.add(('res', t, 'single', 'non' if a != TRUTHY or True else 'may', a[2] if a[0] == 'k' else None))
        return [(st, frozenset(out))] if out else []

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if callee is not None and callee[0] == 'class' and isinstance(callee[1], Class) and callee[1].is_subclass(self.value_cls):
            return self.made(ip, fr, st, node, callee[1], args, kw)
        if callee is not None and callee[0] == 'class' and isinstance(callee[1], Class) and callee[1].name == 'NullResult':
            return [(st, av(('inst', callee[1])))]
        if name == 'Evaluate':
            for s, b in ip.ev(f.value, st, fr):
                for a in b:
                    if a[0] == 'expr':
                        return [(st, self.evaluated(a[1]))]
            return [(st, av(*[('op', i) + kd for i, kd in enumerate(self.ctx['kinds'])]))] if self.ctx['kinds'] else None
        if name == 'EvaluateChildren':
            return [(st, av(self.operands()))]
        if name in ('IntegerOrTemplateRef', 'FloatOrTemplateRef'):
            x = node.args[-1]
            if x.t == 'Attribute' and x.attr in self.ctx.get('numbers', ()):
                return [(st, avk(self.ctx['numbers'][x.attr]))]
            return [(st, av(('opq', name)))]
        if name == 'TestPoint':
            for v in args[:1]:
                if any(a == NONE for a in v):
                    self.needs(ip, fr, st, node, NONE, name)
                    return []
            return [(st, av(TRUE, FALSE))]
        if name == 'StringOrTemplateRef':
            return [(st, av(('opq', name)))]
        if f.t == 'Attribute' and (callee is None or callee[0] not in ('func', 'bound', 'class', 'ext')):
            out = []
            for s, b in ip.ev(f, st, fr):
                for a in b:
                    r = self.method(ip, fr, s, node, a, recv_path, args)
                    if r is None:
                        r = [(s, TOP)]
                    out.extend(r)
            if out or not b:
                return out
            return []
        if f.t == 'Name' or callee is not None and callee[0] == 'ext':
            n = name
            if n == 'map' and node.args and len(args) == 2 and len(args[1]) == 1 and next(iter(args[1]))[0] == 'tup':
                return self.mapped(ip, fr, st, node, next(iter(args[1]))[1])
            if n == 'filter' and len(args) == 2 and node.args[0].t == 'Lambda':
                return None
            if n in ('list', 'tuple', 'sorted', 'reversed') and len(args) == 1 and args[0]:
                if all(a[0] in ('tup', 'vals') for a in args[0]):
                    return [(st, args[0])]
                if all(a[0] == 'val' for a in args[0]):
                    if any(a[3] not in ('ordered', 'multiple') for a in args[0]):
                        return [(st, TOP)]
                    return [(st, av(('vals', (next(iter(args[0]))[1],))))]
                if nullish(args[0]):
                    self.needs(ip, fr, st, node, NONE, n)
                    return []
            if n == 'len' and len(args) == 1 and len(args[0]) == 1:
                a = next(iter(args[0]))
                if a[0] == 'tup':
                    return [(st, avk(len(a[1])))]
                if a == NONE:
                    self.needs(ip, fr, st, node, NONE, n)
                    return []
                return [(st, av(('opq', 'len')))]
            if n in ('any', 'all') and len(args) == 1 and len(args[0]) == 1 and next(iter(args[0]))[0] == 'tup':
                ts = [set(self.truthiness(a) for a in v) for v in next(iter(args[0]))[1]]
                if all(len(t) == 1 and None not in t for t in ts):
                    ts = [list(t)[0] for t in ts]
                    return [(st, av(k(any(ts) if n == 'any' else all(ts))))]
                return [(st, av(TRUE, FALSE))]
            if n in ('float', 'int', 'str', 'unicode') and len(args) == 1:
                out = set()
                for a in args[0]:
                    if a == NONE and n in ('float', 'int') and nullish(args[0]):
                        self.needs(ip, fr, st, node, NONE, n)
                    elif a[0] in ('val', 'num') and n in ('float', 'int'):
                        if a[2] not in NUM + ('duration', 'boolean', '?') or a[0] == 'val' and a[3] != 'single':
                            self.fail(ip, fr, st, node, 'TypeError', '%s of a value that is not a number' % n)
                        elif n == 'int' and a[2] == 'float':
                            # what is not a number, or infinite, cannot be made an integer
                            ip.throw(fr, st, 'ValueError', node)
                            ip.throw(fr, st, 'OverflowError', node)
                            out.add(('num', None, 'integer', 'worked out'))
                        else:
                            t = 'float' if n == 'float' else 'integer'
                            out.add((a[0] if a[0] == 'num' else 'num', a[1], t, a[3]))
                    elif a[0] in ('op', 'res'):
                        self.fail(ip, fr, st, node, 'TypeError', '%s of a value object' % n)
                    elif a[0] == 'k' and not isinstance(a[2], str):
                        out.add(('num', None, 'float' if n == 'float' else 'integer', 'single'))
                    else:
                        out.add(('opq', n))
                return [(st, frozenset(out))] if out else []
            if n == 'sum' and args and len(args[0]) == 1:
                a = next(iter(args[0]))
                if a[0] == 'tup':
                    cur = av(k(0))
                    for v in a[1]:
                        cur = self.binop(ip, fr, st, type('N', (), {'op': 'Add', 'lineno': node.lineno})(), cur, v)
                    return [(st, cur)]
            if n == 'pow':
                ip.throw(fr, st, 'ValueError', node)
                ip.throw(fr, st, 'OverflowError', node)
                return [(st, av(('num', None, 'float', 'worked out')))]
            if n in ('floor', 'ceil'):
                return [(st, av(*[('num', None, 'float', 'worked out') if a[0] in ('val', 'num') else ('opq', n) for a in args[0]]))]
            if n == 'isinstance':
                return None
            if n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'cmp') and len(args) == 2 and len(args[0]) == len(args[1]) == 1:
                (a,), (b,) = args
                J = lambda o: self.judge(ip, fr, st, node, o, a, b, args[0], args[1])
                if n == 'cmp':
                    x, y = J('Lt'), J('Eq')
                    if x in (True, False) and y in (True, False):
                        return [(st, avk(-1 if x else 0 if y else 1))]
                    return [(st, avk(-1) | avk(0) | avk(1))]
                x = J({'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}[n])
                if x == 'raises':
                    return []
                return [(st, av(TRUE, FALSE) if x is None else av(k(x)))]
        if name == 'pow' or name in ('floor', 'ceil'):
            if name == 'pow':
                ip.throw(fr, st, 'ValueError', node)
                ip.throw(fr, st, 'OverflowError', node)
            return [(st, av(('num', None, 'float', 'worked out')))]
        return None

    def mapped(self, ip, fr, st, node, elems):
        g = node.args[0]
        cur = [(st, ())]
        for elem in elems:
            nxt = []
            for s, vs in cur:
                if g.t == 'Lambda':
                    p = g.args.args[0]
                    env = dict(s.env)
                    env[p.id if hasattr(p, 'id') else str(p)] = elem
                    for s2, v in ip.ev(g.body, State(s.facts, env), fr):
                        nxt.append((s, vs + (v,)))
                else:
                    nxt.append((s, vs + (TOP,)))
            cur = nxt
        return [(s, av(('tup', vs))) for s, vs in cur]

    def method(self, ip, fr, st, node, a, recv_path, args):
        if a[0] == 'opm':
            o, n = a[1], a[2]
            if n == 'Cardinality':
                return [(st, av(cd(o[3] if o[0] == 'op' else o[2])))]
            if n == 'IsNull':
                t = self.truthiness(o)
                return [(st, av(FALSE, TRUE) if t is None else av(k(not t)))]
            if n == 'GetValues':
                if o[0] == 'op':
                    if o[3] not in ('ordered', 'multiple'):
                        self.fail(ip, fr, st, node, 'AttributeError', 'the values of something that is no container')
                        return []
                    return [(st, av(('vals', (o[1],)) if o[4] else ('tup', ())))]
                return [(st, av(('vals', ('?',))))]
            if n == 'SetValue' and o[0] == 'res':
                if o[2] in ('ordered', 'multiple'):
                    null = 'may'
                    if args:
                        null = self.emptiness(args[0])
                    new = ('res', o[1], o[2], null, self.whose(args[0]) if args else None)
                    if o[1] is None and null != 'null':
                        self.fail(ip, fr, st, node, 'ValueError', 'a container without a base type is given values')
                        return []
                    res = [(st, av(new))]
                else:
                    if o[1] is None:
                        if args and all(x == NONE for x in args[0]):
                            res = [(st, av(o))]
                        else:
                            self.fail(ip, fr, st, node, 'ValueError', 'a value without a base type is set')
                            return []
                    else:
                        v = args[0] if args else None
                        # elements of the container the type is taken from
                        if v and all(x[0] in ('elem', 'truthy', 'falsy', 'none', 'opq') for x in v):
                            v = av(('opq', 'elem'))
                        res = self.set_single(ip, fr, st, node, o[1], v)
                p = ip.path(node.func.value)
                return [(s.set(p, v) if p else s, av(NONE)) for s, v in res]
            return [(st, TOP)]
        if a[0] == 'ev':
            return [(st, self.evaluated(a[1]))]
        if a[0] == 'vm':
            o, n = a[1], a[2]
            if n in ('append', 'extend', 'insert') and o[0] == 'tup':
                p = ip.path(node.func.value)
                if n == 'extend':
                    x = args[0]
                    if len(x) == 1 and next(iter(x))[0] == 'tup':
                        new = ('tup', o[1] + next(iter(x))[1])
                    else:
                        if nullish(x):
                            self.needs(ip, fr, st, node, NONE, n)
                            return []
                        new = self.vals(av(o), x)
                else:
                    new = ('tup', o[1] + (args[-1],))
                    if len(new[1]) > 8 or self.whose(args[-1]) == ('?',) and not all(x[0] in ('op', 'res', 'k') for x in args[-1]):
                        new = self.vals(av(o), args[-1])
                return [(st.set(p, av(new)) if p else st, av(NONE))]
            if o[0] == 'vals' and n in ('append', 'extend'):
                p = ip.path(node.func.value)
                new = self.vals(av(o), args[0] if n == 'extend' else av(('tup', (args[0],))))
                return [(st.set(p, av(new)) if p else st, av(NONE))]
            if o[0] == 'val' and n in ('lower', 'upper', 'strip'):
                if o[2] not in ('string', 'identifier') or o[3] != 'single':
                    self.fail(ip, fr, st, node, 'AttributeError', '%s of a value that is not a string' % n)
                    return []
                return [(st, av(o))]
            if o[0] == 'val' and n in ('keys', 'values', 'items', 'get', 'iterkeys'):
                if o[3] not in ('multiple', 'record'):
                    self.fail(ip, fr, st, node, 'AttributeError', 'the %s of a value of another cardinality' % n)
                    return []
                return [(st, av(o) if n in ('keys', 'iterkeys') else av(('opq', n)))]
            return [(st, av(('opq', n)) if o[0] == 'val' else TOP)]
        return None

    def vals(self, x, y):
        """a list put together from two: whose values it holds"""
        w = self.whose(x) + self.whose(y)
        return ('vals', ('?',) if '?' in w or len(w) > 8 else w)

    def whose(self, v):
        out = set()
        for a in v:
            if a[0] == 'vals':
                out.add(a[1])
            elif a[0] in ('val', 'el'):
                out.add((a[1],))
            elif a[0] == 'tup':
                w = ()
                for x in a[1]:
                    if len(x) == 1 and next(iter(x))[0] in ('val', 'el'):
                        if next(iter(x))[0] == 'val' or w[-1:] != (next(iter(x))[1],):
                            w += (next(iter(x))[1],)
                    elif x != frozenset([NONE]):
                        w += ('?',)
                out.add(w)
            elif a != NONE:
                out.add(('?',))
        return out.pop() if len(out) == 1 else ('?',)

    def emptiness(self, v):
        r = set()
        for a in v:
            if a[0] == 'vals':
                r.add('non')
            elif a[0] == 'tup':
                non = [x for x in a[1] if all(y != NONE for y in x)]
                null = [x for x in a[1] if all(y == NONE for y in x)]
                r.add('non' if non else 'null' if len(null) == len(a[1]) else 'may')
            elif a == NONE:
                r.add('null')
            else:
                r.add('may')
        return r.pop() if len(r) == 1 else 'may'

    def subscript_load(self, ip, fr, st, node, base, index):
        for a in base:
            if a[0] == 'op':
                return [(st, av(('res', '?', 'single', 'non', None)))] if a[3] == 'record' and a[4] else self.fail(ip, fr, st, node, 'TypeError', 'a value that is no record is indexed') or []
            if a == NONE and nullish(base):
                self.needs(ip, fr, st, node, NONE, 'index')
                return []
            if a[0] == 'val':
                if a[3] not in ('ordered', 'multiple', 'record'):
                    self.fail(ip, fr, st, node, 'TypeError', 'a single value is indexed')
                    return []
                return [(st, av(('opq', 'elem')))]
        return None

    def for_element(self, ip, fr, st, node, itv):
        if any(a[0] in ('val', 'vals', 'opq') for a in itv):
            return av(('opq', 'elem'))
        return None


# ------------------------------------------------------------ what QTI says
def typed(kinds):
    return set(kd[0] for kd in kinds if kd[0] is not None)


def cards(kinds):
    return set(kd[1] for kd in kinds if kd[1] is not None)


def same(types, allowed=None):
    return len(types) <= 1 and (allowed is None or types <= set(allowed))


def expected(op, kinds, ctx):
    """-> (legal, acceptable results when legal, loose)

    A result is 'error' or (type, cardinality, null?, value or None)."""
    T, C = typed(kinds), cards(kinds)
    null = any(not kd[2] for kd in kinds)
    rel = ctx.get('rel')
    single = C <= set(['single'])
    B = lambda v: [('boolean', 'single', 'non', v)]
    BN = [('boolean', 'single', 'null', None)]
    BA = [('boolean', 'single', 'non', True), ('boolean', 'single', 'non', False)]

    def both(t, res):
        return [(t, 'single', 'null', None)] if null else res

    if op in ('lt', 'gt', 'lte', 'gte', 'equal', 'equalRounded', 'durationLT', 'durationGTE'):
        legal = len(kinds) == 2 and single and (T <= set(NUM) if not op.startswith('d') else T <= set(['duration']))
        if not legal:
            return False, []
        if null:
            return True, BN
        if op == 'equalRounded' or op == 'equal' and ctx.get('mode') != 'exact':
            return True, BA + ['error']
        v = {'lt': rel == '<', 'durationLT': rel == '<', 'gt': rel == '>', 'lte': rel in '<=', 'gte': rel in '>=', 'durationGTE': rel in '>=', 'equal': rel == '='}[op]
        return True, B(v)
    if op == 'match':
        if len(kinds) != 2 or len(T) > 1 or 'duration' in T or len(C) > 1:
            return False, []
        return True, BN if null else B(rel == '=')
    if op in ('stringMatch', 'substring'):
        if len(kinds) != 2 or not T <= set(['string']) or not single:
            return False, []
        if null:
            return True, BN
        if op == 'substring' or ctx.get('sub'):
            return True, B((0, 1) in ctx['in'])
        return True, B(rel == '=')
    if op == 'patternMatch':
        if not T <= set(['string']) or not single:
            return False, []
        return True, BN if null else BA + BN
    if op == 'not':
        if not T <= set(['boolean']) or not single:
            return False, []
        return True, BN if null else B(not kinds[0][3])
    if op in ('and', 'or', 'anyN'):
        if not T <= set(['boolean']) or not single:
            return False, []
        vs = [kd[3] if kd[2] else None for kd in kinds]
        if op == 'and':
            return True, B(False) if False in vs else BN if None in vs else B(True)
        if op == 'or':
            return True, B(True) if True in vs else BN if None in vs else B(False)
        lo, hi = ctx['numbers']['min'], ctx['numbers']['max']
        n, u = vs.count(True), vs.count(None)
        poss = set(lo <= x <= hi for x in range(n, n + u + 1))
        if len(poss) == 2:
            return True, BN
        # the same answer whatever the NULLs stand for; QTI leaves NULL open only where it matters
        return True, B(poss.pop())
    if op == 'isNull':
        return True, B(not kinds[0][2])
    if op == 'containerSize':
        if kinds[0][1] is None:
            return True, ['error', ('integer', 'single', 'non', 0)]
        if kinds[0][1] not in ('ordered', 'multiple'):
            return False, []
        return True, [('integer', 'single', 'non', 0)] if null else [('integer', 'single', 'non', None)]
    if op in ('index', 'random'):
        t, c = kinds[0][0], kinds[0][1]
        if c is None:
            return True, ['error', (None, None, 'null', None), (None, 'single', 'null', None)]
        if c not in (('ordered',) if op == 'index' else ('ordered', 'multiple')):
            return False, []
        n = (t, 'single', 'null', None)
        if null:
            return True, [n]
        return True, [(t, 'single', 'non', None)] + ([n, 'error'] if op == 'index' else [])
    if op == 'fieldValue':
        if kinds[0][1] is None:
            return True, ['error', (None, None, 'null', None), (None, 'single', 'null', None)]
        return kinds[0][1] == 'record', ['any']
    if op == 'member':
        if len(kinds) != 2:
            return False, []
        s, c = kinds
        if len(T) > 1 or 'duration' in T or s[1] not in ('single', None) or c[1] not in ('ordered', 'multiple', None):
            return False, []
        return True, BN if null else B((0, 1) in ctx['in'])
    if op == 'delete':
        if len(kinds) != 2:
            return False, []
        s, c = kinds
        if len(T) > 1 or 'duration' in T or s[1] not in ('single', None) or c[1] not in ('ordered', 'multiple', None):
            return False, []
        t = c[0] if c[0] is not None else s[0]
        n = (t, c[1], 'null', None)
        return True, [n] if null else [n, (t, c[1], 'non', None)]
    if op == 'contains':
        if len(kinds) != 2 or len(T) > 1 or 'duration' in T or len(C) > 1 or not C <= set(['ordered', 'multiple']):
            return False, []
        return True, BN if null else BA
    if op in ('multiple', 'ordered'):
        non = [kd for kd in kinds if kd[2]]
        if len(T) > 1 or not cards(non) <= set(['single', op]):
            return False, []
        t = T.pop() if T else None
        if not T and any(kd[1] == 'record' for kd in kinds):
            pass
        return True, [(t, op, 'non' if non else 'null', tuple(i for i, kd in enumerate(kinds) if kd[2]) or None)]
    if op in ('sum', 'product', 'subtract'):
        if not T <= set(NUM) or not single or (op == 'subtract' and len(kinds) != 2) or not kinds:
            return False, []
        t = 'float' if 'float' in T else 'integer' if T else None
        if null:
            return True, [(t, 'single', 'null', None)]
        r = [(t, 'single', 'non', None)]
        return True, r + ([(t, 'single', 'null', None)] if t == 'integer' else []) + ['error']
    if op in ('divide', 'power'):
        if not T <= set(NUM) or not single or len(kinds) != 2:
            return False, []
        n = ('float', 'single', 'null', None)
        return True, [n] if null else [n, ('float', 'single', 'non', None)]
    if op in ('integerDivide', 'integerModulus'):
        if not T <= set(['integer']) or not single or len(kinds) != 2:
            return False, []
        n = ('integer', 'single', 'null', None)
        return True, [n] if null else [n, ('integer', 'single', 'non', None)]
    if op in ('truncate', 'round', 'integerToFloat'):
        src, dst = ('float', 'integer') if op != 'integerToFloat' else ('integer', 'float')
        if not T <= set([src]) or not single:
            return False, []
        n = (dst, 'single', 'null', None)
        if null:
            return True, [n]
        return True, [(dst, 'single', 'non', None)] + ([n] if dst == 'integer' else [])
    if op == 'inside':
        if not T <= set(['point']) or not C <= set(['single', 'ordered', 'multiple']):
            return False, []
        return True, BN if null else BA
    raise KeyError(op)


UNARY = ('containerSize', 'isNull', 'index', 'fieldValue', 'random', 'not', 'patternMatch', 'inside', 'truncate', 'round', 'integerToFloat')
BINARY = ('member', 'delete', 'contains', 'substring', 'match', 'stringMatch', 'equal', 'equalRounded', 'lt', 'gt', 'lte', 'gte',
          'durationLT', 'durationGTE', 'subtract', 'divide', 'power', 'integerDivide', 'integerModulus')
NARY = ('multiple', 'ordered', 'and', 'or', 'anyN', 'sum', 'product')


def grid(types, values=False):
    out = [(None, None, False, None), (None, 'single', False, None), (None, 'ordered', False, None), (None, 'multiple', False, None),
           (None, 'record', False, None), (None, 'record', True, 'x')]
    for t in types:
        for c in ('single', 'ordered', 'multiple'):
            out.append((t, c, False, None))
            if t == 'boolean' and c == 'single':
                out += [(t, c, True, True), (t, c, True, False)]
            else:
                out.append((t, c, True, 'x'))
    return out


FEW = ['boolean', 'duration', 'float', 'integer', 'string', 'identifier', 'point']


def cases(op, deep):
    """the kinds of operands an operator is followed with, and the contexts"""
    types = TYPES if deep else FEW
    if op in UNARY:
        for kd in grid(TYPES):
            yield (kd,), {}
        return
    if op in BINARY:
        # only how two values compare matters here
        one = [x[:3] + ('x' if x[2] else None,) for x in grid(types) if x[3] is not False]
        yield (), {}
        yield (one[6],), {}
        yield (one[6],) * 3, {}
        for a in one:
            for b in one:
                kinds = (a, b)
                T, C = typed(kinds), cards(kinds)
                if a[2] and b[2] and len(C) == 1 and 'single' in C or op == 'match':
                    rels = '<=>' if op not in ('match', 'stringMatch') else '=!'
                    if op in ('substring', 'member', 'delete', 'subtract', 'divide', 'power', 'integerDivide', 'integerModulus', 'contains', 'equalRounded'):
                        rels = '='
                else:
                    rels = '='
                for rel in rels:
                    ctx = {'rel': rel}
                    if op in ('substring', 'member', 'stringMatch'):
                        for inn in ([(0, 1)], [(1, 0)]):
                            for cs in (TRUE, FALSE) if op != 'member' else (TRUE,):
                                for sub in ((TRUE, FALSE) if op == 'stringMatch' else (TRUE,)):
                                    if not (a[2] and b[2]) and (inn != [(0, 1)] or cs != TRUE or sub != TRUE):
                                        continue
                                    yield kinds, dict(ctx, **{'in': inn, 'sub': sub == TRUE, 'attrs': {'caseSensitive': cs, 'substring': sub}})
                    elif op == 'equal':
                        yield kinds, dict(ctx, mode='exact', attrs={'toleranceMode': ('k', 'str', 'ToleranceMode:exact')})
                        if a[2] and b[2]:
                            for m in ('absolute', 'relative'):
                                yield kinds, dict(ctx, mode=m, attrs={'toleranceMode': ('k', 'str', 'ToleranceMode:' + m)})
                    else:
                        yield kinds, ctx
        return
    main = ['boolean'] if op in ('and', 'or', 'anyN') else ['float', 'integer'] if op in ('sum', 'product') else ['integer', 'string']
    one = grid(main + ['point'] + (['duration', 'identifier'] if deep else []))
    small = [x for x in grid(main) if x[1] == 'single']
    lists = [()] + [(a,) for a in one] + [(a, b) for a in one for b in one] + [(a, b, c) for a in small for b in small for c in small]
    for kinds in lists:
        if op == 'anyN':
            legal = typed(kinds) <= set(['boolean']) and cards(kinds) <= set(['single'])
            for lo in ((0, 1, 2, 3) if legal else (1,)):
                for hi in ((0, 1, 2, 3) if legal else (2,)):
                    if lo > hi:
                        continue
                    yield kinds, {'numbers': {'min': lo, 'max': hi}}
        else:
            yield kinds, {}


def show(kinds):
    def one(kd):
        if kd[0] is None and kd[1] is None:
            return 'NULL'
        s = '%s %s' % (kd[1] or '', kd[0] or 'untyped')
        if not kd[2]:
            return 'NULL ' + s
        return s + (' %s' % kd[3] if isinstance(kd[3], bool) else '')
    return '(%s)' % ', '.join(one(kd).strip() for kd in kinds)


def outcomes(prog, m, op, cls, kinds, ctx):
    ctx = dict(ctx, kinds=kinds, unary=op in UNARY)
    f = cls.find('Evaluate')
    cl = Kinds(m, ctx)
    ip = KindInterp(prog, cl)
    ip.frames = []
    out = ip.run(f, cls=cls)
    res = set()
    for s, v, node in out.ret:
        for a in v:
            if a[0] == 'res':
                whose = a[4] if op in ('multiple', 'ordered') and isinstance(a[4], tuple) and a[3] != 'null' else None
                if whose is not None and '?' in whose:
                    whose = None
                if whose is not None and op == 'multiple':
                    whose = tuple(sorted(whose))
                res.add((a[1], a[2], a[3], a[4] if a[4] is None or isinstance(a[4], bool) or a[4] == 0 else whose))
            elif a[0] == 'op':
                res.add((a[2], a[3], 'non' if a[4] else 'null', None))
            elif a == NONE:
                res.add('nothing')
            else:
                res.add('any')
    for s, x, node in out.exc:
        n = getattr(x, 'name', x)
        if isinstance(n, tuple):
            n = str(n[-1])
        if n == 'crash':
            n = '; '.join(sorted(cl.crash)) or 'crash'
        res.add('error' if n == 'ProcessingError' else 'raises ' + str(n).split('.')[-1])
    return res, ip.entered


def fits(r, want):
    if 'any' in want:
        return r == 'any' or isinstance(r, tuple)
    if r in want:
        return True
    if isinstance(r, tuple):
        for w in want:
            if isinstance(w, tuple) and w[0] == r[0] and w[1] == r[1]:
                if w[2] == r[2] and (w[3] is None or r[3] is None and isinstance(w[3], tuple)):
                    return True
                if r[2] == 'may' and any(isinstance(y, tuple) and y[2] == 'null' for y in want) and any(isinstance(y, tuple) and y[2] == 'non' for y in want):
                    return True
    return False


def known_bool(r, want):
    """a boolean whose value the analysis does not know: fits when either would"""
    return isinstance(r, tuple) and r[0] == 'boolean' and r[2] == 'non' and r[3] is None and \
        all(('boolean', 'single', 'non', v) in want for v in (True, False))


def judge_op(args):
    op, deep = args
    prog, m, cls = _shared['prog'], _shared['m'], _shared['ops'][op]
    f = cls.find('Evaluate')
    where = '%s:%d %s' % (f.module.rel, f.node.lineno, op)
    bad, n = {}, 0
    entered = set()
    for kinds, ctx in cases(op, deep):
        n += 1
        legal, want = expected(op, kinds, ctx)
        got, ent = outcomes(prog, m, op, cls, kinds, ctx)
        entered |= set(x.qname for x in ent)
        null = any(not kd[2] for kd in kinds)
        if not got:
            bad.setdefault('nothing', '%s%s has no result' % (where, show(kinds)))
        for r in got:
            if legal:
                if fits(r, want) or known_bool(r, want):
                    continue
                if r == 'error':
                    t = 'refused'
                    why = 'is refused'
                elif isinstance(r, str):
                    t = r
                    why = 'ends in something other than a value or an error of processing: %s' % r
                elif null and r[2] != 'null' and all(isinstance(w, tuple) and w[2] == 'null' for w in want):
                    t, why = 'null', 'is not NULL'
                elif r[2] == 'null':
                    t, why = 'wrong null', 'is NULL' + (' of type %s %s' % (r[1], r[0]) if any(isinstance(w, tuple) and w[2] == 'null' for w in want) else '')
                else:
                    t, why = 'wrong', 'is %s %s%s' % (r[1], r[0], '' if r[3] is None else ' %s' % r[3] if not isinstance(r[3], tuple) else ', and not of the values of the operands in their order')
                if ctx.get('rel') and not null and len(kinds) == 2:
                    why += ' when first %s second' % {'<': '<', '>': '>', '=': '=', '!': '<>'}[ctx['rel']]
                bad.setdefault(t, '%s%s %s' % (where, show(kinds), why))
            else:
                if r == 'error' or null and isinstance(r, tuple) and r[2] == 'null':
                    continue
                if isinstance(r, str) and r != 'any':
                    bad.setdefault('illegal ' + r, '%s%s should be refused with an error of processing: %s' % (where, show(kinds), r))
                else:
                    bad.setdefault('accepted', '%s%s should be refused and is not' % (where, show(kinds)))
    return op, n, bad, sorted(entered)


_shared = {}


def analyse(prog, pid, tier):
    r = Result()
    mods = dict((m.name, m) for m in prog.modules.values())
    ex, va = mods.get('pyslet.qtiv2.expressions'), mods.get('pyslet.qtiv2.variables')
    if ex is None or va is None:
        raise AnalysisBroken('no QTI modules')
    classes = {}
    ops = {}
    for c in list(prog.classes()):
        if c.module is va:
            classes[c.name] = c
        if c.module is ex:
            x = c.find_attr('XMLNAME') if hasattr(c, 'find_attr') else None
            if x is not None and x[1] is not None and x[1].t == 'Tuple' and x[1].elts[1].t == 'Str' and x[0] is c:
                ops[str(x[1].elts[1].s)] = c
    for n in CARDS:
        if n not in classes:
            raise AnalysisBroken('no class %s' % n)
    enums = {}
    for m in (ex, va):
        for c in list(prog.classes()):
            if c.module is m:
                d = c.find_attr('decode')
                if d is not None and d[0] is c and d[1] is not None and d[1].t == 'Dict':
                    enums[c.name] = set(str(x.s) for x in d[1].keys if x.t == 'Str')
    m = {'Value': classes['Value'], 'modules': (ex, va), 'enums': enums, 'types': {}, 'cards': {}}

    # ---- the value classes: type, cardinality and NULL
    class Plain(Kinds):
        def relevant(self, ip, func):
            return func.module is va and func.name != 'SetValue'

        def call(self, ip, fr, st, node, callee, recv_path, args, kw):
            return None

    for n, c in sorted(classes.items()):
        if not c.is_subclass(classes['Value']):
            continue
        f = c.find('Cardinality')
        got = set()
        cl = Plain(m, {'kinds': (), 'unary': False})
        ip = KindInterp(prog, cl)
        ip.frames = []
        for s, v, node in ip.run(f, cls=c).ret:
            got |= set(un(a) for a in v)
        m['cards'][n] = got.pop() if len(got) == 1 else '?'
        want = CARDS.get(n, 'single')
        if m['cards'][n] != want:
            r.add('card|' + n, '%s:%d %s has cardinality %s, not %s' % (va.rel, f.node.lineno, n, m['cards'][n], want))
        init = c.find('__init__')
        if n in VALUE_CLASSES:
            ts = [x for x in walk_own(init.node) if x.t == 'Assign' and any(t.t == 'Attribute' and t.attr == 'baseType' for t in x.targets)]
            t = ts[-1].value.attr if ts and ts[-1].value.t == 'Attribute' else '?'
            m['types'][n] = t
            if t != VALUE_CLASSES[n]:
                r.add('type|' + n, '%s:%d %s makes values of base type %s, not %s' % (va.rel, init.node.lineno, n, t, VALUE_CLASSES[n]))

    class Nullness(Client):
        def __init__(self, v):
            self.v = v

        def attr_load(self, ip, fr, st, node, base, p):
            return [(st, self.v)] if node.attr == 'value' else None
    tests = 0
    for n, c in sorted(classes.items()):
        if not c.is_subclass(classes['Value']):
            continue
        for name, sense in (('__nonzero__', True), ('IsNull', False)):
            f = c.find(name)
            if f is None:
                r.add('null|' + n, '%s: %s has no %s' % (va.rel, n, name))
                continue
            for v, isnull in ((av(NONE), True), (av(k(0)), False), (av(k('')), False), (av(FALSE), False)):
                tests += 1
                for s, x, node in Interp(prog, Nullness(v)).run(f, cls=c).ret:
                    if any(truth(a) is not (sense != isnull) for a in x):
                        r.add('null|%s|%s' % (n, name), '%s:%d %s of %s does not tell NULL from a value (NULL is the absence of a value; 0, empty and false are values)' % (
                            va.rel, f.node.lineno, name, n))
    todo = [op for op in UNARY + BINARY + NARY]
    missing = [op for op in todo if op not in ops or ops[op].find('Evaluate') is None]
    if missing:
        raise AnalysisBroken('no operators %s' % ', '.join(missing))
    _shared.update(prog=prog, m=m, ops=ops)
    deep = tier == 'thorough'
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(judge_op, [(op, deep) for op in BINARY + NARY + UNARY], chunksize=1)
    total = 0
    entered = set()
    for op, n, bad, ent in res:
        total += n
        entered |= set(ent)
        for t in sorted(bad):
            r.add('%s|%s' % (op, t), bad[t])
    r.floor('operators', len(res), 37)
    r.floor('combinations_of_kinds', total, 20000)
    r.floor('value_classes', len(m['cards']), 17)
    r.floor('functions', len(entered), 40)
    r.coverage['tests_of_null'] = tests
    r.files = [ex.rel, va.rel]
    r.rules = ['operands of the wrong number, base type or cardinality are refused with an error of processing',
               'a NULL operand gives NULL of the type of the operator, except where QTI defines a result (and, or, anyN, isNull, containerSize, multiple, ordered)',
               'the value of an operand is used only where it is not NULL; no other exception than an error of processing leaves an operator',
               'comparisons and boolean operators give the value QTI defines; other results have the type and cardinality QTI defines']
    r.samples = ['%s: %d combinations' % (op, n) for op, n, bad, ent in res]
    r.explanation = 'Every operator was interpreted over every combination of kinds of operand (base type, cardinality, NULL or not, how they compare).'
    r.assumptions = ['Values are opaque: what arithmetic, patterns, shapes and rounding give is not judged.', 'Lists of up to three operands.']
    return r
