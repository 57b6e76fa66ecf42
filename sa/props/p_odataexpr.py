"""C13: expressions of OData queries treat NULL, types and arity as defined.

Each operator and method is interpreted, from the evaluation entry point of
its expression, over the kinds of its operands (primitive type, untyped NULL,
NULL of a type, entity; the value of a Boolean; how two values compare).  The
values themselves stay opaque."""
import multiprocessing
import os
from ..interp import Interp, av, avk, const as k, TOP, NONE, TRUE, FALSE, truth
from ..model import AnalysisBroken, Class, dotted
from ..frontend import walk
from ..result import Result
from .p_qtiop import KindInterp, Kinds, un, nullish

TYPES = ['Binary', 'Boolean', 'Byte', 'DateTime', 'Decimal', 'Double', 'Single', 'Guid', 'Int16', 'Int32', 'Int64', 'String', 'Time', 'DateTimeOffset', 'SByte']
ORDER = ['Double', 'Single', 'Decimal', 'Int64', 'Int32', 'Int16', 'Byte']
NUM = ORDER + ['SByte']
FULL = ('Int32', 'Int64', 'Single', 'Double', 'Decimal')
FUNCS = ('endswith', 'startswith', 'find', 'index', 'rfind', 'replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip')
PARTS = ('month', 'day', 'hour', 'minute', 'second', 'year', 'century')
ENT = ('ENT', True, 'x')


def st_(t):
    return NONE if t is None else ('k', 'str', 'SimpleType:' + t)


class ExprInterp(KindInterp):
    def isinstance_(self, e, st, fr):
        p = self.is_tracked(e.args[0], fr)
        types = e.args[1].elts if e.args[1].t == 'Tuple' else [e.args[1]]
        names = [(dotted(t) or '?').split('.')[-1] for t in types]
        T, F = [], []
        for s, v in self.ev(e.args[0], st, fr):
            for a in v:
                r = set(self.client.is_a(a, n) for n in names)
                r = True if True in r else None if None in r else False
                s2 = self.refine_path(s, p, av(a)) if p else s
                if r is not False:
                    T.append(s2)
                if r is not True:
                    F.append(s2)
        return T, F


    def exc_match(self, exc, h, fr):
        if exc == 'InvalidOperation' and h is not None and h.t != 'Tuple':
            return (dotted(h) or '').split('.')[-1] in ('InvalidOperation', 'DecimalException', 'ArithmeticError', 'Exception', 'BaseException', 'StandardError')
        return Interp.exc_match(self, exc, h, fr)


class Exprs(Kinds):
    export_roots = True

    def is_a(self, a, n):
        if a[0] == 'ent':
            return {'Entity': True, 'SimpleValue': False, 'TypeInstance': True}.get(n, False if n.endswith('Value') else None)
        if a[0] in ('op', 'res'):
            t = a[2] if a[0] == 'op' else a[1]
            if n in ('SimpleValue', 'EDMValue'):
                return True
            if n in ('Entity', 'Complex', 'TypeInstance'):
                return False
            if n == 'NumericValue':
                return t in NUM
            if n.endswith('Value') and n[:-5] in TYPES:
                return n[:-5] == t
            return None
        if a == NONE:
            return False
        return None

    def relevant(self, ip, func):
        return func.module is self.m['core'] and func.name not in ('__init__',)

    def truthiness(self, a):
        if a[0] == 'ent':
            return True
        if a[0] in ('fn', 'part'):
            return None
        return Kinds.truthiness(self, a)

    def value_of(self, a):
        if a[0] == 'op':
            return av(NONE) if not a[4] else av(k(a[5])) if isinstance(a[5], bool) else av(('val', a[1], a[2], 'single'))
        if a[3] == 'null':
            return av(NONE)
        if a[1] == 'Boolean':
            return av(k(a[4])) if isinstance(a[4], bool) else av(TRUE, FALSE)
        return av(('num', None, a[1], 'worked out'))

    def attr_load(self, ip, fr, st, node, base, p):
        out = set()
        n = node.attr
        for a in base:
            if a[0] == 'class' and isinstance(a[1], Class) and a[1].name in self.m['enums'] and n in self.m['enums'][a[1].name]:
                out.add(('k', 'str', '%s:%s' % (a[1].name, self.m['alias'].get((a[1].name, n), n))))
            elif a[0] == 'class' and isinstance(a[1], Class) and n == 'EvalMethod':
                out.add(('table', a[1]))
            elif a[0] in ('op', 'res'):
                if n == 'typeCode':
                    out.add(st_(a[2] if a[0] == 'op' else a[1]))
                elif n == 'value':
                    out |= self.value_of(a)
                else:
                    out.add(('opm', a, n))
            elif a[0] == 'ent':
                if n in ('typeCode', 'value', 'SimpleCast', 'SetFromValue'):
                    self.fail(ip, fr, st, node, 'AttributeError', 'the %s of an entity' % n)
                    continue
                out.add(('opq', n))
            elif a[0] == 'num':
                out.add(('vm', a, n))
            elif a[0] in ('val', 'vm', 'part') or a == NONE and nullish(base):
                if a == NONE:
                    self.needs(ip, fr, st, node, a, n)
                    continue
                if n in PARTS:
                    out.add(('part', a[1] if a[0] != 'vm' else a[1][1], n))
                elif a[0] == 'vm':
                    out.add(('vm', a[1], n))
                elif a[0] == 'part':
                    out.add(('opq', n))
                else:
                    out.add(('vm', a, n))
            elif a[0] == 'inst' and n == 'operands':
                out.add(('tup', tuple(av(('expr', i)) for i in range(len(self.ctx['kinds'])))))
            elif a[0] == 'inst' and n in ('operator', 'method'):
                out.add(self.ctx[n])
            elif a[0] == 'inst' and n == 'EvalMethod':
                out.add(('table', a[1]))
            elif a[0] == 'inst' and n == 'filter' and 'filter' in self.ctx:
                out |= self.ctx['filter']
            elif a[0] == 'expr' and n == 'Evaluate':
                out.add(('ev', a[1]))
            elif a[0] == 'tup' or a[0] == 'k' and a[1] == 'str' or a[0] == 'table':
                out.add(('vm', a, n))
            else:
                return None
        return [(st, frozenset(out))]

    def name_load(self, ip, fr, st, node, value):
        if node.id in st.env or node.id in fr.func.locals:
            return None
        kd = ip.prog.resolve_expr(fr.module, node)
        if kd and kd[0] == 'var' and len(kd[1]) == 1 and kd[1][0] is not None:
            n = kd[1][0]
            if n.t == 'Call' and n.args and n.func.t == 'Name' and n.func.id in ('set', 'frozenset', 'tuple', 'list'):
                n = n.args[0]
            if n.t in ('Tuple', 'List', 'Set'):
                vs = tuple(ip.ev(x, st, fr)[0][1] for x in n.elts)
                return [(st, av(('tup', vs)))]
        return None

    def attr_store(self, ip, fr, st, node, base, p, value):
        if node.attr != 'value' or not p or '.' not in p:
            return st
        new = self.set_value(ip, fr, st, node, base, value)
        if new is None:
            return st
        return st.set(p.rsplit('.', 1)[0], new) if new else None

    def set_value(self, ip, fr, st, node, base, value):
        out = set()
        for a in base:
            if a[0] != 'res':
                return None
            for v in value:
                if v == NONE:
                    out.add(('res', a[1], 'single', 'null', None))
                    continue
                t = None
                if v[0] in ('val', 'num'):
                    t = v[2]
                elif v[0] == 'k':
                    t = 'Boolean' if isinstance(v[2], bool) else 'String' if isinstance(v[2], str) else 'Int32'
                if t is not None and t != a[1] and not (t in NUM and a[1] in NUM):
                    self.fail(ip, fr, st, node, 'ValueError', 'a %s is made from a value of type %s' % (a[1], t))
                    continue
                out.add(('res', a[1], 'single', 'non', v[2] if v[0] == 'k' and isinstance(v[2], bool) else v if v[0] in ('fn', 'part') else None))
        return frozenset(out)

    def cast(self, ip, fr, st, node, a, t):
        if a[0] == 'op':
            i, t0, c, non, v = a[1:]
            if t == t0 or t in NUM and t0 in NUM or not non:
                if t is None:
                    return a
                if t == t0 or t0 is None or t0 in NUM and t in NUM:
                    return ('op', i, t, c, non, v)
                # a NULL of another type: the value to set is None
                return ('op', i, t, c, False, v)
            self.fail(ip, fr, st, node, 'ValueError', 'a value of type %s is cast to %s' % (t0, t))
            return None
        return ('res', t, 'single', a[3], a[4])

    def binop(self, ip, fr, st, node, left, right):
        if node.op == 'Mod' and left and all(a[0] == 'k' and a[1] == 'str' for a in left):
            return av(('opq', 'text'))
        for v in (left, right):
            if NONE in v and all(a == NONE or a[0] in ('val', 'num', 'fn', 'part', 'k') for a in v):
                self.needs(ip, fr, st, node, NONE, 'arithmetic')
            for a in v:
                if a[0] in ('op', 'res', 'ent'):
                    self.fail(ip, fr, st, node, 'TypeError', 'arithmetic on a value object')
        if left == av(NONE) or right == av(NONE):
            return frozenset()
        tys = set(a[2] for v in (left, right) for a in v if a[0] in ('val', 'num'))
        if node.op in ('Div', 'FloorDiv', 'Mod') and not all(a[0] == 'k' and a[2] for a in right):
            ip.throw(fr, st, 'ZeroDivisionError', node)
            if 'Decimal' in tys:
                ip.throw(fr, st, 'InvalidOperation', node)
        if len(tys) == 1:
            return av(('num', None, tys.pop(), 'worked out'))
        return av(('opq', 'worked out'))

    def judge(self, ip, fr, st, e, op, a, b, lv, rv):
        if a == NONE and b == NONE and op in ('Eq', 'Is', 'LtE', 'GtE'):
            return True
        if a == NONE and b == NONE and op in ('NotEq', 'IsNot', 'Lt', 'Gt'):
            return False
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op, op))):
            if x[0] == 'fn' and x[1] in ('find', 'rfind') and y[0] == 'k' and len(x[3]) >= 1 and x[3][0] != '?':
                found = (x[3][0], x[2]) in self.ctx['in']
                r = {('GtE', 0): found, ('Lt', 0): not found, ('Gt', -1): found, ('NotEq', -1): found, ('Eq', -1): not found, ('LtE', -1): not found}.get((o, y[2]))
                if r is not None:
                    return r
        isv = lambda x: x[0] in ('val', 'num') or x[0] == 'k' and isinstance(x[2], bool)
        if a == NONE and isv(b) or b == NONE and isv(a):
            # nothing sorts before anything else
            return {'Eq': False, 'Is': False, 'NotEq': True, 'IsNot': True, 'Lt': a == NONE, 'LtE': a == NONE, 'Gt': b == NONE, 'GtE': b == NONE}.get(op)
        if a[0] in ('op', 'res', 'ent') and b == NONE or b[0] in ('op', 'res', 'ent') and a == NONE:
            return {'Is': False, 'IsNot': True, 'Eq': False, 'NotEq': True}.get(op)
        if a[0] == 'k' and b[0] == 'k' and not isinstance(a[2], str) and not isinstance(b[2], str):
            x, y = a[2], b[2]
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y, 'NotEq': x != y}.get(op)
        if a[0] in ('val', 'num') and b[0] in ('val', 'num') and a[1] is not None and b[1] is not None and a[1] != b[1]:
            return Kinds.judge(self, ip, fr, st, e, op, a, b, lv, rv)
        return None

    def subscript_load(self, ip, fr, st, node, base, index):
        for a in base:
            if a[0] == 'table':
                keys = [x for x in index]
                out = []
                for x in keys:
                    f = self.m['table'].get(a[1].name, {}).get(un(x))
                    if f is None:
                        self.fail(ip, fr, st, node, 'KeyError', 'there is no way to evaluate %s' % un(x))
                    else:
                        out.append((st, av(('func', f))))
                return out
            if a == NONE and nullish(base):
                self.needs(ip, fr, st, node, NONE, 'index')
                return []
            if a[0] == 'val':
                return [(st, av(('num', None, a[2], 'worked out')))]
        return None

    def as_type(self, ip, callee):
        c = callee[1]
        if c.name.endswith('Value') and c.name[:-5] in TYPES:
            return c.name[:-5]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if name in ('NewSimpleValue', 'NewValue'):
            x = args[0] if args else av(NONE)
            out = set()
            for a in x:
                t = un(a)
                out.add(('res', t, 'single', 'null', None))
            return [(st, frozenset(out))]
        if callee is not None and callee[0] == 'class' and isinstance(callee[1], Class) and self.as_type(ip, callee):
            return [(st, av(('res', self.as_type(ip, callee), 'single', 'null', None)))]
        if callee is not None and callee[0] == 'class' and isinstance(callee[1], Class) and callee[1].is_subclass(self.m['error']):
            return [(st, av(('inst', callee[1])))]
        if name in ('EncodeValue', 'DecodeValue'):
            return [(st, av(('opq', name)))]
        if name == 'get' and f.t == 'Attribute':
            for s, b in ip.ev(f.value, st, fr):
                if any(a[0] == 'table' for a in b):
                    out = []
                    for a in b:
                        for x in args[0]:
                            g = self.m['table'].get(a[1].name, {}).get(un(x))
                            out.append((s, av(('func', g)) if g is not None else av(NONE)))
                    return out
        if f.t == 'Attribute' and (callee is None or callee[0] not in ('func', 'bound', 'class', 'ext', 'mod')):
            out, known = [], False
            for s, b in ip.ev(f, st, fr):
                for a in b:
                    r = self.method(ip, fr, s, node, a, recv_path, args)
                    if r is not None:
                        known = True
                        out.extend(r)
            if known:
                return out
        if name == 'map' and len(args) == 2 and len(args[1]) == 1 and next(iter(args[1]))[0] == 'tup':
            return self.mapped(ip, fr, st, node, next(iter(args[1]))[1])
        if name in ('list', 'tuple') and len(args) == 1 and args[0] and all(a[0] == 'tup' for a in args[0]):
            return [(st, args[0])]
        if name in ('any', 'all') and len(args) == 1 and len(args[0]) == 1 and next(iter(args[0]))[0] == 'tup':
            return Kinds.call(self, ip, fr, st, node, callee, recv_path, args, kw)
        if name == 'len' and len(args) == 1 and len(args[0]) == 1:
            a = next(iter(args[0]))
            if a[0] == 'tup':
                return [(st, avk(len(a[1])))]
        if callee is None or callee[0] == 'ext' or callee[0] not in ('func', 'bound', 'class'):
            if name in ('float', 'int', 'len', 'fmod', 'floor', 'ceil', 'Decimal', 'unicode', 'str', 'pow', 'round', 'abs', 'neg', 'trunc', 'long'):
                for v in args:
                    if NONE in v and name not in ('unicode', 'str') and all(a == NONE or a[0] in ('val', 'num', 'fn', 'part', 'k') for a in v):
                        self.needs(ip, fr, st, node, NONE, name)
                        if v == av(NONE):
                            return []
                    if any(a[0] in ('op', 'res', 'ent') for a in v):
                        self.fail(ip, fr, st, node, 'TypeError', '%s of a value object' % name)
                        return []
                if name in ('floor', 'ceil', 'round'):
                    return [(st, av(('fn', 'rounding', {'ceil': 'ceiling'}.get(name, name), ())))]
                if name == 'float' and args and len(args[0]) == 1 and next(iter(args[0]))[0] == 'fn':
                    return [(st, args[0])]
                if name == 'fmod':
                    ip.throw(fr, st, 'ValueError', node)
                t = {'len': 'Int32', 'unicode': 'String', 'str': 'String', 'int': 'Int64', 'long': 'Int64', 'trunc': 'Int64', 'Decimal': 'Decimal'}.get(name, 'Double')
                return [(st, av(('num', None, t, 'worked out')))]
            if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(args) == 2 and len(args[0]) == len(args[1]) == 1:
                (a,), (b,) = args
                x = self.judge(ip, fr, st, node, {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}[name], a, b, args[0], args[1])
                return [(st, av(TRUE, FALSE) if x is None else av(k(x)))]
            if name == 'bool' and len(args) == 1:
                ts = set(self.truthiness(a) for a in args[0])
                return [(st, av(k(ts.pop())) if len(ts) == 1 and None not in ts else av(TRUE, FALSE))]
        return None

    def method(self, ip, fr, st, node, a, recv_path, args):
        if a[0] == 'ev':
            kd = self.ctx['kinds'][a[1]]
            return [(st, av(('ent', a[1]) if kd[0] == 'ENT' else ('op', a[1], kd[0], 'single', kd[1], kd[2])))]
        if a[0] == 'opm':
            o, n = a[1], a[2]
            p = ip.path(node.func.value)
            if n == 'SimpleCast':
                r = set(self.cast(ip, fr, st, node, o, un(x)) for x in args[0])
                r.discard(None)
                return [(st, frozenset(r))] if r else []
            if n in ('SetFromValue', 'SetFromPyValue') and args:
                new = self.set_value(ip, fr, st, node, av(o), args[0])
                if new is None:
                    return [(st, av(NONE))]
                return [(st.set(p, new) if p else st, av(NONE))] if new else []
            if n == 'SetNull':
                return [(st.set(p, av(('res', o[1], 'single', 'null', None))) if p else st, av(NONE))]
            if n == 'IsNull':
                t = self.truthiness(o)
                return [(st, av(TRUE, FALSE) if t is None else av(k(not t)))]
            return [(st, TOP)]
        if a[0] == 'vm':
            o, n = a[1], a[2]
            if o[0] == 'tup' and n in ('append', 'extend', 'insert'):
                return Kinds.method(self, ip, fr, st, node, a, recv_path, args)
            if o[0] == 'val':
                for v in args:
                    if NONE in v and n in FUNCS:
                        self.needs(ip, fr, st, node, NONE, n)
                        if v == av(NONE):
                            return []
                if n in FUNCS:
                    if o[2] != 'String':
                        self.fail(ip, fr, st, node, 'AttributeError', '%s of a value that is not a string' % n)
                        return []
                    who = tuple(next(iter(v))[1] if len(v) == 1 and next(iter(v))[0] == 'val' else '?' for v in args)
                    return [(st, av(('fn', n, o[1], who)))]
            if o[0] in ('val', 'num') and n.startswith(('to_integral', 'quantize')):
                ms = [(dotted(x) or '').split('.')[-1] for x in list(node.args or []) + [y.value for y in node.keywords or []]]
                for x in ms:
                    if x.startswith('ROUND_'):
                        return [(st, av(('fn', 'rounding', 'floor' if x == 'ROUND_FLOOR' else 'ceiling' if x == 'ROUND_CEILING' else 'round' if 'HALF' in x else x, ())))]
            if o[0] == 'num':
                return [(st, av(o))]
            return [(st, av(('opq', n)))]
        return None


# ------------------------------------------------------------ what the protocol says
def promote(a, b):
    """common type of two operands; False if there is none, '?' if it isn't judged"""
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a not in NUM or b not in NUM:
        return False
    if 'SByte' in (a, b):
        return '?'
    return [t for t in ORDER if t in (a, b)][0]


STR = {'endswith': ('Boolean', 2), 'startswith': ('Boolean', 2), 'substringof': ('Boolean', 2), 'indexof': ('Int32', 2), 'replace': ('String', 3),
       'tolower': ('String', 1), 'toupper': ('String', 1), 'trim': ('String', 1), 'concat': ('String', 2), 'length': ('Int32', 1)}
DATE = ('year', 'month', 'day', 'hour', 'minute', 'second')
RESULT = {'endswith': ('endswith', 0, (1,)), 'startswith': ('startswith', 0, (1,)), 'indexof': ('find', 0, (1,)), 'replace': ('replace', 0, (1, 2)),
          'tolower': ('lower', 0, ()), 'toupper': ('upper', 0, ()), 'trim': ('strip', 0, ()), 'substringof': ('find', 1, (0,))}


def expected(op, kinds, rel):
    """-> (legal, acceptable, strict): results are 'error' or (type, null?, value)"""
    ts = [kd[0] for kd in kinds]
    null = any(not kd[1] for kd in kinds)
    ent = 'ENT' in ts
    N = lambda t: [(t, 'null', None)]
    B = lambda v: [('Boolean', 'non', v)]
    BA = B(True) + B(False)
    if op in ('add', 'sub', 'mul', 'div', 'mod', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'and', 'or'):
        if ent:
            if op in ('eq', 'ne') and ts == ['ENT', 'ENT']:
                return True, BA
            return False, []
        t = promote(*ts)
        if t is False:
            return False, []
        loose = t == '?' or t in ('Byte', 'Int16', 'SByte')
        if op in ('add', 'sub', 'mul', 'div', 'mod'):
            if t is None:
                return True, N('Int32')
            if t in FULL:
                if null:
                    return True, N(t)
                return True, [(t, 'non', None)] + (['error'] if op in ('div', 'mod') else [])
            if loose:
                return True, None
            return False, []
        if op in ('lt', 'gt', 'le', 'ge'):
            if loose or t in FULL or t in ('String', 'DateTime', 'Guid', None):
                r = B(False) if null else B({'lt': rel == '<', 'gt': rel == '>', 'le': rel in '<=', 'ge': rel in '>='}[op])
                return True, r + (['error'] if loose else [])
            return True, ['error'] + (B(False) if null else BA if t == 'Boolean' else B({'lt': rel == '<', 'gt': rel == '>', 'le': rel in '<=', 'ge': rel in '>='}[op]))
        if op in ('eq', 'ne'):
            if null:
                v = not any(kd[1] for kd in kinds)
            elif t == 'Boolean':
                v = kinds[0][2] == kinds[1][2]
            else:
                v = rel == '='
            r = B(v if op == 'eq' else not v)
            if t in FULL or t in ('String', 'DateTime', 'Guid', 'Binary', None):
                return True, r
            return True, r + ['error']
        if t not in ('Boolean', None):
            return False, []
        if null:
            return True, B(False)
        x, y = kinds[0][2], kinds[1][2]
        return True, B((x and y) if op == 'and' else (x or y))
    if op == 'not':
        if ent or not null and ts[0] != 'Boolean':
            return False, []
        if null and ts[0] not in ('Boolean', None):
            return True, N('Boolean') + ['error']
        return True, N('Boolean') if null else B(not kinds[0][2])
    if op == 'negate':
        t = {'Byte': 'Int32', 'Int16': 'Int32', 'Single': 'Double', None: 'Int32'}.get(ts[0], ts[0])
        if t == 'SByte':
            return True, None
        if t not in ('Int32', 'Int64', 'Double', 'Decimal'):
            return False, []
        return True, N(t) if null else [(t, 'non', None)]
    untyped = None in ts
    if op in STR:
        t, n = STR[op]
        if len(kinds) != n or not set(ts) <= set(['String', None]):
            return False, []
        if null:
            return True, N(t) + (['error'] if untyped and op in ('concat', 'length') else [])
        if op == 'substringof':
            return True, B(rel == '=')
        return True, BA if t == 'Boolean' else [(t, 'non', None)]
    if op == 'substring':
        if len(kinds) not in (2, 3) or ts[0] not in ('String', None) or not set(ts[1:]) <= set(['Int32', None]):
            return False, []
        if null:
            return True, N('String') + (['error'] if untyped else []) + ([('String', 'non', None)] if len(kinds) == 3 and kinds[0][1] and kinds[1][1] else [])
        return True, [('String', 'non', None)]
    if op in DATE:
        if len(kinds) != 1 or ts[0] not in ('DateTime', None):
            return False, []
        return True, N('Int32') + (['error'] if untyped else []) if null else [('Int32', 'non', None)]
    if op in ('round', 'floor', 'ceiling'):
        if len(kinds) != 1 or ts[0] not in NUM + [None]:
            return False, []
        if ts[0] == 'SByte':
            return True, None
        tt = ['Double'] if ts[0] in ('Double', 'Single') else ['Decimal'] if ts[0] == 'Decimal' else ['Decimal', 'Double']
        return True, [(t, 'null' if null else 'non', None) for t in tt]
    raise KeyError(op)


BINARY = ('add', 'sub', 'mul', 'div', 'mod', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'and', 'or')
UNARY = ('not', 'negate')
METHODS = tuple(STR) + ('substring',) + DATE + ('round', 'floor', 'ceiling')
CONST = {}


def grid(types):
    out = [(None, False, None), ENT]
    for t in types:
        out.append((t, False, None))
        if t == 'Boolean':
            out += [(t, True, True), (t, True, False)]
        else:
            out.append((t, True, 'x'))
    return out


def cases(op, deep):
    one = grid(TYPES)
    if op in UNARY:
        for a in one:
            yield (a,), '='
    elif op in BINARY:
        for a in one:
            for b in one:
                rels = '<=>' if op in ('lt', 'gt', 'le', 'ge', 'eq', 'ne') and a[1] and b[1] else '='
                for r in rels:
                    yield (a, b), r
    else:
        few = grid(['String', 'Int32', 'Double', 'DateTime', 'Boolean'])
        yield (), '='
        for a in one:
            yield (a,), '='
        for a in (one if deep else few):
            for b in (one if deep else few):
                yield (a, b), '='
                if op == 'substringof' and a[0] == b[0] == 'String' and a[1] and b[1]:
                    yield (a, b), '!'
        three = op in ('replace', 'substring')
        for a in (few if three else few[:4]):
            for b in (few if three else few[:2]):
                for c in (few if three else few[:2]):
                    yield (a, b, c), '='
        yield (few[2],) * 4, '='
        yield (few[3],) * 4, '='
        yield (few[3],) + (few[5],) * 3, '='


def show(kinds):
    return '(%s)' % ', '.join('NULL' if kd[0] is None else 'entity' if kd[0] == 'ENT' else ('%s' if kd[1] else 'NULL %s') % kd[0] + (' %s' % kd[2] if isinstance(kd[2], bool) else '') for kd in kinds)


def outcomes(op, kinds, rel):
    m = _shared['m']
    cname = 'CallExpression' if op in METHODS else 'UnaryExpression' if op in UNARY else 'BinaryExpression'
    cls = m[cname]
    code = CONST.get(op, op)
    # which operand is found in which: never both ways
    inn = [(0, 1)] if rel == '=' else [(1, 0)]
    cl = Exprs(m, {'kinds': kinds, 'rel': rel, 'in': inn, 'operator': ('k', 'str', 'Operator:' + ('methodCall' if op in METHODS else code)), 'method': ('k', 'str', 'Method:' + op), 'unary': False})
    ip = ExprInterp(_shared['prog'], cl)
    ip.frames = []
    f = cls.find('Evaluate')
    out = ip.run(f, cls=cls)
    res = set()
    for s, v, node in out.ret:
        for a in v:
            if a[0] == 'res':
                res.add((a[1], a[3], a[4]))
            elif a[0] == 'op':
                res.add((a[2], 'non' if a[4] else 'null', a[5] if isinstance(a[5], bool) else None))
            elif a == NONE:
                res.add('nothing')
            else:
                res.add('something that is not a value')
    for s, x, n in out.exc:
        nm = getattr(x, 'name', x)
        if isinstance(nm, tuple):
            nm = str(nm[-1])
        if nm == 'crash':
            nm = '; '.join(sorted(cl.crash)) or 'crash'
        if nm == 'EvaluationError':
            res.add('error')
        else:
            res.add('raises ' + str(nm).split('.')[-1])
    return res, ip.entered, f


def suits(op, r, want):
    """None, or what is wrong with a result"""
    if not isinstance(r, tuple):
        return None if r in want else 'is refused' if r == 'error' else r
    t, n, v = r
    w = [x for x in want if isinstance(x, tuple) and x[0] == t and x[1] == n]
    if not w:
        if n != 'null' and any(isinstance(x, tuple) and x[1] == 'null' for x in want):
            return 'is not NULL'
        if n == 'null' and not any(isinstance(x, tuple) and x[1] == 'null' for x in want):
            return 'is NULL'
        return 'is of type %s' % t
    if isinstance(v, tuple) and v[0] == 'fn' and v[1] == 'rounding':
        return None if op not in ('round', 'floor', 'ceiling') or v[2] == op else 'is the %s' % v[2]
    if isinstance(v, tuple) and v[0] == 'fn':
        e = RESULT.get(op)
        if e is not None and '?' not in v[3][:len(e[2])] and v[1:] != e and not (v[1] == 'index' and e[0] == 'find'):
            return 'is %s of the operands %s' % (v[1], ', '.join(str(x + 1) for x in (v[2],) + v[3] if isinstance(x, int)))
        return None
    if isinstance(v, tuple) and v[0] == 'part':
        return None if op not in DATE or v[2] == op else 'is the %s' % v[2]
    if isinstance(v, bool):
        return None if any(x[2] is None or x[2] is v for x in w) else 'is %s' % v
    if t == 'Boolean' and n == 'non' and v is None:
        return None if set(x[2] for x in w) >= set([True, False]) or None in [x[2] for x in w] else 'does not depend on the operands alone'
    return None


def judge_op(args):
    op, deep = args
    bad, n, ent = {}, 0, set()
    for kinds, rel in cases(op, deep):
        n += 1
        legal, want = expected(op, kinds, rel)
        got, e, f = outcomes(op, kinds, rel)
        ent |= set(x.qname for x in e)
        where = '%s:%d %s%s' % (f.module.rel, f.node.lineno, op, show(kinds))
        hs = [x for x in e if x.name.lower().endswith(op) and x.name.startswith('Evaluate')]
        if hs:
            where = '%s:%d %s%s' % (f.module.rel, hs[0].node.lineno, op, show(kinds))
        if not got:
            bad.setdefault('nothing', where + ' has no result')
        for r in sorted(got, key=repr):
            if legal and want is None:
                if isinstance(r, str) and r != 'error':
                    bad.setdefault('crash', '%s %s' % (where, r))
                continue
            if legal:
                w = suits(op, r, want)
                if w is not None:
                    bad.setdefault(w.split(' of ')[0], '%s %s%s' % (where, w, ' when first %s second' % rel if len(kinds) == 2 and all(kd[1] for kd in kinds) and op in BINARY else ''))
            elif r != 'error':
                if isinstance(r, str):
                    bad.setdefault('illegal', '%s should be refused: %s' % (where, r))
                else:
                    bad.setdefault('accepted', '%s should be refused and is not' % where)
    return op, n, bad, sorted(ent)


_shared = {}


def analyse(prog, pid, tier):
    r = Result()
    mods = dict((m.name, m) for m in prog.modules.values())
    core, csdl = mods.get('pyslet.odata2.core'), mods.get('pyslet.odata2.csdl')
    if core is None or csdl is None:
        raise AnalysisBroken('no OData modules')
    m = {'core': core, 'modules': (core,), 'enums': {}, 'table': {}, 'Value': None}
    for c in prog.classes():
        if c.module in (core, csdl):
            d = c.find_attr('decode')
            if d is not None and d[0] is c and d[1] is not None and d[1].t == 'Dict':
                m['enums'][c.name] = set(str(x.s) for x in d[1].keys if x.t == 'Str')
        if c.module is core and c.name in ('UnaryExpression', 'BinaryExpression', 'CallExpression', 'EntityCollectionMixin', 'EvaluationError'):
            m[c.name] = c
    for n in ('UnaryExpression', 'BinaryExpression', 'CallExpression', 'EvaluationError'):
        if n not in m:
            raise AnalysisBroken('no class %s' % n)
    m['error'] = m['EvaluationError']
    # aliases: other names of the same constants
    m['alias'] = {}
    for mod in (core, csdl):
        for n in walk(mod.tree):
            if n.t == 'Call' and (dotted(n.func) or '').endswith('MakeEnumerationAliases') and len(n.args) == 2 and n.args[1].t == 'Dict':
                c = (dotted(n.args[0]) or '').split('.')[-1]
                for x, y in zip(n.args[1].keys, n.args[1].values):
                    if x.t == y.t == 'Str' and c in m['enums']:
                        m['enums'][c].add(str(x.s))
                        m['alias'][c, str(x.s)] = str(y.s).split('.')[-1]
    # the tables of what evaluates which operator
    for n in walk(core.tree):
        if n.t != 'Assign' or n.value.t != 'Dict' or len(n.targets) != 1 or n.targets[0].t != 'Attribute' or n.targets[0].attr != 'EvalMethod':
            continue
        c = dotted(n.targets[0].value)
        tab = m['table'].setdefault(c, {})
        for x, y in zip(n.value.keys, n.value.values):
            d = dotted(y)
            cls = m.get((d or '').split('.')[0]) if d else None
            f = cls.find(d.split('.')[-1]) if cls is not None else None
            kx = (dotted(x) or '').split('.')
            if f is None or len(kx) < 2:
                continue
            tab[m['alias'].get((kx[-2], kx[-1]), kx[-1])] = f
    for c in ('UnaryExpression', 'BinaryExpression', 'CallExpression'):
        if not m['table'].get(c) and not any(g.name == 'Evaluate' for g in m[c].methods.values()):
            raise AnalysisBroken('no table of evaluation of %s' % c)
    _shared.update(prog=prog, m=m)
    deep = tier == 'thorough'
    ctxm = multiprocessing.get_context('fork')
    ops = BINARY + UNARY + METHODS
    with ctxm.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(judge_op, [(op, deep) for op in ops], chunksize=1)
    total, entered = 0, set()
    for op, n, bad, ent in res:
        total += n
        entered |= set(ent)
        for t in sorted(bad):
            r.add('%s|%s' % (op, t), bad[t])
    # ---- a filter lets an entity through when it is true, not when it is NULL or false
    nf = 0
    for c in prog.classes():
        f = c.methods.get('CheckFilter')
        if f is None or f.module is not core:
            continue
        for flt, kind, want in ((av(NONE), None, set([True])), (av(('expr', 0)), ('Boolean', True, True), set([True])), (av(('expr', 0)), ('Boolean', True, False), set([False])),
                                (av(('expr', 0)), ('Boolean', False, None), set([False])), (av(('expr', 0)), ('Int32', True, 'x'), 'refused'), (av(('expr', 0)), ('String', True, 'x'), 'refused')):
            nf += 1
            cl = Exprs(m, {'kinds': (kind,), 'rel': '=', 'in': [], 'operator': NONE, 'method': NONE, 'unary': False, 'filter': flt})
            ip = ExprInterp(prog, cl)
            ip.frames = []
            out = ip.run(f, cls=c)
            got = set()
            for s, v, node in out.ret:
                for a in v:
                    t = cl.truthiness(a)
                    got |= set([True, False]) if t is None else set([t])
            if want == 'refused':
                if got & set([True]):
                    r.add('filter|%s' % kind[0], '%s:%d %s lets an entity through when the filter is no Boolean' % (core.rel, f.node.lineno, f.qname))
            elif got != want:
                r.add('filter|%s' % (kind,), '%s:%d %s: an entity %s when the filter is %s' % (
                    core.rel, f.node.lineno, f.qname, 'passes' if True in got and True not in want else 'is left out', 'not set' if kind is None else show((kind,))))
    r.floor('operators', len(res), 35)
    r.floor('combinations_of_kinds', total, 15000)
    r.floor('filters', nf, 6)
    r.floor('functions', len(entered), 35)
    r.files = [core.rel]
    r.rules = ['operands of the wrong type and the wrong number of arguments are refused with an evaluation error',
               'a NULL operand gives NULL of the promoted type in arithmetic, NULL from methods, false from comparisons and logical operators; equality of NULLs is true',
               'the value of an operand is used only where it is not NULL, and no exception but an evaluation error leaves an operator',
               'results have the promoted type; comparisons, logic and string methods are what the protocol defines',
               'a filter that is NULL or false leaves the entity out']
    r.samples = ['%s: %d combinations' % (op, n) for op, n, bad, ent in res]
    r.explanation = 'Every operator and method of query expressions was interpreted over every combination of kinds of operand.'
    r.assumptions = ['Values are opaque: what arithmetic gives, and values beyond the range of a type, are not judged.', 'cast and isof are not judged.']
    return r
