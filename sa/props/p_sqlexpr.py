"""C33: a query expression translated to SQL keeps its meaning.

The translation is evaluated over the syntax tree with expressions whose
operands are opaque; the text it gives is parsed with the grammar and the
precedences of SQL and compared with the structure of the expression."""
import itertools
import re
from ..frontend import Node
from ..model import AnalysisBroken, Class, Func, External, Module
from ..result import Result

MOD = 'pyslet.odata2.sqlds'
CORE = 'pyslet.odata2.core'


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, line):
        self.name, self.line = name, line


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Loop(Exception):
    pass


class Obj(object):
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Leaf(object):
    def __init__(self, i):
        self.text = 'L%d' % i


class Opaque(object):
    """the container, the parameters, an entity"""
    def __init__(self, leaf=None):
        self.leaf = leaf


class Names(object):
    """the mangled names of the container"""


class Value(object):
    text = None


class Bound(object):
    def __init__(self, o, f):
        self.o, self.f = o, f


class Super(object):
    def __init__(self, c, o):
        self.c, self.o = c, o


class Builtin(object):
    def __init__(self, name):
        self.name = name


class Eval(object):
    def __init__(self, prog):
        self.prog = prog
        self.fuel = 0
        self.stack = []

    # ---------------------------------------------------------------- calls
    def call(self, fn, args, kw, node):
        self.fuel += 1
        if self.fuel > 4000 or len(self.stack) > 40:
            raise Undecided('too long')
        if isinstance(fn, Bound):
            if fn.f.name == 'SQLExpression' and args and isinstance(args[0], Leaf):
                return args[0].text
            if fn.f.name == 'NewSimpleValue':
                return Value()
            if fn.f.name in ('PrepareSQLValue', 'AddParam'):
                return self.opaque(fn.f.name, args)
            return self.enter(fn.f, [fn.o] + args if not fn.f.is_static else args, kw)
        if isinstance(fn, Func):
            if fn.name == 'NewSimpleValue':
                return Value()
            return self.enter(fn, args, kw)
        if isinstance(fn, Class):
            o = Obj(fn)
            i = fn.find('__init__')
            if i is not None:
                self.enter(i, [o] + args, kw)
            return o
        if isinstance(fn, Builtin):
            return self.builtin(fn.name, args, node)
        raise Undecided('call')

    def opaque(self, name, args, o=None):
        if name in ('KeyDict', 'items', 'iteritems') and o is not None and o.leaf is not None:
            return {'k': o.leaf} if name == 'KeyDict' else [('k', o.leaf)]
        if name == 'PrepareSQLValue':
            return args[0]
        if name == 'AddParam':
            v = args[0]
            if isinstance(v, Leaf):
                return v.text
            if isinstance(v, Value):
                v = v.text
            if isinstance(v, str):
                return "'%s'" % v
            if isinstance(v, int):
                return str(v)
        raise Undecided(name)

    def enter(self, f, args, kw):
        if f.is_generator:
            raise Undecided('generator')
        a = f.node.args
        env = {}
        names = [n.id for n in a.args]
        defaults = a.defaults
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw[n]
            elif i >= len(names) - len(defaults):
                env[n] = self.ev(defaults[i - len(names) + len(defaults)], {}, f)
            else:
                raise Undecided('arguments')
        if a.vararg:
            env[a.vararg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise Undecided('arguments')
        if a.kwarg:
            env[a.kwarg] = dict((k, v) for k, v in kw.items() if k not in names)
        self.stack.append(f)
        try:
            self.block(f.node.body, env, f)
        except Return as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def builtin(self, name, args, node):
        a = args[0] if args else None
        if name == 'join':
            if isinstance(a, (list, tuple)) and all(isinstance(x, str) for x in a):
                return (args[1] if len(args) > 1 else ' ').join(a)
            raise Undecided('join')
        if name == 'len' and isinstance(a, (list, tuple, str, dict)):
            return len(a)
        if name in ('unicode', 'str'):
            if isinstance(a, Value) and isinstance(a.text, str):
                return a.text
            if isinstance(a, (str, int)):
                return str(a)
        if name in ('list', 'tuple') and isinstance(a, (list, tuple)):
            return list(a) if name == 'list' else tuple(a)
        if name == 'list' and a is None:
            return []
        if name in ('range', 'xrange') and all(isinstance(x, int) for x in args):
            return list(range(*args))
        if name == 'zip' and all(isinstance(x, (list, tuple)) for x in args):
            return list(zip(*args))
        if name == 'enumerate' and isinstance(a, (list, tuple)):
            return list(enumerate(a))
        if name == 'reversed' and isinstance(a, (list, tuple)):
            return list(reversed(a))
        if name in ('min', 'max') and all(isinstance(x, int) for x in args):
            return min(args) if name == 'min' else max(args)
        if name == 'getattr' and isinstance(args[1], str):
            return self.attr(a, args[1])
        if name == 'isinstance':
            cs = args[1] if isinstance(args[1], tuple) else (args[1],)
            if isinstance(a, Obj) and all(isinstance(c, Class) for c in cs):
                return any(a.cls.is_subclass(c) for c in cs)
        raise Undecided(name)

    # ---------------------------------------------------------------- expressions
    def attr(self, o, n):
        if isinstance(o, Obj):
            if n in o.f:
                return o.f[n]
            f = o.cls.find(n)
            if isinstance(f, Func):
                return Bound(o, f)
            for c in o.cls.mro:
                if not isinstance(c, Class):
                    continue
                v = self.patched(c, n)
                if v is not None:
                    return v
                if n in c.attrs:
                    return self.ev(c.attrs[n] if isinstance(c.attrs[n], Node) else c.attrs[n][-1], {}, self.where(c.module))
            raise Undecided('attribute %s' % n)
        if isinstance(o, Super):
            f = o.o.cls.find_after(o.c, n)
            if isinstance(f, Func):
                return Bound(o.o, f)
            return Builtin('nothing')
        if isinstance(o, Value) and n == 'value':
            return o.text
        if isinstance(o, Value) and n in ('SetFromValue', 'SetFromLiteral'):
            return Bound(o, Method(lambda a: setattr(o, 'text', a[0])))
        if isinstance(o, Opaque):
            if n in ('entitySet', 'entityType', 'container'):
                return o
            if n == 'name' or n.endswith('Name'):
                return 'T'
            if n == 'mangledNames':
                return Names()
            return Bound(o, Named(n))
        if isinstance(o, Names):
            return Bound(o, Named(n))
        if isinstance(o, Class):
            if n == 'NewSimpleValue':
                return Method(lambda a: Value())
            dec = o.attrs.get('decode')
            if dec is not None and n not in o.methods:
                return ('enum', o.name, n)
            f = o.find(n)
            if isinstance(f, Func):
                return f
            v = self.patched(o, n)
            if v is not None:
                return v
        raise Undecided('attribute %s' % n)

    def where(self, m):
        class W(object):
            module, cls, name = m, None, '<module>'
        return W

    def patched(self, c, n):
        """Class.name = value at module level"""
        out = None
        for s in c.module.tree.body:
            if s.t == 'Assign':
                for t in s.targets:
                    if t.t == 'Attribute' and t.attr == n and t.value.t == 'Name' and c.module.classes.get(t.value.id) is c:
                        out = self.ev(s.value, {}, self.where(c.module))
        return out

    def name(self, n, env, f):
        if n in env:
            return env[n]
        if n in ('None', 'True', 'False'):
            return {'None': None, 'True': True, 'False': False}[n]
        m = f.module
        x = m.names.get(n)
        if x is None:
            x = self.prog.resolve_global(m, n)
        return self.resolved(x, n, m)

    def resolved(self, x, n, m):
        if x is None:
            return Builtin(n)
        k = x[0] if isinstance(x, tuple) else None
        if k in ('class', 'func'):
            return x[1]
        if k == 'mod':
            return x[1]
        if k == 'var' and len(x[1]) == 1 and isinstance(x[1][0], Node):
            return self.ev(x[1][0], {}, self.where(m))
        if k == 'ext':
            e = x[1]
            return Builtin(getattr(e, 'name', str(e)).split('.')[-1])
        if isinstance(x, (Class, Func, Module)):
            return x
        raise Undecided('name %s' % n)

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, Obj):
            return True
        raise Undecided('truth')

    def ev(self, e, env, f):
        t = e.t
        if t == 'Str':
            return str(e.s)
        if t == 'Num':
            return e.n
        if t == 'Name':
            return self.name(e.id, env, f)
        if t == 'Attribute':
            b = self.ev(e.value, env, f)
            if isinstance(b, Module):
                x = b.names.get(e.attr) or self.prog.resolve_mod_attr(b, e.attr)
                return self.resolved(x, e.attr, b)
            if isinstance(b, Builtin):
                return Builtin(e.attr)
            if isinstance(b, (str, list, dict, tuple)):
                return Bound(b, Named(e.attr))
            return self.attr(b, e.attr)
        if t in ('List', 'Tuple'):
            v = [self.ev(x, env, f) for x in e.elts]
            return v if t == 'List' else tuple(v)
        if t == 'Dict':
            return dict((self.ev(k, env, f), self.ev(v, env, f)) for k, v in zip(e.keys, e.values))
        if t == 'BinOp':
            a, b = self.ev(e.left, env, f), self.ev(e.right, env, f)
            if e.op == 'Mod' and isinstance(a, str):
                b = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, (str, int)) for x in b):
                    return a % b
            if e.op == 'Add' and type(a) is type(b) and isinstance(a, (str, list, tuple, int)):
                return a + b
            if e.op == 'Sub' and isinstance(a, int) and isinstance(b, int):
                return a - b
            if e.op == 'Mult' and isinstance(a, (str, int)) and isinstance(b, (str, int)):
                return a * b
            raise Undecided('operator')
        if t == 'BoolOp':
            v = None
            for x in e.values:
                v = self.ev(x, env, f)
                if self.truth(v) == (e.op == 'Or'):
                    return v
            return v
        if t == 'UnaryOp':
            v = self.ev(e.operand, env, f)
            if e.op == 'Not':
                return not self.truth(v)
            if e.op == 'USub' and isinstance(v, int):
                return -v
            raise Undecided('operator')
        if t == 'IfExp':
            return self.ev(e.body if self.truth(self.ev(e.test, env, f)) else e.orelse, env, f)
        if t == 'Compare':
            l = self.ev(e.left, env, f)
            for op, c in zip(e.ops, e.comparators):
                r = self.ev(c, env, f)
                if not self.compare(op, l, r):
                    return False
                l = r
            return True
        if t == 'Subscript':
            b = self.ev(e.value, env, f)
            if e.slice.t == 'Slice':
                lo = self.ev(e.slice.lower, env, f) if e.slice.lower else None
                hi = self.ev(e.slice.upper, env, f) if e.slice.upper else None
                if isinstance(b, (list, tuple, str)) and e.slice.step is None:
                    return b[lo:hi]
                raise Undecided('slice')
            i = self.ev(e.slice.value, env, f)
            if isinstance(b, Names):
                return 'T.n8'
            if isinstance(b, (dict, list, tuple, str)):
                try:
                    return b[i]
                except (KeyError, IndexError) as x:
                    raise Raised(type(x).__name__, e.lineno)
                except TypeError:
                    raise Undecided('index')
            raise Undecided('subscript')
        if t in ('ListComp', 'GeneratorExp'):
            out = []

            def gen(i, env):
                if i == len(e.generators):
                    out.append(self.ev(e.elt, env, f))
                    return
                g = e.generators[i]
                for x in self.items(self.ev(g.iter, env, f)):
                    e2 = dict(env)
                    self.bind(g.target, x, e2, f)
                    if all(self.truth(self.ev(c, e2, f)) for c in g.ifs):
                        gen(i + 1, e2)
            gen(0, env)
            return out
        if t == 'Call':
            return self.ev_call(e, env, f)
        raise Undecided(t)

    def compare(self, op, l, r):
        simple = (type(None), bool, int, str, tuple)
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            if isinstance(l, simple) and isinstance(r, simple):
                return (l == r) == (op in ('Is', 'Eq'))
            if l is None or r is None or isinstance(l, (Class, Obj)) and isinstance(r, (Class, Obj)):
                return (l is r) == (op in ('Is', 'Eq'))
        elif op in ('In', 'NotIn') and isinstance(r, (list, tuple, dict, str)):
            if isinstance(l, simple):
                return (l in r) == (op == 'In')
        elif isinstance(l, int) and isinstance(r, int):
            return {'Lt': l < r, 'Gt': l > r, 'LtE': l <= r, 'GtE': l >= r}[op]
        raise Undecided('comparison')

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Undecided('iteration')

    def ev_call(self, e, env, f):
        if getattr(e, 'starargs', None) or getattr(e, 'kwargs', None):
            args = [self.ev(a, env, f) for a in e.args]
            kw = dict((k.arg, self.ev(k.value, env, f)) for k in e.keywords)
            if e.starargs:
                args += self.items(self.ev(e.starargs, env, f))
            if e.kwargs:
                d = self.ev(e.kwargs, env, f)
                if not isinstance(d, dict):
                    raise Undecided('arguments')
                kw.update(d)
        else:
            args, kw = None, None
        if e.func.t == 'Name' and e.func.id == 'super' and 'super' not in env:
            return Super(self.ev(e.args[0], env, f), self.ev(e.args[1], env, f))
        if e.func.t == 'Attribute' and e.func.value.t == 'Name' and e.func.value.id == 'logging':
            return None
        fn = self.ev(e.func, env, f)
        if args is None:
            args = [self.ev(a, env, f) for a in e.args]
            kw = dict((k.arg, self.ev(k.value, env, f)) for k in e.keywords)
        if isinstance(fn, Bound) and isinstance(fn.o, Class):
            fn = fn.f
        if isinstance(fn, Bound) and isinstance(fn.f, Method):
            return fn.f.fn(args)
        if isinstance(fn, Method):
            return fn.fn(args)
        if isinstance(fn, Bound) and isinstance(fn.f, Named):
            return self.named(fn.o, fn.f.name, args)
        if isinstance(fn, Builtin) and fn.name == 'nothing':
            return None
        return self.call(fn, args, kw, e)

    def named(self, o, n, args):
        if isinstance(o, Opaque):
            return self.opaque(n, args, o)
        if isinstance(o, Names):
            if n == 'get':
                return 'T.n8'
            raise Undecided('names')
        if isinstance(o, list):
            if n in ('append', 'extend', 'insert', 'reverse', 'pop', 'index'):
                return getattr(o, n)(*args)
        if isinstance(o, str):
            if n == 'join':
                return self.builtin('join', [args[0], o], None)
            if n in ('strip', 'upper', 'lower', 'replace', 'startswith', 'endswith') and all(isinstance(a, str) for a in args):
                return getattr(o, n)(*args)
        if isinstance(o, dict):
            if n == 'get':
                return o.get(*args)
            if n in ('keys', 'values', 'items', 'iteritems'):
                return list(getattr(o, n.replace('iter', ''))())
        raise Undecided('method %s' % n)

    # ---------------------------------------------------------------- statements
    def bind(self, t, v, env, f):
        if t.t == 'Name':
            env[t.id] = v
        elif t.t in ('Tuple', 'List'):
            vs = self.items(v)
            if len(vs) != len(t.elts):
                raise Undecided('unpacking')
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env, f)
        elif t.t == 'Attribute':
            o = self.ev(t.value, env, f)
            if not isinstance(o, Obj):
                raise Undecided('assignment')
            o.f[t.attr] = v
        elif t.t == 'Subscript' and t.slice.t == 'Index':
            o = self.ev(t.value, env, f)
            if not isinstance(o, (list, dict)):
                raise Undecided('assignment')
            o[self.ev(t.slice.value, env, f)] = v
        else:
            raise Undecided('assignment')

    def block(self, body, env, f):
        for s in body:
            self.stmt(s, env, f)

    def stmt(self, s, env, f):
        self.fuel += 1
        if self.fuel > 20000:
            raise Undecided('too long')
        t = s.t
        if t == 'Expr':
            if s.value.t != 'Str':
                self.ev(s.value, env, f)
        elif t == 'Assign':
            v = self.ev(s.value, env, f)
            for x in s.targets:
                self.bind(x, v, env, f)
        elif t == 'AugAssign':
            n = Node('BinOp')
            n._fields = []
            n.left, n.op, n.right, n.lineno = s.target, s.op, s.value, s.lineno
            self.bind(s.target, self.ev(n, env, f), env, f)
        elif t == 'Return':
            raise Return(None if s.value is None else self.ev(s.value, env, f))
        elif t == 'If':
            self.block(s.body if self.truth(self.ev(s.test, env, f)) else s.orelse, env, f)
        elif t in ('For', 'While'):
            it = iter(self.items(self.ev(s.iter, env, f))) if t == 'For' else None
            while True:
                self.fuel += 1
                if self.fuel > 20000:
                    raise Undecided('too long')
                if t == 'For':
                    try:
                        self.bind(s.target, next(it), env, f)
                    except StopIteration:
                        self.block(s.orelse, env, f)
                        break
                elif not self.truth(self.ev(s.test, env, f)):
                    self.block(s.orelse, env, f)
                    break
                try:
                    self.block(s.body, env, f)
                except Loop as x:
                    if x.args[0] == 'Break':
                        break
        elif t in ('Break', 'Continue'):
            raise Loop(t)
        elif t == 'Raise':
            x = s.type
            if x is None:
                raise Undecided('raise')
            x = x.func if x.t == 'Call' else x
            raise Raised(x.attr if x.t == 'Attribute' else x.id if x.t == 'Name' else '?', s.lineno)
        elif t in ('TryExcept', 'TryFinally'):
            if t == 'TryFinally':
                try:
                    self.block(s.body, env, f)
                finally:
                    self.block(s.finalbody, env, f)
                return
            try:
                self.block(s.body, env, f)
            except Raised as r:
                for h in s.handlers:
                    ns = [] if h.type is None else h.type.elts if h.type.t == 'Tuple' else [h.type]
                    ns = [n.attr if n.t == 'Attribute' else n.id if n.t == 'Name' else '?' for n in ns]
                    if not ns or r.name in ns or 'Exception' in ns:
                        self.block(h.body, env, f)
                        return
                raise
            else:
                self.block(s.orelse, env, f)
        elif t not in ('Pass', 'Global', 'Assert', 'Import', 'ImportFrom'):
            raise Undecided(t)


class Method(object):
    def __init__(self, fn):
        self.fn = fn


class Named(object):
    def __init__(self, name):
        self.name = name


# -------------------------------------------------------------------- SQL
TOK = re.compile(r"\s*(\|\||<>|!=|<=|>=|[=<>+\-*/(),]|'(?:[^']|'')*'|[A-Za-z_][\w.]*|\d+)")
PREC = {'OR': 1, 'AND': 2, '=': 4, '<>': 4, '!=': 4, '<': 4, '>': 4, '<=': 4, '>=': 4, 'LIKE': 4, '+': 5, '-': 5, '*': 6, '/': 6, '||': 7}
SEPS = ('FROM', 'FOR', 'IN', 'AS', ',')


class Bad(Exception):
    pass


class Sql(object):
    def __init__(self, text):
        self.toks, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise Bad('is not SQL')
            w = m.group(1)
            self.toks.append(w.upper() if re.match('[A-Za-z_]', w) and not re.match(r'[Ln]\d+$', w) else w)
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        self.i += 1
        if self.i > len(self.toks):
            raise Bad('ends too early')
        return self.toks[self.i - 1]

    def all(self):
        e = self.expr(0)
        if self.peek() is not None:
            raise Bad('does not end where it should')
        return e

    def expr(self, p):
        if self.peek() == 'NOT':
            self.next()
            l = ('NOT', self.expr(3))
        elif self.peek() == '-':
            self.next()
            l = ('NEG', self.expr(7))
        else:
            l = self.primary()
        compared = False
        while self.peek() in PREC and PREC[self.peek()] > p:
            q = PREC[self.peek()]
            if q == 4 and compared:
                raise Bad('compares the result of a comparison without brackets')
            op = self.next()
            r = self.expr(q)
            compared = compared or q == 4
            l = (op, l, r)
        return l

    def primary(self):
        t = self.next()
        if t == '(':
            e = self.expr(0)
            if self.next() != ')':
                raise Bad('has unbalanced brackets')
            return e
        if t in PREC or t in SEPS or t == ')':
            raise Bad('lacks an operand')
        if self.peek() == '(' and re.match('[A-Z_]', t):
            self.next()
            args, sep = [], ''
            while self.peek() != ')':
                args.append((sep, self.expr(0)))
                if self.peek() in SEPS:
                    sep = self.next()
                elif self.peek() != ')':
                    raise Bad('has unbalanced brackets')
            self.next()
            return ('call', t, tuple(args))
        return t


def norm(e):
    if not isinstance(e, tuple):
        return e
    op = e[0]
    if op == 'call':
        return ('call', {'LENGTH': 'CHAR_LENGTH', 'SUBSTR': 'SUBSTRING'}.get(e[1], e[1]), tuple((s, norm(x)) for s, x in e[2]))
    if op in ('+', '-'):
        out = []

        def terms(x, sign):
            if isinstance(x, tuple) and x[0] in ('+', '-'):
                terms(x[1], sign)
                terms(x[2], sign if x[0] == '+' else -sign)
            else:
                out.append((sign, norm(x)))
        terms(e, 1)
        return ('sum',) + tuple(sorted(out, key=repr))
    if op in ('*', 'AND', 'OR', '||'):
        out = []

        def flat(x):
            if isinstance(x, tuple) and x[0] == op:
                flat(x[1])
                flat(x[2])
            else:
                out.append(norm(x))
        flat(e)
        return (op,) + (tuple(out) if op == '||' else tuple(sorted(out, key=repr)))
    if op in ('>', '>='):
        return ({'>': '<', '>=': '<='}[op], norm(e[2]), norm(e[1]))
    if op in ('=', '<>', '!='):
        return ('<>' if op == '!=' else op,) + tuple(sorted((norm(e[1]), norm(e[2])), key=repr))
    return (op,) + tuple(norm(x) for x in e[1:])


OPS = {'mul': '*', 'div': '/', 'add': '+', 'sub': '-', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '=', 'ne': '<>', 'boolAnd': 'AND', 'boolOr': 'OR'}
ARITH = ('mul', 'div', 'add', 'sub')
CMP = ('lt', 'gt', 'le', 'ge', 'eq', 'ne')
LOGIC = ('boolAnd', 'boolOr')
PARTS = {'year': '%Y', 'month': '%m', 'day': '%d', 'hour': '%H', 'minute': '%M', 'second': '%S'}
FUNCS = {
    'endswith': (2, "b", ["{0} LIKE '%' || {1}", "{0} LIKE CONCAT('%', {1})"]),
    'startswith': (2, "b", ["{0} LIKE {1} || '%'", "{0} LIKE CONCAT({1}, '%')"]),
    'substringof': (2, "b", ["{1} LIKE '%' || {0} || '%'", "{1} LIKE CONCAT('%', {0}, '%')"]),
    'concat': (2, "s", ["{0} || {1}", "CONCAT({0}, {1})"]),
    'indexof': (2, "n", ["POSITION({1} IN {0}) - 1", "INSTR({0}, {1}) - 1"]),
    'substring2': (2, "s", ["SUBSTRING({0} FROM {1} + 1)", "SUBSTRING({0}, {1} + 1)"]),
    'substring3': (3, "s", ["SUBSTRING({0} FROM {1} + 1 FOR {2})", "SUBSTRING({0}, {1} + 1, {2})"]),
    'tolower': (1, "s", ["LOWER({0})"]), 'toupper': (1, "s", ["UPPER({0})"]), 'trim': (1, "s", ["TRIM({0})"]),
    'length': (1, "n", ["CHAR_LENGTH({0})"]),
    'replace': (3, "s", ["REPLACE({0}, {1}, {2})"]), 'round': (1, "n", ["ROUND({0})"]), 'floor': (1, "n", ["FLOOR({0})"]), 'ceiling': (1, "n", ["CEILING({0})", "CEIL({0})"]),
}
for p, c in PARTS.items():
    FUNCS[p] = (1, "n", ["EXTRACT(%s FROM {0})" % p.upper(), "CAST(STRFTIME('%s', {0}) AS INTEGER)" % c, "%s({0})" % p.upper()])
NUMERIC_ARGS = {'substring2': (1,), 'substring3': (1, 2), 'round': (0,), 'floor': (0,), 'ceiling': (0,)}
STRING_ARGS = {'endswith': (0, 1), 'startswith': (0, 1), 'substringof': (0, 1), 'concat': (0, 1), 'indexof': (0, 1), 'substring2': (0,), 'substring3': (0,), 'length': (0,), 'tolower': (0,)}


class Checker(object):
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        self.Bin, self.Call = prog.cls(CORE, 'BinaryExpression'), prog.cls(CORE, 'CallExpression')
        self.texts = self.refused = self.undecided = 0
        self.why = set()

    def expr(self, tree):
        """tree: int (operand) | (operator, tree, tree) | (function, trees...)"""
        if isinstance(tree, int):
            return Leaf(tree)
        n = tree[0]
        o = Obj(self.Bin if n in OPS or n == 'mod' else self.Call)
        o.f.update(parent=None, operands=[self.expr(x) for x in tree[1:]])
        if o.cls is self.Bin:
            o.f['operator'] = ('enum', 'Operator', n)
        else:
            o.f['operator'] = ('enum', 'Operator', 'methodCall')
            o.f['method'] = ('enum', 'Method', n.rstrip('23'))
        return o

    def expected(self, tree):
        """the structures that mean the same"""
        if isinstance(tree, int):
            return ['L%d' % tree]
        subs = [self.expected(x) for x in tree[1:]]
        out = []
        for c in itertools.product(*subs):
            c = ['(%s)' % x for x in c]
            if tree[0] in OPS:
                out.append('%s %s %s' % (c[0], OPS[tree[0]], c[1]))
            else:
                out += [p.format(*c) for p in FUNCS[tree[0]][2]]
        return out

    def self_(self, cls):
        o = Obj(cls)
        o.f.update(container=Opaque(), tableName='T', qualifyNames=False)
        return o

    def method_of(self, cls, name):
        try:
            table = Eval(self.prog).attr(self.self_(cls), 'SQLBinaryExpressionMethod' if name in OPS else 'SQLCallExpressionMethod')
            return cls.find(table[('enum', 'Operator' if name in OPS else 'Method', name.rstrip('23'))])
        except (Undecided, Raised, KeyError):
            return None

    def translate(self, cls, tree, context):
        ev = Eval(self.prog)
        f = cls.find('SQLExpression')
        return ev.enter(f, [self.self_(cls), self.expr(tree), Opaque()] + ([context] if context else []), {})

    def show(self, tree):
        if isinstance(tree, int):
            return 'abcdef'[tree]
        n = tree[0].rstrip('23')
        if tree[0] in OPS:
            n = {'boolAnd': 'and', 'boolOr': 'or'}.get(n, n)
            return '%s %s %s' % tuple([self.show(tree[1]) if isinstance(tree[1], int) else '(%s)' % self.show(tree[1]), n,
                                       self.show(tree[2]) if isinstance(tree[2], int) else '(%s)' % self.show(tree[2])])
        return '%s(%s)' % (n, ', '.join(self.show(x) for x in tree[1:]))

    def check(self, cls, tree, context=None):
        try:
            text = self.translate(cls, tree, context)
        except Undecided as u:
            self.undecided += 1
            self.why.add(str(u))
            return True
        except Raised as x:
            self.refused += 1
            return True
        if not isinstance(text, str):
            self.undecided += 1
            self.why.add('result')
            return True
        self.texts += 1
        f = self.method_of(cls, tree[0]) or cls.find('SQLExpression')
        got = None
        try:
            got = norm(Sql(text).all())
            why = 'means something else'
        except Bad as b:
            why = str(b)
        if got is None or not any(got == norm(Sql(e).all()) for e in self.expected(tree)):
            line = re.sub(r'\bL(\d)', lambda m: 'abcdef'[int(m.group(1))], text)
            self.r.add('%s %s' % (cls.name, tree[0]), '%s:%d meaning: %s translates %s to "%s", which %s' % (f.module.rel, f.node.lineno, f.short if isinstance(f.short, str) else f.name, self.show(tree), line, why))
            return False
        return True


def renumber(tree, n):
    if isinstance(tree, int):
        n[0] += 1
        return n[0] - 1
    return (tree[0],) + tuple(renumber(x, n) for x in tree[1:])


def inner(tree):
    for x in tree[1:]:
        if not isinstance(x, int):
            yield x[0]
            for y in inner(x):
                yield y


def trees():
    out = []
    prim = {}
    for o in OPS:
        prim[o] = (o, 0, 0)
    for fn, (n, k, p) in FUNCS.items():
        prim[fn] = (fn,) + (0,) * n
    out += list(prim.values())

    def fits(o, i):
        k = 'n' if i in ARITH else 'b' if i in CMP + LOGIC else FUNCS[i][1]
        if o in ARITH:
            return k == 'n'
        if o in LOGIC:
            return k == 'b'
        return k != 'b' or o in ('eq', 'ne')
    for o in OPS:
        for i in prim:
            if fits(o, i):
                out += [(o, prim[i], 0), (o, 0, prim[i])]
    for o, at in list(NUMERIC_ARGS.items()) + list(STRING_ARGS.items()):
        inner = ARITH if o in NUMERIC_ARGS and at == NUMERIC_ARGS[o] else ('concat', 'tolower')
        for i in inner:
            for a in at:
                out.append((o,) + tuple(prim[i] if x == a else 0 for x in range(FUNCS[o][0])))
    # three levels
    for a in ARITH:
        for b in ARITH:
            out += [(a, 0, (b, 0, ('sub', 0, 0))), (a, (b, 0, ('div', 0, 0)), 0)]
    return [renumber(t, [0]) for t in out]


def holds(e, order):
    """truth of a condition given how each name compares with its literal"""
    if e[0] in ('AND', 'OR'):
        l, r = holds(e[1], order), holds(e[2], order)
        return (l and r) if e[0] == 'AND' else (l or r)
    if e[0] == 'NOT':
        return not holds(e[1], order)
    op, a, b = e
    if a[0] == 'L' and b[0] == 'n':
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if a[0] != 'n' or b[0] != 'L' or a[1:] != b[1:]:
        raise Bad('compares %s with %s' % (a, b))
    c = order[int(a[1:])]
    return {'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0, '=': c == 0, '<>': c != 0, '!=': c != 0}[op]


def conjuncts(e):
    if isinstance(e, tuple) and e[0] == 'AND':
        return conjuncts(e[1]) + conjuncts(e[2])
    return [e]


def conditions(ck, prog, r, classes):
    """the parts of the condition of a statement are put together with AND"""
    done, count = set(), 0
    for c in classes:
        f = c.find('WhereClause')
        sig = (f, c.find('WhereEntityClause'), c.find('WhereSkiptokenClause'))
        if sig in done:
            continue
        done.add(sig)
        nav = any(k.name not in ('SQLCollectionBase', 'SQLEntityCollection', 'object') and 'WhereClause' in k.methods for k in c.mro if isinstance(k, Class))
        for filt, skip, ent in itertools.product((True, False), repeat=3):
            o = ck.self_(c)
            o.f.update(orderNames=[('n0', 1), ('n1', 1)], skiptoken=[Leaf(0), Leaf(1)] if skip else None, orderby=None,
                       filter=ck.expr(('boolOr', 2, 3)) if filt else None, fromEntity=Opaque(Leaf(8)), entitySet=Opaque())
            for n in ('sourceName', 'associationTableName', 'associationSetName', 'fromNavName', 'toNavName'):
                o.f[n] = 'T'
            # lengthened argument lists of a refactored method keep their defaults
            try:
                text = Eval(prog).enter(f, [o, Opaque(Leaf(9)) if ent else None, Opaque()], {'useFilter': True, 'useSkip': True})
            except Undecided as u:
                ck.undecided += 1
                ck.why.add(str(u))
                continue
            except Raised as x:
                r.add('where ' + c.name, '%s:%d where: %s fails with %s' % (f.module.rel, x.line, f.name, x.name))
                continue
            if not isinstance(text, str):
                ck.undecided += 1
                continue
            count += 1
            want = ['L8'] * nav + ['L9'] * ent
            why = None
            if not text.strip():
                if filt or skip or want:
                    why = 'leaves conditions out'
            elif not text.upper().strip().startswith('WHERE '):
                why = 'is not a condition'
            else:
                try:
                    terms = conjuncts(Sql(text.strip()[6:]).all())
                    rest = []
                    for t in terms:
                        if isinstance(t, tuple) and t[0] == '=' and t[2] in want:
                            want.remove(t[2])
                        elif isinstance(t, tuple) and t[0] == '=' and t[1] in want:
                            want.remove(t[1])
                        elif filt and norm(t) == norm(('OR', 'L2', 'L3')):
                            filt = None
                        else:
                            rest.append(t)
                    if want:
                        why = 'leaves out the condition on the key'
                    elif filt:
                        why = 'does not keep the filter together'
                    elif skip:
                        for order in itertools.product((-1, 0, 1), repeat=2):
                            if all(holds(t, order) for t in rest) != (order > (0, 0)):
                                why = 'does not keep the condition of the skip token together'
                    elif rest:
                        why = 'has a condition of its own'
                except Bad as b:
                    why = str(b)
            if why:
                r.add('where ' + c.name, '%s:%d where: %s.%s gives "%s" for a filter L2 or L3, which %s' % (f.module.rel, f.node.lineno, c.name, f.name, text.strip(), why))
    return count


def analyse(prog, pid, tier):
    r = Result()
    ck = Checker(prog, r)
    base = prog.cls(MOD, 'SQLCollectionBase')
    seen, classes = set(), []
    for c in [base] + list(base.all_subclasses()):
        names = set(n for k in c.mro if isinstance(k, Class) for n in k.methods if n.startswith(('SQL', 'Where', 'OrderBy', '_')))
        sig = frozenset((n, c.find(n).qname if isinstance(c.find(n).qname, str) else repr(c.find(n))) for n in names if isinstance(c.find(n), Func) and n.startswith('SQL'))
        if sig not in seen:
            seen.add(sig)
            classes.append(c)
    ts = trees()
    for c in classes:
        failed = set()
        for t in ts:
            if not any(x in failed for x in inner(t)):
                if not (ck.check(c, t) and ck.check(c, t, ',')) and all(isinstance(x, int) for x in t[1:]):
                    failed.add(t[0])
    # orders and the conditions of skip tokens
    orders = 0
    done = set()
    for c in [base] + list(base.all_subclasses()):
        for dirs in itertools.product((1, -1), repeat=3):
            for n in (1, 2, 3):
                ds = dirs[:n]
                f = c.find('OrderByClause')
                g = c.find('WhereSkiptokenClause')
                if (f, g, ds) in done:
                    continue
                done.add((f, g, ds))
                o = ck.self_(c)
                o.f.update(orderNames=[('n%d' % i, d) for i, d in enumerate(ds)], skiptoken=[Leaf(i) for i in range(n)])
                try:
                    text = Eval(prog).enter(f, [o], {})
                    orders += 1
                    want = 'ORDER BY ' + ', '.join('N%d %s' % (i, 'ASC' if d > 0 else 'DESC') for i, d in enumerate(ds))
                    got = re.sub(r'\s*,\s*', ', ', ' '.join(text.upper().split()))
                    got = re.sub(r'(N\d)(?=,|$)', r'\1 ASC', got)
                    if got != want:
                        r.add('order', '%s:%d order: OrderByClause gives "%s" for the directions %s' % (f.module.rel, f.node.lineno, text, list(ds)))
                except Undecided as u:
                    ck.undecided += 1
                    ck.why.add(str(u))
                except Raised as x:
                    r.add('order', '%s:%d order: OrderByClause fails with %s for the directions %s' % (f.module.rel, x.line, x.name, list(ds)))
                where = []
                try:
                    Eval(prog).enter(g, [o, where, Opaque()], {})
                    orders += 1
                    if len(where) != 1 or not isinstance(where[0], str):
                        raise Undecided('where')
                    bad = None
                    try:
                        e = Sql('(%s)' % where[0] if n == 1 else where[0]).all()
                        if n > 1 and isinstance(Sql('n0 = L0 AND ' + where[0]).all(), tuple) and Sql('n0 = L0 AND ' + where[0]).all()[0] != 'AND':
                            raise Bad('does not hold together beside another condition')
                        for order in itertools.product((-1, 0, 1), repeat=n):
                            want = False
                            for c_, d in zip(order, ds):
                                if c_:
                                    want = c_ * d > 0
                                    break
                            if holds(e, order) != want:
                                bad = 'does not select what comes after the token'
                    except Bad as b:
                        bad = str(b)
                    if bad:
                        r.add('skiptoken', '%s:%d skiptoken: WhereSkiptokenClause gives "%s" for the directions %s, which %s' % (g.module.rel, g.node.lineno, where[0], list(ds), bad))
                except Undecided as u:
                    ck.undecided += 1
                    ck.why.add(str(u))
                except Raised as x:
                    r.add('skiptoken', '%s:%d skiptoken: WhereSkiptokenClause fails with %s for the directions %s' % (g.module.rel, x.line, x.name, list(ds)))
    wheres = conditions(ck, prog, r, [base] + list(base.all_subclasses()))
    r.coverage.update(conditions=wheres, collections=[c.name for c in classes], expressions=len(ts), texts=ck.texts, refused=ck.refused, orders_and_tokens=orders, undecided=ck.undecided, undecided_because=sorted(ck.why)[:8])
    r.files = [base.module.rel]
    r.rules = ['the text of a translated operator, parsed as SQL, has the operator of the same meaning and its operands in the same places, whatever operator stands inside or around it',
               'the text of a translated method is the SQL function of the same meaning, its arguments in their roles and positions counted from 0',
               'the filter, the keys and the skip token are each a condition of their own, joined by AND',
               'an order names each column with its direction; a skip token selects exactly the rows after it']
    r.samples = [ck.show(t) for t in ts[:6]]
    r.explanation = 'Every operator and method, alone and inside every operator that can take it, was translated by evaluating the source with opaque operands; the text was parsed with the precedences of SQL and compared.'
    r.assumptions = ['Comparisons do not associate in SQL; || binds closer than arithmetic.']
    return r
