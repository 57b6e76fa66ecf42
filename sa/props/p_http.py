"""C32: HTTP messages end where the rules of HTTP say they end.

The methods that read a response and that send the body of a request are
interpreted over abstract messages: strings are sequences of literal octets and
of stretches of data whose lengths are unknown positive numbers, numbers are
linear forms over those lengths.  What is delivered, what is asked for and what
is sent is compared with RFC 2616, sections 3.6.1, 4.3 and 4.4."""
from ..frontend import walk
from ..interp import Client, Interp, State, av, avk, TOP, NOTNONE, NONE, TRUTHY, FALSY, TRUE, FALSE, truth, const
from ..model import AnalysisBroken, Class
from ..result import Result

MOD = 'pyslet.rfc2616'
CRLF = '\r\n'


# ------------------------------------------------------------------ numbers
def lin(a):
    """constant and terms of a number, or None"""
    if a[0] == 'k' and isinstance(a[2], int) and not isinstance(a[2], bool):
        return a[2], ()
    if a[0] == 'n':
        return a[1], a[2]
    return None


def num(c, terms=()):
    terms = tuple(sorted((s, k) for s, k in terms if k))
    if not terms:
        return const(c)
    return ('n', c, terms)


def plus(x, y, sign=1):
    t = dict(x[1])
    for s, k in y[1]:
        t[s] = t.get(s, 0) + sign * k
    return x[0] + sign * y[0], tuple(sorted((s, k) for s, k in t.items() if k))


def bounds(x):
    """every symbol stands for a number of at least one"""
    m = x[0] + sum(k for s, k in x[1])
    lo = m if all(k > 0 for s, k in x[1]) else None
    hi = m if all(k < 0 for s, k in x[1]) else None
    return lo, hi


def decide(op, d):
    """d op 0"""
    lo, hi = bounds(d)
    if op == 'Gt':
        return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
    if op == 'GtE':
        return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
    if op == 'Lt':
        r = decide('GtE', d)
    elif op == 'LtE':
        r = decide('Gt', d)
    elif op == 'Eq':
        if not d[1]:
            return d[0] == 0
        return False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
    else:
        r = decide('Eq', d)
    return None if r is None else not r


# ------------------------------------------------------------------ strings
def sym(s):
    return 0, ((s, 1),)


def data(ident, lo=(0, ()), hi=None):
    return ('d', ident, lo, sym(ident) if hi is None else hi)


def plen(p):
    if p[0] == 'l':
        return len(p[1]), ()
    if p[0] == 'd':
        return plus(p[3], p[2], -1)
    return 0, ((repr(p), 1),)


def text(pieces):
    """the value of a sequence of pieces"""
    out = []
    for p in pieces:
        if p[0] == 'l' and not p[1]:
            continue
        if p[0] == 'd' and plen(p) == (0, ()):
            continue
        if out and p[0] == 'l' and out[-1][0] == 'l':
            out[-1] = ('l', out[-1][1] + p[1])
        elif out and p[0] == 'd' and out[-1][0] == 'd' and p[1] == out[-1][1] and p[2] == out[-1][3]:
            out[-1] = ('d', p[1], out[-1][2], p[3])
        else:
            out.append(p)
    if not out:
        return const('')
    if len(out) == 1 and out[0][0] == 'l':
        return const(out[0][1])
    return ('s', tuple(out))


def pieces(a):
    if a[0] == 's':
        return a[1]
    if a[0] == 'k' and a[1] in ('str', 'unicode') and isinstance(a[2], str):
        return (('l', a[2]),) if a[2] else ()
    return None


def length(ps):
    n = (0, ())
    for p in ps:
        n = plus(n, plen(p))
    return n


def take(ps, k):
    """the first k octets and the rest, or None when that is not known"""
    first, rest = [], list(ps)
    while True:
        if k == (0, ()):
            return first, rest
        if decide('LtE', k):
            return first, rest
        if not rest:
            return first, rest
        p = rest[0]
        n = plen(p)
        r = decide('GtE', plus(k, n, -1))
        if r is None:
            return None
        if r:
            first.append(p)
            rest = rest[1:]
            k = plus(k, n, -1)
            continue
        if p[0] == 'l':
            if k[1]:
                return None
            return first + [('l', p[1][:k[0]])], [('l', p[1][k[0]:])] + rest[1:]
        if p[0] == 'd' and decide('Gt', k):
            mid = plus(p[2], k)
            return first + [('d', p[1], p[2], mid)], [('d', p[1], mid, p[3])] + rest[1:]
        return None


def show(ps):
    out = []
    for p in ps:
        if p[0] == 'l':
            out.append(repr(p[1]))
        elif p[0] == 'd':
            out.append('the data' if len(p[1]) < 2 else 'data %s' % p[1])
        elif p[0] == 'hex':
            out.append('a size')
        else:
            out.append('something')
    return ' '.join(out) or 'nothing'


# ------------------------------------------------------------------ facts
class Facts(object):
    """heap: attributes of the two messages; cons: comparisons that could go
    either way and went this way; log: what was done; script: what a stream
    still has to give"""
    @staticmethod
    def new(heap, script=()):
        return (frozenset(heap.items()), frozenset(), (), script)

    @staticmethod
    def heap(f):
        return dict(f[0])

    @staticmethod
    def put(f, key, v):
        h = dict(f[0])
        h[key] = v
        return (frozenset(h.items()),) + f[1:]

    @staticmethod
    def log(f, *ev):
        return f[:2] + (f[2] + ev,) + f[3:]

    @staticmethod
    def cons(f, c):
        return f[:1] + (f[1] | set([c]),) + f[2:]


class HTTPInterp(Interp):
    def merge_key(self, st, frame):
        return (st.facts, frozenset(st.env.items()))

    def retkey(self, s):
        return s.facts

    def e_UnaryOp(self, e, st, fr):
        if e.op == 'USub':
            out = []
            for s, v in self.ev(e.operand, st, fr):
                r = set()
                for a in v:
                    x = lin(a)
                    r |= NOTNONE if x is None else av(num(-x[0], tuple((t, -k) for t, k in x[1])))
                out.append((s, frozenset(r)))
            return out
        return Interp.e_UnaryOp(self, e, st, fr)

    def compare(self, e, st, fr):
        op = e.ops[0]
        T, F = [], []
        for s, lv in self.ev(e.left, st, fr):
            for s2, rv in self.ev(e.comparators[0], s, fr):
                for a in lv:
                    for b in rv:
                        x, y = lin(a), lin(b)
                        o = {'Is': 'Eq', 'IsNot': 'NotEq'}.get(op, op)
                        if x is not None and y is not None and o in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
                            d = plus(x, y, -1)
                            r = decide(o, d)
                            if r is None and (o, d) in s2.facts[1]:
                                r = True
                            if r is None and ('not ' + o, d) in s2.facts[1]:
                                r = False
                            if r is not False:
                                T.append(s2 if r else State(Facts.cons(s2.facts, (o, d)), s2.env))
                            if not r:
                                F.append(s2 if r is False else State(Facts.cons(s2.facts, ('not ' + o, d)), s2.env))
                            continue
                        if o in ('Eq', 'NotEq'):
                            r = self.client.same(a, b)
                            if r is not None:
                                (T if r == (o == 'Eq') else F).append(s2)
                                continue
                            if NONE in (a, b) and TRUTHY not in (a, b) and FALSY not in (a, b):
                                (T if (a == b) == (o == 'Eq') else F).append(s2)
                                continue
                            lp, rp = self.is_tracked(e.left, fr), self.is_tracked(e.comparators[0], fr)
                            t, f = self.eq(s2, av(a), av(b), lp, rp, op in ('Is', 'IsNot'))
                            if o == 'NotEq':
                                t, f = f, t
                        elif op in ('In', 'NotIn'):
                            t, f = self.in_(s2, av(a), av(b), None)
                            if op == 'NotIn':
                                t, f = f, t
                        else:
                            t = f = [s2]
                        T.extend(t)
                        F.extend(f)
        return self.merge(T, fr), self.merge(F, fr)


class HTTP(Client):
    max_states = 200

    def __init__(self, m, req, resp, base, ctx):
        self.m, self.req, self.resp, self.base, self.ctx = m, req, resp, base, ctx
        self.unknown = set()

    def relevant(self, ip, func):
        if func.module is not self.m or func.name == '__init__':
            return False
        return func.cls is None or func.cls in self.req.mro or func.cls in self.resp.mro

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def truthiness(self, a):
        x = lin(a)
        if x is not None:
            return decide('NotEq', x)
        if a[0] == 's':
            return decide('Gt', length(a[1]))
        return truth(a)

    def same(self, a, b):
        """are two values equal?  None: the general rules"""
        if a[0] == 'line' and pieces(b) is not None or b[0] == 'line' and pieces(a) is not None:
            return False            # a line with something on it is not the empty line
        pa, pb = pieces(a), pieces(b)
        if pa is not None and pb is not None and 's' in (a[0], b[0]):
            if tuple(pa) == tuple(pb):
                return True
            r = decide('Eq', plus(length(pa), length(pb), -1))
            return False if r is False else None
        return None

    def who(self, base):
        for a in base:
            if a[0] == 'inst' and isinstance(a[1], Class):
                if self.resp in a[1].mro:
                    return 'resp'
                if self.req in a[1].mro:
                    return 'req'
        return None

    # -------------------------------------------------------------- objects
    def attr_load(self, ip, fr, st, node, base, p):
        w = self.who(base)
        if w is None:
            return None
        h = Facts.heap(st.facts)
        if (w, node.attr) in h:
            return [(st, h[(w, node.attr)])]
        if node.attr == 'request' and w == 'resp':
            return [(st, av(('inst', self.req)))]
        if node.attr == 'response' and w == 'req':
            return [(st, av(('inst', self.resp)))]
        cls = [a[1] for a in base if a[0] == 'inst'][0]
        f = cls.find(node.attr)
        if f is not None:
            return [(st, av(('bound', f, ip.path(node.value), cls)))]
        ca = cls.find_attr(node.attr)
        if ca is not None and ca[1] is not None:
            return [(st, ip.const_value(ca[1]))]
        return [(st, TOP)]

    def attr_store(self, ip, fr, st, node, base, p, value):
        w = self.who(base)
        if w is None:
            return st
        return State(Facts.put(st.facts, (w, node.attr), value), st.env)

    def name_load(self, ip, fr, st, node, value):
        if value != TOP or node.id in fr.func.locals:
            return None
        v = self.constant(ip, fr.module, node, 0)
        return None if v is None else [(st, v)]

    def constant(self, ip, module, n, depth):
        """constants of modules: strings put together, numbers that come from the library"""
        if depth > 6:
            return None
        if n.t == 'BinOp' and n.op == 'Add':
            l, r = self.constant(ip, module, n.left, depth + 1), self.constant(ip, module, n.right, depth + 1)
            if l is None or r is None:
                return None
            l, r = pieces(next(iter(l))), pieces(next(iter(r)))
            return None if l is None or r is None else av(text(tuple(l) + tuple(r)))
        if n.t == 'Name':
            for m in [module] + [x for q, x in sorted(ip.prog.modules.items()) if q.startswith(MOD)]:
                k = ip.prog.resolve_expr(m, n)
                if k is not None and k[0] == 'var' and len(k[1]) == 1 and k[1][0] is not None:
                    e = k[1][0]
                    if e.t == 'Attribute' and e.attr.isupper():
                        return av(num(0, ((e.attr, 1),)))
                    return self.constant(ip, m, e, depth + 1)
            return None
        v = ip.const_value(n)
        return v if len(v) == 1 and next(iter(v))[0] == 'k' else None

    # -------------------------------------------------------------- values
    def list_display(self, ip, fr, st, node, values):
        return av(('tup', tuple(values)))

    def binop(self, ip, fr, st, node, left, right):
        out = set()
        for a in left:
            for b in right:
                x, y = lin(a), lin(b)
                pa, pb = pieces(a), pieces(b)
                if x is not None and y is not None and node.op in ('Add', 'Sub'):
                    out.add(num(*plus(x, y, 1 if node.op == 'Add' else -1)))
                elif x is not None and y is not None and node.op in ('FloorDiv', 'Div') and not x[1] and not y[1] and y[0]:
                    out.add(const(x[0] // y[0]))
                elif pa is not None and pb is not None and node.op == 'Add':
                    out.add(text(tuple(pa) + tuple(pb)))
                elif a[0] == 'tup' and b[0] == 'tup' and node.op == 'Add':
                    out.add(('tup', a[1] + b[1]))
                elif node.op == 'Mod' and a[0] == 'k' and isinstance(a[2], str):
                    out.add(self.format(a[2], b))
                else:
                    out |= NOTNONE
        return frozenset(out)

    def format(self, f, b):
        vals = list(b[1]) if b[0] == 'tup' else [av(b)]
        out, i = [], 0
        while i < len(f):
            if f[i] != '%':
                j = f.find('%', i)
                j = len(f) if j < 0 else j
                out.append(('l', f[i:j]))
                i = j
                continue
            c = f[i + 1:i + 2]
            i += 2
            if c == '%':
                out.append(('l', '%'))
                continue
            v = vals.pop(0) if vals else TOP
            a = next(iter(v)) if len(v) == 1 else TRUTHY
            x, p = lin(a), pieces(a)
            if c in 'xX' and x is not None:
                out.append(('l', '%x' % x[0]) if not x[1] else ('hex', x))
            elif c in 'sdiu' and x is not None:
                out.append(('l', '%d' % x[0]) if not x[1] else ('dec', x))
            elif c == 's' and p is not None:
                out.extend(p)
            else:
                out.append(('?', i))
        return text(out)

    def subscript_load(self, ip, fr, st, node, base, index):
        if node.slice.t != 'Slice':
            return None
        out = set()
        for a in base:
            if a[0] == 'line':
                out.add(a)
                continue
            ps = pieces(a)
            if ps is None:
                out |= TOP
                continue
            ends = []
            n = length(ps)
            for part, dflt in ((node.slice.lower, (0, ())), (node.slice.upper, n)):
                x = dflt
                if part is not None:
                    v = ip.ev(part, st, fr)[0][1]
                    x = lin(next(iter(v))) if len(v) == 1 else None
                    if v == av(NONE):
                        x = dflt
                if x is not None:
                    neg = decide('Lt', x)
                    if neg is None:
                        x = None
                    elif neg:
                        x = plus(n, x)
                ends.append(x)
            r = None
            if None not in ends:
                hi = take(ps, ends[1])
                lo = hi and take(hi[0], ends[0])
                r = lo and lo[1]
            if r is None:
                out.add(('s', (('?', 'slice at line %d' % node.lineno),)))
            else:
                out.add(text(r))
        return [(st, frozenset(out))]

    # -------------------------------------------------------------- calls
    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Name':
            n = f.id
            if n == 'len' and len(args) == 1 and all(pieces(a) is not None for a in args[0]):
                return [(st, frozenset(num(*length(pieces(a))) for a in args[0]))]
            if n == 'len' and len(args) == 1 and all(a[0] == 'tup' for a in args[0]):
                return [(st, frozenset(const(len(a[1])) for a in args[0]))]
            if n in ('int', 'long') and args:
                if any(a[0] == 'tok' for a in args[0]):
                    base = args[1] if len(args) > 1 else kw.get('base', avk(10))
                    if base != avk(16):
                        return [(State(Facts.log(st.facts, ('base',)), st.env), TOP)]
                    return [(st, NOTNONE if self.ctx['size'] is None else av(self.ctx['size']))]
                if all(lin(a) is not None for a in args[0]):
                    return [(st, args[0])]
            if n in ('min', 'max') and len(args) == 2 and all(len(x) == 1 and lin(next(iter(x))) is not None for x in args):
                x, y = [lin(next(iter(z))) for z in args]
                d = plus(x, y, -1)
                r = decide('LtE', d)
                if r is not None:
                    return [(st, args[0] if r == (n == 'min') else args[1])]
                return [(State(Facts.cons(st.facts, ('LtE', d)), st.env), args[0] if n == 'min' else args[1]),
                        (State(Facts.cons(st.facts, ('not LtE', d)), st.env), args[1] if n == 'min' else args[0])]
            if n == 'str' and args and all(pieces(a) is not None for a in args[0]):
                return [(st, args[0])]
        if callee is not None and callee[0] == 'class' and isinstance(callee[1], Class):
            if any(a[0] in ('line', 'tok') for v in args for a in v):
                return [(st, av(('parser',)))]
            return [(st, av(('inst', callee[1])))]
        if f.t != 'Attribute':
            return None
        n = f.attr
        bs = ip.ev(f.value, st, fr)[0][1] if f.value.t != 'Call' or not (f.value.func.t == 'Name' and f.value.func.id == 'super') else TOP
        w = self.who(bs)
        if w is not None:
            return self.message(ip, fr, st, node, w, n, args)
        if n == 'join':
            seq, sep = (args[0], bs) if any(pieces(a) is not None for a in bs) else (args[0], args[1] if len(args) > 1 else avk(' '))
            if len(seq) == 1 and next(iter(seq))[0] == 'tup' and len(sep) == 1 and pieces(next(iter(sep))) is not None:
                sp = pieces(next(iter(sep)))
                out = []
                for i, v in enumerate(next(iter(seq))[1]):
                    a = next(iter(v)) if len(v) == 1 else TRUTHY
                    p = pieces(a)
                    if i:
                        out.extend(sp)
                    out.extend(p if p is not None else [('?', i)])
                return [(st, av(text(out)))]
            return [(st, av(('s', (('?', 'join'),))))]
        for b in bs:
            if b == ('parser',):
                if 'Integer' in n:
                    return [(st, av(TRUE) if n.startswith('Is') else av(const(self.ctx['status'])))]
                if n in ('ParseToken', 'RequireToken', 'ParseHex', 'ParseRemainder'):
                    return [(st, av(('tok',)))]
                return [(st, TOP)]
            if b == ('sink',):
                if n == 'write' and args:
                    return [(State(Facts.log(st.facts, ('w', args[0])), st.env), av(NONE))]
                return [(st, av(NONE))]
            if b == ('conn',):
                return [(State(Facts.log(st.facts, ('conn', n)), st.env), av(NONE))]
            if b == ('src',):
                if n == 'read':
                    return self.read(ip, fr, st, node, args)
                return [(st, TOP)]
        if n in ('append', 'extend') and len(bs) == 1 and next(iter(bs))[0] == 'tup' and len(args) == 1:
            t = next(iter(bs))
            more = (args[0],)
            if n == 'extend':
                x = next(iter(args[0]))
                more = x[1] if x[0] == 'tup' else (TOP,)
            v = av(('tup', t[1] + tuple(more))) if len(t[1]) < 8 else NOTNONE
            if f.value.t == 'Attribute':
                b = ip.ev(f.value.value, st, fr)[0][1]
                w = self.who(b)
                if w is not None:
                    return [(State(Facts.put(st.facts, (w, f.value.attr), v), st.env), av(NONE))]
            if f.value.t == 'Name':
                return [(st.set(f.value.id, v), av(NONE))]
            return [(st, av(NONE))]
        if n in ('upper', 'lower', 'strip') and all(a[0] == 'k' and isinstance(a[2], str) for a in bs):
            return [(st, frozenset(const(getattr(a[2], n)()) for a in bs))]
        if callee is not None and callee[0] in ('func', 'bound'):
            return None
        return [(st, TOP)]

    def message(self, ip, fr, st, node, w, n, args):
        h = Facts.heap(st.facts)
        key = None
        names = {'transfer-encoding': 'te', 'content-length': 'cl'}
        if n in ('GetTransferEncoding', 'SetTransferEncoding'):
            key = 'te'
        elif n in ('GetContentLength', 'SetContentLength'):
            key = 'cl'
        elif n in ('GetHeader', 'HasHeader', 'SetHeader') and args:
            a = next(iter(args[0])) if len(args[0]) == 1 else TRUTHY
            if a[0] == 'k' and isinstance(a[2], str):
                key = names.get(a[2].lower(), 'other')
                args = args[1:]
            else:
                key = 'other'
        if key == 'other':
            return [(st, BOTH if n == 'HasHeader' else av(NONE) if n == 'SetHeader' else TOP)]
        if key is not None:
            if n.startswith('Get'):
                return [(st, h.get((w, '#' + key), av(NONE)))]
            if n.startswith('Has'):
                v = h.get((w, '#' + key), av(NONE))
                return [(st, av(FALSE if v == av(NONE) else TRUE))]
            return [(State(Facts.put(st.facts, (w, '#' + key), args[0] if args else TOP), st.env), av(NONE))]
        if n == 'GetHeaderList':
            return [(State(Facts.log(st.facts, ('headers', h.get((w, '#te'), av(NONE)), h.get((w, '#cl'), av(NONE)))), st.env), NOTNONE)]
        if w == 'req':
            if n in ('Finished', 'HandleResponseHeader'):
                return [(st, av(NONE))]
            if n == 'ResponseFinished' and not fr_is(fr, 'ResponseFinished'):
                a = args[0] if args else av(NONE)
                ip_st = State(Facts.log(st.facts, ('end', a)), st.env)
                f = self.req.find('ResponseFinished')
                return ip.enter(node, f, self.req, ip.path(node.func.value), ip_st, args, {}, fr, True)
            if n == 'ReadRequestBody' and self.ctx['side'] == 'resp':
                return [(st, TOP)]
        return None

    def read(self, ip, fr, st, node, args):
        """a stream gives as many octets as asked for, or fewer"""
        f = st.facts
        asked = args[0] if args else None
        k = lin(next(iter(asked))) if asked is not None and len(asked) == 1 else None
        script = f[3]
        f = Facts.log(f, ('read', k, frozenset(f[1]), plus(self.ctx['total'], length(script), -1)))
        if not script:
            return [(State(f, st.env), avk(''))]
        d = script[0]
        return [(State(f[:3] + (script[1:],), st.env), av(text([d])))]


BOTH = frozenset([TRUE, FALSE])


def fr_is(fr, name):
    return fr.func.name == name


class Driver(object):
    def __init__(self, prog, m, req, resp, base):
        self.prog, self.m, self.req, self.resp, self.base = prog, m, req, resp, base
        self.entered = set()
        self.steps = 0

    def client(self, **ctx):
        self.cl = HTTP(self.m, self.req, self.resp, self.base, ctx)
        self.ctx = ctx

    def run(self, w, name, facts, *args):
        """-> [(facts, value)], [(facts, exception)]"""
        cls = self.resp if w == 'resp' else self.req
        f = cls.find(name)
        if f is None:
            raise AnalysisBroken('no method %s' % name)
        ip = HTTPInterp(self.prog, self.cl)
        env = {}
        params = [p for p in f.params if p]
        env[params[0]] = av(('inst', cls))
        for p, v in zip(params[1:], args):
            env[p] = v
        nd = len(f.node.args.defaults or [])
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                env[p] = ip.const_value(f.node.args.defaults[j]) if j >= 0 else TOP
        out = ip.run(f, cls=cls, env=env, facts=facts)
        self.entered |= set(ip.entered)
        self.steps += 1
        ok, bad = {}, {}
        for s, v, n in out.ret:
            ok[s.facts] = ok.get(s.facts, frozenset()) | v
        for x in out.exc:
            bad[x[0].facts] = x[1]
        if not ok and not bad:
            raise AnalysisBroken('%s has no way out' % name)
        return list(ok.items()), list(bad.items())


LINE = av(('line',))
END = avk(CRLF)


def ended(f):
    return [e[1] for e in f[2] if e[0] == 'end']


class Responses(object):
    """drives the reader of responses through one exchange"""

    def __init__(self, dr, r, where):
        self.dr, self.r, self.where = dr, r, where
        self.n = 0

    def add(self, rule, what, text_):
        self.r.add('%s|%s' % (rule, what), '%s %s: %s' % (self.where, rule, text_))

    def start(self, status, method, te, cl, sink):
        self.dr.client(side='resp', status=status, size=None)
        h = {('req', 'method'): avk(method), ('req', 'connection'): av(('conn',)) if status < 300 else av(NONE),
             ('req', 'resBodyStream'): av(('sink',)) if sink else av(NONE), ('req', 'resBuffer'): av(('tup', ())),
             ('req', 'resBody'): avk(''), ('req', 'status'): avk(0), ('req', 'error'): av(NONE),
             ('req', 'autoRedirect'): BOTH, ('req', 'tryCredentials'): av(NONE)}
        fs = [f for f, v in self.dr.run('resp', 'Reset', Facts.new(h))[0]]
        out = []
        for f in fs:
            f = Facts.put(f, ('resp', '#te'), te)
            f = Facts.put(f, ('resp', '#cl'), cl)
            out.append(f)
        return out

    def feed(self, fs, name, arg, case):
        """one line or some octets, in every state"""
        out = []
        for f in fs:
            ok, bad = self.dr.run('resp', name, f, arg)
            for g, x in bad:
                self.add('raises', case, 'reading %s fails with %s' % (case, getattr(x, 'name', x) if not isinstance(x, tuple) else x[-1]))
            out.extend(g for g, v in ok)
        return list(set(out))

    def needs(self, fs):
        """what is asked for in each state"""
        out = []
        for f in fs:
            for g, v in self.dr.run('resp', 'RecvNeeds', f)[0]:
                for a in v:
                    out.append((f, a))
        return out

    def want(self, fs, kind, case, rest=None):
        """the reader asks for a line / octets of what is left / all there are / nothing"""
        good = []
        for f, a in self.needs(fs):
            x = lin(a)
            if kind == 'line':
                right = a == const(CRLF)
            elif kind == 'done':
                right = a == NONE
            elif kind == 'all':
                right = x == (0, ())
            else:
                right = x is not None and decide('Gt', x) is True and decide('LtE', plus(x, length(rest), -1)) is True
            if right:
                good.append((f, x))
                continue
            got = 'a line' if a == const(CRLF) else 'nothing more' if a == NONE else 'everything up to the close' if x == (0, ()) \
                else 'octets' if x is not None and kind != 'octets' else 'more octets than there are' if x is not None and \
                decide('Gt', plus(x, length(rest), -1)) else 'something else'
            self.add('ends', case + kind, 'a response %s: %s should be read next, and %s is' % (
                case, {'line': 'a line', 'done': 'nothing more', 'all': 'everything up to the close', 'octets': 'the octets left'}[kind], got))
        return good

    def octets(self, fs, rest, case, parts=False):
        """everything left is read, as asked for; with parts, in two helpings"""
        states = [(f, tuple(rest)) for f in fs]
        done = []
        for i in range(8):
            nxt = []
            for f, ps in states:
                if not ps:
                    done.append(f)
                    continue
                for g, x in self.want([f], 'octets', case, ps):
                    t = take(ps, x)
                    if t is None:
                        self.add('ends', case + '?', 'a response %s: the number of octets asked for could not be compared with what is left' % case)
                        continue
                    helpings = [t[0]]
                    if parts and len(t[0]) > 1:
                        helpings = [[p] for p in t[0]]
                    cur = [g]
                    for hp in helpings:
                        cur = self.feed(cur, 'RecvBytes', av(text(hp)), case)
                    nxt.extend((c, tuple(t[1])) for c in cur)
            states = nxt
            if not states:
                break
        return list(set(done))

    def body(self, fs, sink, case, want, end=True, status=None):
        """what was delivered, and how the end was told"""
        for f in fs:
            h = Facts.heap(f)
            ends = ended(f)
            if sink:
                got = []
                for e in f[2]:
                    if e[0] == 'w':
                        a = next(iter(e[1])) if len(e[1]) == 1 else TRUTHY
                        got.extend(pieces(a) if pieces(a) is not None else [('?', 0)])
            else:
                v = h.get(('req', 'resBody'), TOP)
                a = next(iter(v)) if len(v) == 1 else TRUTHY
                got = pieces(a)
                got = [('?', 0)] if got is None else got
            if end and len(ends) != 1:
                self.add('end', case, 'a response %s: its end is told %d times' % (case, len(ends)))
                continue
            if end and any(a != NONE for e in ends for a in e):
                self.add('end', case, 'a response %s is reported with an error' % case)
            if text(got) != text(want):
                self.add('body', case, 'a response %s: the body delivered is %s instead of %s' % (
                    case, show(pieces(text(got)) or got), show(pieces(text(want)))))
            elif end and status is not None and h.get(('req', 'status')) != avk(status):
                self.add('status', case, 'a response %s: its status is not passed on' % case)

    def cut(self, fs, case):
        """the server hangs up here"""
        for f in fs:
            before = len(ended(f))
            for g, v in self.dr.run('resp', 'ServerDisconnect', f, av(NONE))[0]:
                self.n += 1
                e = ended(g)[before:]
                st = Facts.heap(g).get(('req', 'status'), TOP)
                er = Facts.heap(g).get(('req', 'error'), TOP)
                if not e:
                    self.add('cut', case, 'the server hangs up %s and the request is not told' % case)
                elif NONE in er:
                    self.add('cut', case, 'the server hangs up %s and the response is reported without an error' % case)
                elif st != avk(0):
                    self.add('cut', case, 'the server hangs up %s and the response is reported with its status, as if it were complete' % case)

    def exchange(self, status, method, te, cl, sink):
        te_, cl_ = av(NONE) if te is None else avk(te), av(NONE) if cl is None else avk(0) if cl == 0 else av(num(0, (('n', 1),)))
        case = 'of status %d to %s with %s and %s' % (
            status, method, 'no Transfer-Encoding' if te is None else 'Transfer-Encoding %s' % te,
            'no Content-Length' if cl is None else 'Content-Length 0' if cl == 0 else 'a Content-Length')
        self.n += 1
        fs = self.start(status, method, te_, cl_, sink)
        fs = [f for f, x in self.want(fs, 'line', case)]
        self.cut(fs, 'before the status line')
        fs = self.feed(fs, 'RecvLine', LINE, case)
        fs = [f for f, x in self.want(fs, 'line', case)]
        self.cut(fs, 'in the headers')
        fs = self.feed(fs, 'RecvLine', END, case)
        info = status // 100 == 1
        empty = info or status in (204, 304) or method == 'HEAD'
        if empty or (te in (None, 'identity') and cl == 0):
            if info:
                # the same response is read again
                self.want(fs, 'line', case)
                self.body(fs, sink, case, [], end=True)
                for f in fs:
                    if not ('conn', 'Continue') in f[2]:
                        self.add('continue', case, 'the connection is not told of a response %s' % case)
                self.cut(fs, 'after a response of status 1xx')
                if method != 'HEAD':
                    self.after(fs, sink)
                return
            good = [f for f, x in self.want(fs, 'done', case)]
            self.body(good, sink, case, [], status=status)
            return
        if te not in (None, 'identity'):
            for sizes in ((), ('a',), ('a', 'b')):
                self.chunks(fs, sizes, sink, case + ' in %d chunks' % len(sizes), status)
            return
        if cl is not None:
            self.cut(fs, 'in a body of known length')
            good = self.octets(fs, [data('n')], case)
            good = [f for f, x in self.want(good, 'done', case)]
            self.body(good, sink, case, [data('n')], status=status)
            return
        cur = [f for f, x in self.want(fs, 'all', case)]
        cur = self.feed(cur, 'RecvBytes', av(text([data('a')])), case)
        cur = [f for f, x in self.want(cur, 'all', case)]
        cur = self.feed(cur, 'RecvBytes', av(text([data('b')])), case)
        cur = [f for f, x in self.want(cur, 'all', case)]
        out = []
        for f in cur:
            out.extend(g for g, v in self.dr.run('resp', 'ServerDisconnect', f, av(NONE))[0])
        self.body(out, sink, case, [data('a'), data('b')], status=status)

    def after(self, fs, sink):
        """the final response after a provisional one"""
        self.dr.ctx['status'] = 200
        case = 'of status 200 after one of status 100'
        fs = [(f[:2] + (tuple(e for e in f[2] if e[0] not in ('end', 'w')),) + f[3:]) for f in fs]
        for te, cl in ((None, 'n'), (None, None), ('chunked', None)):
            cur = []
            for f in fs:
                f = Facts.put(f, ('resp', '#te'), av(NONE) if te is None else avk(te))
                cur.append(Facts.put(f, ('resp', '#cl'), av(NONE) if cl is None else av(num(0, (('n', 1),)))))
            cur = self.feed(cur, 'RecvLine', LINE, case)
            cur = self.feed(cur, 'RecvLine', END, case)
            c = case + (' in chunks' if te else ' with a Content-Length' if cl else ' up to the close')
            if te:
                self.chunks(cur, ('a',), sink, c, 200)
            elif cl:
                good = self.octets(cur, [data('n')], c)
                self.body([f for f, x in self.want(good, 'done', c)], sink, c, [data('n')], status=200)
            else:
                cur = [f for f, x in self.want(cur, 'all', c)]
                cur = self.feed(cur, 'RecvBytes', av(text([data('a')])), c)
                out = []
                for f in cur:
                    out.extend(g for g, v in self.dr.run('resp', 'ServerDisconnect', f, av(NONE))[0])
                self.body(out, sink, c, [data('a')], status=200)

    def chunks(self, fs, sizes, sink, case, status):
        for parts in (False, True):
            cur = list(fs)
            for z in sizes:
                cur = [f for f, x in self.want(cur, 'line', case)]
                self.cut(cur, 'before the size of a chunk')
                self.dr.ctx['size'] = num(0, ((z, 1),))
                cur = self.feed(cur, 'RecvLine', LINE, case)
                self.cut(cur, 'in a chunk')
                cur = self.octets(cur, [data(z), ('l', CRLF)], case, parts)
            cur = [f for f, x in self.want(cur, 'line', case)]
            self.dr.ctx['size'] = const(0)
            cur = self.feed(cur, 'RecvLine', LINE, case)
            cur = [f for f, x in self.want(cur, 'line', case)]
            self.cut(cur, 'before the end of the last chunk')
            cur = self.feed(cur, 'RecvLine', END, case)
            cur = [f for f, x in self.want(cur, 'done', case)]
            for f in cur:
                if ('base',) in f[2]:
                    self.add('chunk', 'base', 'the size of a chunk is not read as a hexadecimal number')
            self.body(cur, sink, case, [data(z) for z in sizes], status=status)


class Requests(object):
    """drives the sender of requests"""

    def __init__(self, dr, r, where):
        self.dr, self.r, self.where = dr, r, where
        self.n = 0

    def add(self, rule, what, text_):
        self.r.add('%s|%s' % (rule, what), '%s %s: %s' % (self.where, rule, text_))

    def case(self, method, body, te, cl):
        what = '%s with %s' % (method, {'none': 'no body', 'text': 'a body', 'stream': 'a body read from a stream',
                                        'long': 'a body read from a stream that has more than announced',
                                        'short': 'a body read from a stream that ends early'}[body])
        if te:
            what += ', Transfer-Encoding %s' % te
        if cl is not None:
            what += ', Content-Length %s' % {'n': 'given', 'more': 'of more than the body has', 'less': 'of less than the body has'}[cl]
        self.n += 1
        self.dr.client(side='req', status=None, size=None, total=(0, ()))
        stream = body in ('stream', 'long', 'short')
        n = {'none': [], 'text': [data('a')], 'stream': [data('a'), data('b')], 'long': [data('a'), data('b'), data('c')], 'short': [data('a')]}[body]
        self.dr.ctx['total'] = length(n)
        announced = [data('a'), data('b')] if stream else n
        if cl == 'less':
            n, announced = [data('a'), data('b')], [data('a')]
        elif cl == 'more':
            announced = [data('a'), data('b')]
        h = {('req', 'method'): avk(method), ('req', 'reqBody'): av(NONE) if stream else av(text(n)),
             ('req', 'reqBodyStream'): av(('src',)) if stream else av(NONE), ('req', 'connection'): av(('conn',)), ('req', 'status'): avk(0)}
        fs = [f for f, v in self.dr.run('req', 'Reset', Facts.new(h, tuple(n) if stream else ()))[0]]
        fs = [Facts.put(f, ('req', '#te'), av(NONE) if te is None else avk(te)) for f in fs]
        fs = [Facts.put(f, ('req', '#cl'), av(NONE) if cl is None else av(num(*length(announced)))) for f in fs]
        for f in fs:
            ok, bad = self.dr.run('req', 'ReadRequestHeader', f)
            for g, x in bad:
                if cl not in ('more', 'less'):
                    self.add('raises', what, '%s cannot be sent' % what)
            for g, v in ok:
                hs = [e for e in g[2] if e[0] == 'headers']
                if not hs:
                    raise AnalysisBroken('the headers of a request are not listed')
                self.send(g, what, body, hs[-1][1], hs[-1][2], n)

    def send(self, f, what, body, te, cl, n):
        states = [(f, (), False)]
        final = []
        failed = 0
        for i in range(8):
            nxt = []
            for g, sent, over in states:
                ok, bad = self.dr.run('req', 'ReadRequestBody', g)
                failed += len(bad)
                if bad and body != 'short':
                    self.add('raises', what, 'sending %s fails' % what)
                for k, v in ok:
                    for a in v:
                        ps = pieces(a)
                        if ps is None:
                            ps = (('?', 0),)
                        if ps and over:
                            ps = ()
                        if not ps:
                            final.append((k, sent))
                        else:
                            nxt.append((k, sent + tuple(ps), False))
            states = list(set(nxt))
            if not states:
                break
        if states:
            self.add('stops', what, 'sending %s does not come to an end' % what)
        chunked = te != av(NONE) and te != avk('identity')
        for k, sent in final:
            got = pieces(text(sent))
            if chunked:
                if not unchunk(got, n):
                    self.add('chunks', what, 'of %s the chunks sent are %s, which is not the body in chunks and one last chunk' % (what, show(got)))
                continue
            total = length(got)
            if cl == av(NONE):
                if got:
                    self.add('length', what, '%s is sent with neither Transfer-Encoding nor Content-Length' % what)
                continue
            said = lin(next(iter(cl))) if len(cl) == 1 else None
            if said is None or said != total:
                self.add('length', what, 'of %s the octets sent are not as many as Content-Length says' % what)
            elif body != 'long' and text(sent) != text(n):
                self.add('length', what, 'of %s the octets sent are %s, not the body' % (what, show(got)))
            for e in k[2]:
                if e[0] == 'read' and body != 'short':
                    self.asked(e, said, what, k)
        if body == 'short' and not chunked and final:
            self.add('short', what, '%s: the request ends as if all that was announced had been sent' % what)

    def asked(self, e, said, what, f):
        if e[1] is None:
            self.add('read', what, 'of %s all there is is read, not as much as announced' % what)
            return
        left = plus(said, e[3], -1)
        d = plus(left, e[1], -1)
        if decide('GtE', d) is True:
            return
        # a limit of the size of a read: only when it is less than what is left
        for op, x in e[2]:
            neg = (-x[0], tuple((t, -c) for t, c in x[1]))
            if op in ('Gt', 'GtE', 'not LtE', 'not Lt') and x == d or op in ('Lt', 'LtE', 'not GtE', 'not Gt') and neg == d:
                return
        self.add('read', what, 'of %s more may be read than was announced' % what)


def unchunk(ps, n):
    """is this the body n in chunks (size, CRLF, data, CRLF), the last of size zero?"""
    ps = list(ps)
    body = []
    while ps:
        if ps[0] == ('l', '0\r\n\r\n') and len(ps) == 1:
            return text(body) == text(n)
        if ps[0][0] == 'l' and ps[0][1] == '':
            ps = ps[1:]
            continue
        if len(ps) < 4 or ps[0][0] != 'hex' or ps[1] != ('l', CRLF):
            return False
        want = ps[0][1]
        t = take(ps[2:], want)
        if t is None or length(t[0]) != want or any(p[0] != 'd' for p in t[0]):
            return False
        body.extend(t[0])
        rest = t[1]
        if not rest or rest[0][0] != 'l' or not rest[0][1].startswith(CRLF):
            return False
        ps = [('l', rest[0][1][2:])] + list(rest[1:]) if rest[0][1] != CRLF else list(rest[1:])
    return False


def analyse(prog, pid, tier):
    r = Result()
    m = prog.module(MOD)
    req, resp, base = prog.cls(MOD, 'HTTPRequest'), prog.cls(MOD, 'HTTPResponse'), prog.cls(MOD, 'HTTPMessage')
    dr = Driver(prog, m, req, resp, base)
    rs = Responses(dr, r, '%s:%d' % (m.rel, resp.node.lineno))
    for sink in (True, False):
        for status in (100, 101, 200, 201, 204, 206, 301, 304, 401, 404, 500):
            for method in ('GET', 'HEAD', 'POST'):
                for te in (None, 'identity', 'chunked'):
                    for cl in (None, 0, 'n'):
                        if tier == 'quick' and (method == 'POST' or status in (101, 201, 206, 401)) and not sink:
                            continue
                        rs.exchange(status, method, te, cl, sink)
    qs = Requests(dr, r, '%s:%d' % (m.rel, req.node.lineno))
    for method in ('GET', 'HEAD', 'DELETE', 'POST', 'PUT', 'OPTIONS'):
        for body in ('none', 'text', 'stream', 'long', 'short'):
            for te in (None, 'identity', 'chunked'):
                for cl in (None, 'n', 'more', 'less'):
                    if te == 'chunked' and cl is not None:
                        continue
                    if body in ('long', 'short') and (cl != 'n' or te == 'chunked') or cl in ('more', 'less') and body != 'text':
                        continue
                    qs.case(method, body, te, cl)
    r.floor('exchanges', rs.n, 300)
    r.floor('requests', qs.n, 60)
    r.floor('calls_interpreted', dr.steps, 2000)
    r.coverage['functions'] = len(dr.entered)
    r.files = [m.rel]
    r.rules = ['ends', 'body', 'end', 'status', 'cut', 'continue', 'chunk', 'chunks', 'length', 'read', 'short', 'stops', 'raises']
    r.samples = sorted(f.short for f in dr.entered)[:20]
    r.explanation = ('The reader of responses and the sender of requests were interpreted over abstract messages, for every kind of '
                     'status, method, Transfer-Encoding and Content-Length, with lengths as symbols; what is asked for, delivered and '
                     'sent was compared with the framing rules of RFC 2616.')
    return r
