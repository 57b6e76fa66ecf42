"""C19: data written in an XML document cannot become markup.

Two parts: what the writing methods put out (every piece of data passes through the
escape function in use, as a quoted value where it is one, and that function is
handed on); and what the escape functions themselves let through."""
import re
from ..frontend import walk, link
from ..interp import Client, Interp, av, const as k, TOP, NONE, ANY, TRUE, FALSE, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

EMPTY = frozenset()
CONT = ('GetCanonicalChildren', 'GetChildren')


def tag(*n):
    return av(*[('tag', x) for x in n])


def tags(v):
    return set(a[1] for a in v if a[0] == 'tag')


PAIR = ('tup', (tag('name'), tag('name')))      # a name with its namespace


def text_ok(v, also=()):
    """every atom is markup of the library's own making or escaped data"""
    ok = set(['name', 'ws', 'esc', 'text', 'attrtext']) | set(also)
    return bool(v) and all(a[0] == 'k' or a[0] == 'tag' and a[1] in ok or a == PAIR for a in v)


class Writing(Client):
    init_facts = EMPTY
    max_states = 200

    def __init__(self, prog, r, targets):
        self.prog, self.r, self.targets = prog, r, targets
        self.sinks = set()
        self.handed = set()

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def relevant(self, ip, func):
        # helpers that take the escape function or build output
        return func.name not in self.targets and func.module.name in ('pyslet.xml20081126.structures', 'pyslet.xmlnames20091208') \
            and not func.is_generator and (func in self.helpers)

    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (fr.func.qname, text), '%s:%d %s' % (fr.module.rel, getattr(node, 'lineno', fr.func.node.lineno), text))

    def truthiness(self, atom):
        return None if atom[0] == 'tag' else truth(atom)

    def attr_load(self, ip, fr, st, node, base, p):
        if node.attr in ('xmlname', 'name'):
            return [(st, tag('name'))]
        if node.attr in ('prefixToNS',):
            return [(st, tag('nsmap'))]
        return None

    def unpack(self, atom, n):
        return PAIR if atom == ('tag', 'name') and n == 2 else None

    def for_element(self, ip, fr, st, node, itv):
        t = tags(itv)
        if 'children' in t:
            return tag('child')
        if 'keys' in t:
            return tag('name') | av(PAIR)
        if 'items' in t:
            return av(('tup', (tag('name') | av(PAIR), TOP)))
        if 'output' in t:
            return tag('text')
        return None

    def list_display(self, ip, fr, st, node, values):
        if values and all(text_ok(v, ('attr',)) for v in values):
            return None
        return None

    def binop(self, ip, fr, st, node, left, right):
        op = node.op if isinstance(node.op, str) else node.op.t
        if op == 'Mod':
            fmt = [a for a in left if a[0] == 'k' and isinstance(a[2], str)]
            if len(fmt) == len(left) == 1:
                ops = None
                for a in right:
                    if a[0] == 'tup':
                        ops = list(a[1])
                if ops is None:
                    ops = [right]
                return self.join(fmt[0][2], ops)
        if op == 'Add':
            return self.join(None, [left, right])
        return None

    def join(self, fmt, ops):
        quoted = [o for o in ops if tags(o) & set(['quoted', 'attr'])]
        rest = [o for o in ops if o not in quoted]
        if quoted:
            if len(quoted) == 1 and tags(quoted[0]) <= set(['quoted', 'attr']) and len(tags(quoted[0])) == len(quoted[0]) and \
                    all(text_ok(o) and 'esc' not in tags(o) for o in rest) and (fmt is None or "'" not in fmt and '"' not in fmt):
                return tag('attr')
            return tag('raw')
        if all(text_ok(o) for o in ops):
            if fmt is None and all(o <= frozenset(x for x in o if x[0] == 'k') or tags(o) == set(['ws']) for o in ops):
                return tag('ws')
            return tag('name') if all(not (tags(o) - set(['name'])) for o in ops) and (fmt is None or '<' not in fmt) else tag('text')
        return tag('raw')

    def escape(self, ip, fr, st, node):
        return node.func.t == 'Name' and 'E' in tags(ip.ev(node.func, st, fr)[0][1])

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if self.escape(ip, fr, st, node):
            q = args[1] if len(args) > 1 else kw.get('quote', av(FALSE))
            self.sinks.add((fr.func.qname, node.lineno))
            if all(truth(a) is True for a in q):
                return [(st, tag('quoted'))]
            return [(st, tag('esc') if all(truth(a) is False for a in q) else tag('raw'))]
        if name == 'EscapeCDSect':
            return [(st, tag('text'))]
        if name in ('EscapeCharData', 'EscapeCharData7'):
            if any(p == 'escapeFunction' for p in fr.func.params):
                self.bad(node, fr, 'data is escaped by %s whatever the escape function in use' % name)
            return [(st, tag('quoted') if len(args) > 1 else tag('esc'))]
        # handing on
        if name in self.targets or any(h.name == name and 'escapeFunction' in h.params for h in self.helpers):
            pos = self.targets.get(name)
            if pos is None:
                pos = [h.params.index('escapeFunction') - 1 for h in self.helpers if h.name == name][0]
            v = kw.get('escapeFunction', args[pos] if len(args) > pos else None)
            self.handed.add((fr.func.qname, node.lineno))
            if 'escapeFunction' in fr.func.params or self.inherits(ip, st, fr):
                if v is None or tags(v) != set(['E']):
                    self.bad(node, fr, 'the escape function in use is not handed on to %s' % name)
            elif fr.func.name == '__str__':
                if v is None or not any(a[0] == 'func' and a[1].name == 'EscapeCharData7' for a in v):
                    self.bad(node, fr, 'a byte string is made without escaping characters that are not ASCII')
            if name in self.targets:
                if name == 'GenerateXML':
                    return [(st, tag('output'))]
                return [(st, av(NONE))]
        if f.t == 'Attribute':
            b = ip.ev(f.value, st, fr)[0][1]
            t = tags(b)
            if name in CONT:
                return [(st, tag('children'))]
            if name == 'next' and 'children' in t:
                return [(st, tag('child'))]
            if name in ('GetAttributes', 'GetPrefixMap'):
                return [(st, tag('nsmap'))]
            if name in ('keys', 'iterkeys') and 'nsmap' in t:
                return [(st, tag('keys'))]
            if name in ('items', 'iteritems') and 'nsmap' in t:
                return [(st, tag('items'))]
            if name in ('GetPrefix', 'MakePrefix'):
                return [(st, tag('name')), (st, av(NONE))] if name == 'GetPrefix' else [(st, tag('name'))]
            if name in ('append', 'insert', 'extend') and (t & set(['attrs', 'list'])):
                v = args[-1]
                if name == 'extend':
                    ok = tags(v) <= set(['attrs', 'list']) and tags(v)
                else:
                    ok = bool(v) and all(a[0] == 'k' or a == ('tag', 'attr') for a in v)
                if not ok:
                    self.bad(node, fr, 'an attribute is written whose value has not been escaped and quoted')
                return [(st, av(NONE))]
            if name == 'join':
                if f.value.t == 'Name' and f.value.id == 'string':
                    x = args[0] if args else TOP
                else:
                    x = args[0] if args else TOP
                if tags(x) & set(['attrs', 'list']) and tags(x) <= set(['attrs', 'list']):
                    return [(st, tag('attrtext'))]
        if name in ('sorted', 'list', 'iter', 'tuple', 'reversed') and args and f.t == 'Name' and tags(args[0]):
            t = tags(args[0])
            return [(st, tag('keys') if t == set(['nsmap']) else frozenset(('tag', x) for x in t))]
        if name in ('unicode', 'str') and args and f.t == 'Name':
            return [(st, args[0])]
        return None

    def inherits(self, ip, st, fr):
        return any('E' in tags(v) for p, v in st.env.items() if '.' not in p)

    def comp(self, ip, fr, st, node, parts):
        return [(st, tag('list') if self.comp_ok(ip, fr, st, node) else tag('raw'))]

    def comp_ok(self, ip, fr, st, node):
        s = st
        for g in node.generators:
            v = ip.ev(g.iter, s, fr)[0][1]
            el = self.for_element(ip, fr, s, g, v)
            r = ip.assign(g.target, el if el is not None else TOP, s, fr)
            s = r[0] if r else s
        return all(tags(v) == set(['attr']) for _, v in ip.ev(node.elt, s, fr))

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if tags(base) & set(['attrs', 'list']):
            if value is not None and not tags(value) <= set(['attrs', 'list', 'attr']) and not (
                    value and all(a[0] == 'tup' for a in value)):
                self.bad(node, fr, 'an attribute is written whose value has not been escaped and quoted')
        return st

    def on_yield(self, ip, fr, st, node, value):
        self.sinks.add((fr.func.qname, node.lineno))
        if not text_ok(value):
            self.bad(node, fr, 'something is written that is neither markup nor has passed the escape function in use')
        return st


class Lists(Writing):
    """a list display starts a list of attributes"""

    def list_display(self, ip, fr, st, node, values):
        if all(text_ok(v, ('attr',)) and not tags(v) & set(['esc', 'quoted']) for v in values):
            return tag('list')
        return None


REF = re.compile(r'&(?:#x([0-9A-Fa-f]+)|#([0-9]+)|(amp|lt|gt|quot|apos));')


def decode(s):
    """the characters an escaped piece stands for, or None if it has a bare < or &"""
    out = REF.sub(lambda m: chr(int(m.group(1), 16)) if m.group(1) else chr(int(m.group(2))) if m.group(2) else
                  {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}[m.group(3)], s)
    rest = REF.sub('', s)
    return None if '<' in rest or '&' in rest else out


class Escaper(Client):
    """one escape function: what it lets through, by character, and what is known of the quotes

    facts: ('raw', X) the result may hold X as such; ('none', X) the source has no X;
    ('cnt', name, X) a counter counts X; ('unc', X) X may have been let through uncounted"""
    init_facts = EMPTY
    max_states = 600
    CHARS = ('&', '<', '>', '\r', '"', "'", 'a')

    def __init__(self, r, f, quoting, seven):
        self.r, self.f, self.quoting, self.seven = r, f, quoting, seven
        self.pieces = set()

    def relevant(self, ip, func):
        return func.module is self.f.module and func is not self.f and func.cls is None

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def truthiness(self, atom):
        return None if atom[0] == 'tag' else truth(atom)

    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (self.f.qname, text), '%s:%d %s: %s' % (fr.module.rel, getattr(node, 'lineno', 0), self.f.name, text))

    def fact(self, st, *f):
        return st.with_facts(st.facts | set(f))

    def for_element(self, ip, fr, st, node, itv):
        t = tags(itv)
        if 'src' in t:
            return av(*[('k', 'str', c) for c in self.CHARS] + ([('tag', 'wide')] if self.seven else []))
        if 'length' in t:
            return tag('index')
        if 'data' in t:
            return tag('piece')
        return None

    def over_src(self, ip, fr, st, node):
        return node.t == 'For' and 'src' in tags(ip.ev(node.iter, st, fr)[0][1])

    def loop_head(self, ip, fr, st, node):
        if self.over_src(ip, fr, st, node):
            return st.with_facts(self.settle(st.facts))
        # for i in xrange(len(data)): if data[i] == X: data[i] = Y
        if node.t == 'For' and len(node.body) == 1 and node.body[0].t == 'If' and not node.body[0].orelse:
            c, b = node.body[0].test, node.body[0].body
            if c.t == 'Compare' and len(c.ops) == 1 and len(b) == 1 and b[0].t == 'Assign' and b[0].targets[0].t == 'Subscript' and b[0].value.t == 'Str':
                op = c.ops[0] if isinstance(c.ops[0], str) else c.ops[0].t
                x = c.comparators[0]
                if op == 'Eq' and c.left.t == 'Subscript' and x.t == 'Str' and 'length' in tags(ip.ev(node.iter, st, fr)[0][1]):
                    return self.replaced(st, node, fr, x.s, b[0].value.s)
        return st

    def replaced(self, st, node, fr, x, y):
        self.pieces.add((x, y))
        if decode(y) != x:
            self.bad(node, fr, '%r is written in place of %r' % (y, x))
        return st.with_facts(frozenset(f for f in st.facts if f != ('raw', x) and f != ('unc', x)))

    def settle(self, facts):
        unc = set(('unc', f[1]) for f in facts if f[0] == 'put' and ('now', f[1]) not in facts)
        return frozenset(f for f in facts if f[0] not in ('put', 'now')) | unc

    def loop_back(self, ip, fr, st, node):
        return st.with_facts(self.settle(st.facts)) if self.over_src(ip, fr, st, node) else st

    def stmt(self, ip, fr, st, node):
        if node.t == 'AugAssign' and node.target.t == 'Name' and node.value.t == 'Num' and node.value.n == 1:
            for v in st.env.values():
                pass
            x = self.current(ip, fr, st, node)
            if x is not None:
                return self.fact(st, ('cnt', node.target.id, x), ('now', x))
        return st

    def current(self, ip, fr, st, node):
        """the one character the innermost loop over the source is at"""
        n = node
        while n is not None:
            if n.t == 'For' and n.target.t == 'Name' and self.over_src(ip, fr, st, n):
                v = st.env.get(n.target.id)
                if v is not None and len(v) == 1:
                    a = next(iter(v))
                    return a[2] if a[0] == 'k' else 'wide' if a == ('tag', 'wide') else None
                return None
            n = getattr(n, 'up', None)
        return None

    def in_loop(self, ip, fr, st, node):
        n = getattr(node, 'up', None)
        while n is not None:
            if self.over_src(ip, fr, st, n):
                return n
            n = getattr(n, 'up', None)
        return None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Name' and not sense:
            return self.none_counted(st, test.id)
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            a, b = test.left, test.comparators[0]
            if op in ('In', 'NotIn') and a.t == 'Str' and (op == 'NotIn') == sense and 'src' in tags(ip.ev(b, st, fr)[0][1]):
                return [self.fact(st, ('none', a.s))]
            if a.t == 'Name' and b.t == 'Num' and b.n == 0 and any(f[0] == 'cnt' and f[1] == a.id for f in st.facts):
                if op == 'Eq' and sense or op in ('NotEq', 'Gt') and not sense:
                    return self.none_counted(st, a.id)
            if a.t == 'Call' and a.func.t == 'Name' and a.func.id == 'ord' and len(a.args) == 1 and a.args[0].t == 'Name' and b.t == 'Num':
                v = ip.ev(a.args[0], st, fr)[0][1]
                big = (op in ('Gt', 'GtE') and sense) or (op in ('Lt', 'LtE') and not sense)
                edge = {'Gt': 0x7f, 'LtE': 0x7f, 'GtE': 0x80, 'Lt': 0x80}.get(op)
                if edge is not None:
                    if big:
                        w = frozenset(x for x in v if x == ('tag', 'wide'))
                    elif b.n <= edge:
                        w = frozenset(x for x in v if x != ('tag', 'wide'))
                    else:
                        w = v
                    return [st.set(a.args[0].id, w)] if w else []
        return None

    def none_counted(self, st, name):
        xs = [f[2] for f in st.facts if f[0] == 'cnt' and f[1] == name]
        if not xs:
            return None
        return [st.with_facts(frozenset(f for f in st.facts if not (f[0] == 'raw' and f[1] in xs and ('unc', f[1]) not in st.facts)))]

    def put(self, ip, fr, st, node, v):
        """v becomes a part of the result: of the data inside the loop over the source, a delimiter outside it"""
        loop = self.in_loop(ip, fr, st, node) if fr.func is self.f or True else None
        if loop is None:
            return self.delimit(st, node, fr, v)
        cur = self.current(ip, fr, st, node)
        for a in v:
            if a == ('tag', 'charref'):
                continue
            if a == ('tag', 'wide'):
                self.bad(node, fr, 'a character that is not ASCII is let through')
            elif a[0] == 'k' and isinstance(a[2], str):
                d = decode(a[2])
                self.pieces.add((cur, a[2]))
                if d is None:
                    self.bad(node, fr, '%r is let through' % a[2])
                elif cur is not None and d != cur:
                    self.bad(node, fr, '%r is written in place of %r' % (a[2], cur))
                elif a[2] == '\r':
                    self.bad(node, fr, 'a carriage return is let through, and would be read as the end of a line')
                for x in '"\'':
                    if a[2] == x and ('none', x) not in st.facts:
                        st = self.fact(st, ('raw', x), ('put', x))
            else:
                self.bad(node, fr, 'something is written that is neither the character nor an escape for it')
        return st

    def delimit(self, st, node, fr, v):
        for a in v:
            if a[0] == 'k' and isinstance(a[2], str):
                if a[2] in ('"', "'"):
                    if ('raw', a[2]) in st.facts:
                        self.bad(node, fr, 'a value that may hold %s is delimited by it' % a[2])
                    st = self.fact(st, ('delimited', a[2]))
                elif decode(a[2]) != a[2]:
                    self.bad(node, fr, '%r is added to the result' % a[2])
            elif a == NONE:
                self.bad(node, fr, 'the delimiter of a value may be missing')
        return st

    def list_display(self, ip, fr, st, node, values):
        if not values:
            return tag('data')
        if len(values) == 1 and all(a[0] == 'k' for a in values[0]):
            return frozenset(('tag', ('lit', a[2])) for a in values[0])
        return tag('data')

    def subscript_load(self, ip, fr, st, node, base, index):
        return [(st, tag('piece'))] if 'data' in tags(base) else None

    def binop(self, ip, fr, st, node, left, right):
        op = node.op if isinstance(node.op, str) else node.op.t
        if op == 'Mod' and all(a[0] == 'k' and re.match(r'^&#x%0?[0-9]*[xX];$|^&#%[di];$', str(a[2])) for a in left):
            return tag('charref')
        if op == 'Add':
            if 'data' in tags(left) or 'data' in tags(right):
                return tag('data')
            lits = [a[1][1] for v in (left, right) for a in v if a[0] == 'tag' and isinstance(a[1], tuple)]
            if lits:
                return tag('data')
        return None

    def delimiters(self, ip, fr, st, node):
        """[Q] + data + [Q], or Q + text + Q"""
        for n in walk(node):
            if n.t == 'BinOp' and (n.op if isinstance(n.op, str) else n.op.t) == 'Add':
                for side in (n.left, n.right):
                    x = side.elts[0] if side.t == 'List' and len(side.elts) == 1 else side
                    if x.t in ('Str', 'Name'):
                        v = ip.ev(x, st, fr)[0][1]
                        if v and all(a[0] == 'k' and a[2] in ('"', "'") for a in v):
                            st = self.delimit(st, node, fr, v)
        return st

    def comp(self, ip, fr, st, node, parts):
        g = node.generators[0]
        e = node.elt
        if len(node.generators) == 1 and not g.ifs and 'data' in tags(ip.ev(g.iter, st, fr)[0][1]) and e.t == 'IfExp' and e.test.t == 'Compare' \
                and e.body.t == 'Str' and e.test.comparators[0].t == 'Str':
            return [(self.replaced(st, node, fr, e.test.comparators[0].s, e.body.s), tag('data'))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        if f.t == 'Name' and name in ('len', 'xrange', 'range') and args:
            return [(st, tag('length'))] if tags(args[-1]) & set(['data', 'length']) else None
        if f.t == 'Name' and name in ('unicode', 'str', 'list') and args:
            return [(st, args[0])]
        if f.t == 'Name' and name == 'ord':
            return [(st, TOP)]
        if f.t == 'Attribute':
            b = ip.ev(f.value, st, fr)[0][1]
            if name == 'count' and 'src' in tags(b) and args:
                return None
            if name in ('append', 'insert') and tags(b) & set(['data']):
                return [(self.put(ip, fr, st, node, args[-1]), av(NONE))]
            if name == 'extend' and 'data' in tags(b):
                return [(self.put(ip, fr, st, node, args[-1]), av(NONE))]
            if name == 'join':
                return [(st, tag('data'))]
            if name == 'replace' and len(args) == 2 and 'data' in tags(b):
                x, y = (next(iter(a)) for a in args)
                if x[0] == y[0] == 'k':
                    return [(self.replaced(st, node, fr, x[2], y[2]), tag('data'))]
        return None


class Wrapped(Escaper):
    def stmt(self, ip, fr, st, node):
        if node.t in ('Assign', 'Return') and node.value is not None:
            st = self.delimiters(ip, fr, st, node.value)
        return Escaper.stmt(self, ip, fr, st, node)


class Section(Client):
    """a CDATA section: the source only in pieces that cannot hold the end of the section"""
    init_facts = EMPTY

    def __init__(self, r, f):
        self.r, self.f, self.splits = r, f, 0

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def relevant(self, ip, func):
        return False

    def truthiness(self, atom):
        return None if atom[0] == 'tag' else truth(atom)

    def for_element(self, ip, fr, st, node, itv):
        return tag('part') if 'parts' in tags(itv) else tag('src') if 'src' in tags(itv) else None

    def subscript_load(self, ip, fr, st, node, base, index):
        t = tags(base)
        if 'parts' in t:
            return [(st, tag('parts' if node.slice.t == 'Slice' else 'part'))]
        if 'src' in t:
            return [(st, tag('src'))]
        return None

    def list_display(self, ip, fr, st, node, values):
        for v in values:
            self.put(node, fr, v)
        return tag('out')

    def put(self, node, fr, v):
        if tags(v) & set(['src']):
            self.r.add('cdata|src', '%s:%d %s writes its data without dividing it where it holds the end of the section' % (fr.module.rel, node.lineno, self.f.name))

    def binop(self, ip, fr, st, node, left, right):
        self.put(node, fr, left)
        self.put(node, fr, right)
        if right and any(a[0] == 'tup' for a in right):
            for a in right:
                if a[0] == 'tup':
                    for v in a[1]:
                        self.put(node, fr, v)
        return tag('out')

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t != 'Attribute':
            return None
        b = tags(ip.ev(f.value, st, fr)[0][1])
        if f.attr in ('split', 'replace') and 'src' in b and args and args[0] == av(k(']]>')):
            self.splits += 1
            return [(st, tag('parts' if f.attr == 'split' else 'part'))]
        if 'src' in b and f.attr not in ('find', 'index', 'count', 'startswith', 'endswith'):
            return [(st, tag('src'))]
        if f.attr in ('append', 'insert', 'extend'):
            self.put(node, fr, args[-1])
            return [(st, av(NONE))]
        if f.attr == 'join':
            return [(st, tag('out'))]
        return None


def analyse_escapes(prog, r):
    mods = [m for m in prog.modules.values() if m.name == 'pyslet.xml20081126.structures']
    pieces = {}
    found = [f for f in prog.all_funcs if f.module in mods and f.cls is None and 'quote' in f.params and f.name.startswith('Escape')]
    for f in sorted(found, key=lambda f: f.qname):
        seven = '7' in f.name
        for quote in (False, True):
            cl = Wrapped(r, f, quote, seven)
            out = Interp(prog, cl).run(f, env={f.params[0]: tag('src'), 'quote': av(TRUE if quote else FALSE)})
            for s, v, node in out.ret:
                if not v or tags(v) != set(['data']):
                    r.add('ret|' + f.name, '%s:%d %s returns something other than the escaped data' % (f.module.rel, node.lineno, f.name))
                d = [x for x in s.facts if x[0] == 'delimited']
                if quote and len(d) != 1:
                    r.add('quote|' + f.name, '%s:%d %s can return a value without its delimiters, or with two different ones' % (f.module.rel, node.lineno, f.name))
                if not quote and d:
                    r.add('noquote|' + f.name, '%s:%d %s can return data in quotes where none were asked for' % (f.module.rel, node.lineno, f.name))
            pieces.setdefault(f.name, set()).update(cl.pieces)
    r.floor('escape_functions', len(found), 2)
    r.floor('characters_judged', min([len(set(c for c, _ in p if c)) for p in pieces.values()] or [0]), 5)
    for f in prog.all_funcs:
        if f.module in mods and f.cls is None and f.name == 'EscapeCDSect':
            cl = Section(r, f)
            out = Interp(prog, cl).run(f, env={f.params[0]: tag('src')})
            for s, v, node in out.ret:
                if tags(v) & set(['src']):
                    r.add('cdata|src', '%s:%d %s returns its data as it is' % (f.module.rel, node.lineno, f.name))
            for n in walk_own(f.node):
                if n.t == 'Str' and 'CDATA' in n.s and getattr(n, 'up', None) is not None and n.up.t != 'Expr':
                    if '<!' in n.s and '<![CDATA[' not in n.s:
                        r.add('cdata|open', '%s:%d EscapeCDSect opens a section with %r, which is not XML' % (f.module.rel, n.lineno, n.s))
            r.floor('sections_divided', cl.splits, 1)


def analyse_writers(prog, r):
    mods = [m for m in prog.modules.values() if m.name in ('pyslet.xml20081126.structures', 'pyslet.xmlnames20091208')]
    funcs = [f for f in prog.all_funcs if f.cls is not None and not f.module.name.startswith('legacy') and
             ('escapeFunction' in f.params or f.name in ('__str__', '__unicode__') and f.module in mods)]
    targets = {}
    for f in funcs:
        if 'escapeFunction' in f.params and f.name in ('GenerateXML', 'WriteXML', 'WriteXMLAttributes', 'WriteNSAttributes'):
            targets.setdefault(f.name, f.params.index('escapeFunction') - 1)
    helpers = set(f for f in prog.all_funcs if f.module in mods and f.name not in targets and
                  ('escapeFunction' in f.params or any(n.t == 'Name' and n.id in ('escapeFunction', 'escape') for n in walk_own(f.node)))
                  and f.name not in ('__str__', '__unicode__'))
    n = 0
    sinks, handed = set(), set()
    for f in sorted(funcs, key=lambda f: f.qname):
        if f in helpers:
            continue
        link(f.module.tree)
        cl = Lists(prog, r, targets)
        cl.helpers = helpers
        env = {}
        for p in f.params[1:]:
            env[p] = {'escapeFunction': tag('E'), 'indent': tag('ws'), 'tab': tag('ws'), 'attributes': tag('attrs')}.get(p, TOP)
        Interp(prog, cl).run(f, cls=f.cls, env=env)
        sinks |= cl.sinks
        handed |= cl.handed
        n += 1
    r.floor('writing_methods', n, 6)
    r.floor('pieces_written', len(sinks), 12)
    r.floor('escape_functions_handed_on', len(handed), 8)
    r.samples = ['%s:%d' % s for s in sorted(sinks)][:12]
    r.files = sorted(m.rel for m in mods)
    return mods


def analyse(prog, pid, tier):
    r = Result()
    analyse_writers(prog, r)
    analyse_escapes(prog, r)
    r.rules = ['what a writing method puts out is a name, white space, a literal or data that passed the escape function in use; attribute values are quoted by it',
               'the escape function in use is handed on to every writing method; byte strings are made with the one that leaves only ASCII',
               'an escape function writes for each character the character or a reference to it, never < or & as such, and delimits a value only with a quote it cannot hold']
    r.explanation = 'Every method that writes XML, and each escape function for each kind of character with and without quoting, was followed along every path.'
    r.assumptions = ['Element and attribute names, and prefixes, are names: they are not escaped.']
    return r
