"""C28: a tool launch is accepted only once it has been authenticated.

Follows the launch, the record of nonces and the table of consumers along every
path; any call may raise, so what a handler swallows counts as not done."""
from ..frontend import walk, link
from ..interp import Client, Interp, av, const as k, TOP, NONE, ANY, TRUE, FALSE, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

EMPTY = frozenset()
WINDOW = 5400


def tag(*n):
    return av(*[('tag', x) for x in n])


def tags(v):
    return set(a[1] for a in v if a[0] == 'tag')


class Base(Client):
    init_facts = EMPTY
    max_states = 300

    def __init__(self, r, cls):
        self.r, self.cls = r, cls
        self.seen = set()

    def relevant(self, ip, func):
        return func.cls is self.cls and func.name not in ('GenerateKey', 'lookup_consumer')

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (fr.func.qname, text), '%s:%d %s' % (fr.module.rel, getattr(node, 'lineno', fr.func.node.lineno), text))

    def truthiness(self, atom):
        return True if atom[0] == 'tag' else truth(atom)

    def fact(self, st, *f):
        return st.with_facts(st.facts | set(f))

    def own(self, fr, x, attr):
        return x.t == 'Attribute' and x.attr == attr and x.value.t == 'Name' and x.value.id == (fr.func.params or [None])[0]


class Launch(Base):
    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        args = list(args) + [kw[n] for n in sorted(kw)]
        if name in ('from_request', '_get_version', 'get_version', '_get_consumer', '_check_signature', 'verify_request'):
            self.seen.add(name)
            for x in self.opaque_raises(ip, fr, st, node, callee):
                ip.throw(fr, st, x, node)
        if name == 'from_request':
            return [(st, tag('request')), (st, av(NONE))]
        if name in ('_get_version', 'get_version') and args and 'request' in tags(args[0]):
            return [(self.fact(st, 'version'), TOP)]
        if name == '_get_consumer':
            return [(st, tag('consumer') if args and tags(args[0]) == set(['request']) else TOP)]
        if name == '_check_signature':
            if len(args) > 1 and tags(args[0]) == set(['request']) and tags(args[1]) == set(['consumer']):
                st = self.fact(st, 'signed')
            return [(st, TOP)]
        if name == 'verify_request' and args and tags(args[0]) == set(['request']):
            return [(self.fact(st, 'signed', 'version'), av(('tup', (tag('consumer'), TOP, TOP))))]
        return None


class Nonces(Base):
    """nonce is the parameter; the answer 'seen' only when an entry equals it, 'new' only once it is recorded"""

    def __init__(self, r, cls, trims):
        Base.__init__(self, r, cls)
        self.trims = trims

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def attr_load(self, ip, fr, st, node, base, p):
        return [(st, tag('record'))] if self.own(fr, node, 'nonces') else None

    def for_element(self, ip, fr, st, node, itv):
        if 'record' in tags(itv):
            return av(('tup', (tag('old nonce'), tag('time'))))
        return None

    def loop_head(self, ip, fr, st, node):
        return st.with_facts(st.facts - set(['expired', 'equal']))

    def binop(self, ip, fr, st, node, left, right):
        op = node.op if isinstance(node.op, str) else node.op.t
        if len(left) == len(right) == 1:
            (a,), (b,) = left, right
            if a[0] == b[0] == 'k' and all(isinstance(x[2], (int, float)) for x in (a, b)):
                if op == 'Mult':
                    return av(k(a[2] * b[2]))
        if op == 'Sub' and 'now' in tags(left):
            c = [a[2] for a in right if a[0] == 'k']
            return tag('limit') if c and len(right) == 1 and c[0] >= WINDOW else tag('wrong limit')
        return None

    def subscript_load(self, ip, fr, st, node, base, index):
        return None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            a, b = (tags(ip.ev(x, st, fr)[0][1]) for x in (test.left, test.comparators[0]))
            if op in ('Eq', 'NotEq') and (op == 'Eq') == sense and set(['old nonce', 'nonce']) <= a | b:
                return [self.fact(st, 'equal')]
            if op in ('Lt', 'LtE', 'Gt', 'GtE'):
                less = op in ('Lt', 'LtE')
                if 'limit' in a and 'time' in b:
                    a, b, less = b, a, not less
                if 'time' in a and 'limit' in b and less == sense:
                    return [self.fact(st, 'expired')]
        return None

    def stmt(self, ip, fr, st, node):
        if node.t == 'AugAssign' and node.target.t == 'Name' or node.t == 'Assign' and node.targets[0].t == 'Name':
            n = node.target.id if node.t == 'AugAssign' else node.targets[0].id
            if n in self.trims and not (node.t == 'Assign' and node.value.t == 'Num' and node.value.n == 0) and 'expired' not in st.facts:
                self.bad(node, fr, 'a nonce is dropped from the record though it was not found to be older than the limit')
        return st

    def attr_store(self, ip, fr, st, node, base, p, value):
        if node.attr == 'nonces' and value is not None and tags(value) != set(['rest']):
            self.bad(node, fr, 'the record of nonces is replaced by something other than its entries that are not too old')
        return st

    def comp(self, ip, fr, st, node, parts):
        g = node.generators[0]
        if len(node.generators) == 1 and 'record' in tags(ip.ev(g.iter, st, fr)[0][1]):
            ok = len(g.ifs) == 1 and g.ifs[0].t == 'Compare'
            if ok:
                c = g.ifs[0]
                op = c.ops[0] if isinstance(c.ops[0], str) else c.ops[0].t
                l = 'limit' in tags(ip.ev(c.left, st, fr)[0][1])
                rr = 'limit' in tags(ip.ev(c.comparators[0], st, fr)[0][1])
                ok = rr and op in ('Gt', 'GtE') or l and op in ('Lt', 'LtE')
            return [(st, tag('rest' if ok else 'some'))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'time':
            return [(st, tag('now'))]
        if f.t == 'Attribute':
            b = tags(ip.ev(f.value, st, fr)[0][1])
            if 'record' in b:
                self.seen.add(f.attr)
                if f.attr in ('append', 'insert'):
                    v = args[-1]
                    ok = any(a[0] == 'tup' and len(a[1]) == 2 and tags(a[1][0]) == set(['nonce']) and tags(a[1][1]) == set(['now']) for a in v)
                    if ok and f.attr == 'append':
                        return [(self.fact(st, 'recorded'), av(NONE))]
                    self.bad(node, fr, 'what is recorded is not the nonce with the current time, at the end')
                elif f.attr in ('pop', 'remove', 'sort', 'reverse') and 'expired' not in st.facts:
                    self.bad(node, fr, 'a nonce is dropped from the record though it was not found to be older than the limit')
        return None


class NonceSlices(Nonces):
    """reads self.nonces[n:] as the rest of the record"""

    def subscript_load(self, ip, fr, st, node, base, index):
        if 'record' in tags(base) and node.slice.t == 'Slice' and node.slice.upper is None and node.slice.lower is not None and \
                node.slice.lower.t == 'Name':
            return [(st, tag('rest'))]
        if 'record' in tags(base) and node.slice.t == 'Index':
            return [(st, av(('tup', (tag('old nonce'), tag('time')))))]
        return None


class Table(Base):
    """no consumer is replaced by another with its key; secrets are generated or come from the caller's file"""

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def attr_load(self, ip, fr, st, node, base, p):
        if self.own(fr, node, 'consumers'):
            return [(st, tag('table'))]
        return None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            if op in ('In', 'NotIn') and (op == 'NotIn') == sense and 'table' in tags(ip.ev(test.comparators[0], st, fr)[0][1]):
                return [self.fact(st, ('free', self.text(test.left)))]
        return None

    def text(self, x):
        if x.t == 'Name':
            return x.id
        if x.t == 'Subscript' and x.slice.t == 'Index' and x.slice.value.t == 'Num':
            return '%s[%s]' % (self.text(x.value), x.slice.value.n)
        return '?'

    def loop_head(self, ip, fr, st, node):
        return st.with_facts(EMPTY)

    def stmt(self, ip, fr, st, node):
        if node.t == 'Assign' and node.targets[0].t == 'Name' and node.value.t in ('Subscript', 'Name'):
            a, b = node.targets[0].id, self.text(node.value)
            keep = frozenset(x for x in st.facts if not x[1].startswith(a))
            if ('free', b) in st.facts:
                keep |= set([('free', a)])
            return st.with_facts(keep)
        return st

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if 'table' in tags(base):
            self.seen.add('store')
            ix = node.slice.value if node.slice.t == 'Index' else node.slice
            t = self.text(ix)
            if tags(index) != set(['generated']) and ('free', t) not in st.facts:
                # a parameter that is None is replaced by a generated one, so both may reach here
                self.bad(node, fr, 'a consumer is stored under a key not found to be unused')
        return st

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'GenerateKey':
            return [(st, tag('generated'))]
        if callee is not None and callee[0] == 'class' and getattr(callee[1], 'name', '') == 'BLTIConsumer':
            if len(args) > 1:
                if tags(args[1]) != set(['generated']) and fr.func.name != 'LoadFromFile' and not self.file(fr):
                    self.bad(node, fr, 'the secret of a consumer is not a newly generated one')
                self.seen.add('consumer')
        return None

    def file(self, fr):
        return any(n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in ('readlines', 'readline', 'split') for n in walk_own(fr.func.node))


def analyse(prog, pid, tier):
    r = Result()
    mods = [m for m in prog.modules.values() if m.name == 'pyslet.imsbltiv1p0']
    if not mods:
        raise AnalysisBroken('no module')
    mod = mods[0]
    link(mod.tree)
    cs = {}
    for f in prog.all_funcs:
        if f.module is mod and f.cls is not None:
            cs[f.cls.name] = f.cls
    prov, cons = cs.get('BLTIToolProvider'), cs.get('BLTIConsumer')
    if prov is None or cons is None:
        raise AnalysisBroken('no provider or consumer class')
    rel = mod.rel

    f = prov.find('Launch')
    cl = Launch(r, prov)
    out = Interp(prog, cl).run(f, cls=prov)
    ends = 0
    for s, v, node in out.ret:
        ends += 1
        if all(a == NONE for a in v):
            r.add('none', '%s:%d Launch can end without an answer and without an error' % (rel, getattr(node, 'lineno', f.node.lineno)))
            continue
        for x, what in (('version', 'the version of OAuth'), ('signed', 'the signature, with the consumer the request names,')):
            if x not in s.facts:
                r.add('launch|' + x, '%s:%d a launch can succeed without %s having been checked' % (rel, node.lineno, what))
        for a in v:
            if a[0] != 'tup' or not a[1] or tags(a[1][0]) != set(['consumer']):
                r.add('launch|consumer', '%s:%d a launch can succeed for something other than the consumer that signed it' % (rel, node.lineno))
    r.floor('launches', ends, 1)
    r.floor('checks_of_a_launch', len(cl.seen), 3)

    f = cons.find('CheckNonce')
    trims = set()
    for n in walk_own(f.node):
        if n.t == 'Slice' and n.lower is not None and n.lower.t == 'Name':
            trims.add(n.lower.id)
    cl = NonceSlices(r, cons, trims)
    out = Interp(prog, cl).run(f, cls=cons, env={f.params[1]: tag('nonce')})
    n = 0
    for s, v, node in out.ret:
        n += 1
        line = getattr(node, 'lineno', f.node.lineno)
        if any(cl.truthiness(a) is not False for a in v) and 'equal' not in s.facts:
            r.add('nonce|seen', '%s:%d a nonce is reported as used before though no entry of the record equals it' % (rel, line))
        if any(cl.truthiness(a) is not True for a in v) and 'recorded' not in s.facts:
            r.add('nonce|new', '%s:%d a nonce is reported as not used before without being recorded' % (rel, line))
        if any(cl.truthiness(a) is not True for a in v) and 'equal' in s.facts:
            r.add('nonce|again', '%s:%d a nonce found in the record is reported as not used before' % (rel, line))
    r.floor('answers_about_a_nonce', n, 2)

    f = prov.find('lookup_nonce')
    param = f.params[-1]

    class Look(Base):
        def opaque_raises(self, ip, fr, st, node, callee):
            return ()

        def call(self, ip, fr, st, node, callee, recv_path, args, kw):
            if node.func.t == 'Attribute' and node.func.attr == 'CheckNonce':
                if not (args and 'nonce' in tags(args[0])):
                    self.bad(node, fr, 'what is looked up is not the nonce of the request')
                return [(self.fact(st, 'used'), av(TRUE)), (self.fact(st, 'unused'), av(FALSE))]
            return None
    cl = Look(r, prov)
    for s, v, node in Interp(prog, cl).run(f, cls=prov, env={param: tag('nonce')}).ret:
        yes = any(cl.truthiness(a) is not False for a in v)
        no = any(cl.truthiness(a) is not True for a in v)
        if 'used' not in s.facts and 'unused' not in s.facts or no and 'used' in s.facts or yes and 'unused' in s.facts:
            r.add('lookup', '%s:%d the answer about a nonce is not that of the record' % (rel, getattr(node, 'lineno', f.node.lineno)))

    f = prov.find('lookup_consumer')

    class Key(Table):
        def subscript_load(self, ip, fr, st, node, base, index):
            return [(st, tag('one'))] if 'table' in tags(base) and 'key' in tags(index) else None

        def call(self, ip, fr, st, node, callee, recv_path, args, kw):
            g = node.func
            if g.t == 'Attribute' and g.attr == 'get' and 'table' in tags(ip.ev(g.value, st, fr)[0][1]) and args and \
                    tags(args[0]) == set(['key']) and (len(args) < 2 or args[1] == av(NONE)):
                return [(st, tag('one')), (st, av(NONE))]
            return None
    for s, v, node in Interp(prog, Key(r, prov)).run(f, cls=prov, env={f.params[1]: tag('key')}).ret:
        if not all(a == NONE or a == ('tag', 'one') for a in v):
            r.add('consumer', '%s:%d the consumer of a key is not looked up under that key alone' % (rel, getattr(node, 'lineno', f.node.lineno)))

    cl = Table(r, prov)
    for m in sorted(prov.methods.values(), key=lambda m: m.qname):
        if any(n.t == 'Attribute' and n.attr == 'consumers' for n in walk_own(m.node)) and m.name not in ('lookup_consumer',):
            Interp(prog, cl).run(m, cls=prov)
    r.floor('stores_of_consumers', len(cl.seen), 2)

    g = prov.find('GenerateKey')
    urandom = weak = 0
    for n in walk_own(g.node):
        if n.t == 'Call' and n.func.t == 'Attribute':
            if n.func.attr == 'urandom':
                urandom += 1
            elif n.func.value.t == 'Name' and n.func.value.id == 'random':
                x, ok = n, False
                while x is not None:
                    if x.t == 'ExceptHandler' and x.type is not None and x.type.t == 'Name' and x.type.id == 'NotImplementedError':
                        ok = True
                    x = getattr(x, 'up', None)
                if not ok:
                    r.add('weak', '%s:%d keys and secrets are made with a predictable generator though the system has a better one' % (rel, n.lineno))
    r.floor('random_sources', urandom, 1)
    r.files = [rel]
    r.rules = ['a launch succeeds only after the version and the signature, with the consumer named in the request, have been checked',
               'a nonce not seen before is recorded with the time; only entries older than 90 minutes are dropped',
               'a consumer is stored only under a generated or unused key, with a generated secret; keys come from the random source of the system']
    r.samples = ['%s: %s' % (rel, x) for x in ('Launch', 'CheckNonce', 'lookup_nonce', 'lookup_consumer', 'NewConsumer', 'LoadFromFile', 'GenerateKey')]
    r.explanation = 'The launch, the record of nonces and the table of consumers were followed along every path, errors swallowed by handlers included.'
    r.assumptions = ['The oauth package does what its names say; it checks the nonce as part of the signature.']
    return r
