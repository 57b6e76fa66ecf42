"""C24: requests of one connection are started and answered in order.

An abstract machine over the fields of the connection: which element of the
request queue is being taken, whether a response is outstanding, whether the
method of the request is known to be idempotent, and what happens to the
response queue.  Every path of the public operations of the connection is
followed."""
from ..frontend import walk, link
from ..interp import Client, Interp, State, av, TOP, NONE, TRUE, FALSE, TRUTHY, truth, const
from ..model import AnalysisBroken, dotted
from ..result import Result

SAFE = frozenset(['GET', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'TRACE'])
REQ, METHOD, QUEUE, TAIL, OTHERREQ = ('o', 'req'), ('o', 'method'), ('o', 'queue'), ('o', 'tail'), ('o', 'otherreq')
RQ0, RQ1, RHEAD, RTAIL = ('o', 'rqueue', False), ('o', 'rqueue', True), ('o', 'rhead'), ('o', 'rtail')
RESP = ('o', 'resp')
NEWRESP = ('o', 'newresp')


class Pipeline(Client):
    """facts: (taken-started, idempotent, responses owed, responses promoted-removed)"""
    max_states = 64
    init_facts = (0, False, 0, 0)

    def __init__(self, prog, cls):
        self.prog, self.conn = prog, cls
        self.mod = cls.module
        self.resp = prog.cls(self.mod.name, 'HTTPResponse')
        self.starts = self.takes = self.attaches = self.promotes = 0
        self.tables = 0

    def relevant(self, ip, func):
        return func.cls is not None and func.cls in (self.conn.mro + self.conn.all_subclasses()) and func.name != '__init__'

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def is_conn(self, base):
        return any(a[0] == 'inst' and a[1] in self.family for a in base)

    @property
    def family(self):
        return self.conn.all_subclasses()

    # -------------------------------------------------------- state keys
    def key_extra(self, st, fr):
        out = []
        for k, v in st.env.items():
            if k.endswith('.response') or k.endswith('.responseQueue'):
                out.append((k, v))
        return tuple(sorted(out, key=repr))

    def truthiness(self, a):
        if a in (RQ0,):
            return False
        if a[0] == 'o' and a[1] in ('queue', 'tail', 'rtail'):
            return None
        return truth(a)

    # -------------------------------------------------------- loads
    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr == 'method' and REQ in base and base <= frozenset([REQ]):
            return [(st, av(METHOD))]
        if not self.is_conn(base):
            return None
        if node.attr == 'requestQueue':
            return [(st, av(QUEUE))]
        if node.attr == 'responseQueue':
            return self.fork(st, path, RQ0, RQ1)
        if node.attr == 'response':
            return self.fork(st, path, NONE, RESP)
        return None

    def fork(self, st, path, a, b):
        if path is None or path in st.env:
            v = st.env.get(path, frozenset([a, b])) if path else frozenset([a, b])
            if len(v & frozenset([a, b])) < 2 or path is None:
                return [(st, v)]
        out = []
        for x in (a, b):
            env = dict(st.env)
            env[path] = av(x)
            out.append((State(st.facts, env), av(x)))
        return out

    def subscript_load(self, ip, fr, st, node, base, index):
        c = ip.single_const(index) if node.slice.t == 'Index' else None
        if QUEUE in base:
            if c is not None and c[2] == 0:
                return [(st, av(REQ))]
            if c is not None:
                return [(st, av(OTHERREQ))]
            if tail_slice(node.slice):
                return [(st, av(TAIL))]
            return None
        if RQ0 in base or RQ1 in base:
            if c is not None and c[2] == 0:
                return [(st, av(RHEAD))]
            if tail_slice(node.slice):
                return [(st, av(RTAIL))]
            return None
        t = [a for a in base if a[0] == 'o' and a[1] == 'table']
        if t and METHOD in index:
            return self.table(st, t[0], None)
        return None

    # -------------------------------------------------------- stores
    def attr_store(self, ip, fr, st, node, base, path, value):
        if not self.is_conn(base):
            return st
        d, idem, owed, prom = st.facts
        if node.attr == 'requestQueue':
            if TAIL in value:
                self.takes += 1
                return State((min(d + 1, 2), idem, owed, prom), st.env)
            return st
        if node.attr == 'request':
            if OTHERREQ in value:
                ip.report(fr, node, 'order', 'a request that is not the oldest one queued is started', key='oldest')
            if REQ in value:
                return self.start(ip, fr, st, node, path)
            return st
        if node.attr == 'responseQueue':
            if RTAIL in value:
                return self.settle(st, prom - 1, path)
            return st
        if node.attr == 'response':
            return self.respond(ip, fr, st, node, path, value)
        return st

    def start(self, ip, fr, st, node, path):
        d, idem, owed, prom = st.facts
        self.starts += 1
        resp = st.env.get(path.rpartition('.')[0] + '.response', frozenset([NONE, RESP])) if path else TOP
        if not idem and resp != av(NONE):
            ip.report(fr, node, 'pipeline', 'a request whose method is not known to be idempotent is started while a '
                                            'response may still be outstanding', key='pipeline')
        if d < 0:
            ip.report(fr, node, 'once', 'a request is started again before it is removed from the queue', key='again')
        if owed:
            ip.report(fr, node, 'owed', 'a request is started before the previous one has its response registered', key='owed')
        return State((max(d - 1, -2), False, 1, prom), st.env)

    def respond(self, ip, fr, st, node, path, value):
        d, idem, owed, prom = st.facts
        old = st.env.get(path, frozenset([NONE, RESP]))
        q = st.env.get(path.rpartition('.')[0] + '.responseQueue', frozenset([RQ0, RQ1])) if path else frozenset([RQ0, RQ1])
        if NEWRESP in value:
            self.attaches += 1
            if old != av(NONE):
                ip.report(fr, node, 'response', 'the response of a new request replaces one still outstanding', key='replace')
            return State((d, idem, owed - 1, prom), st.env)
        if RHEAD in value:
            self.promotes += 1
            return State((d, idem, owed, prom + 1), st.env)
        if value == av(NONE):
            if RQ1 in q:
                ip.report(fr, node, 'response', 'no response is current although more are expected', key='dropped')
            return st
        return st

    def settle(self, st, prom, path):
        env = dict(st.env)
        if path:
            env[path] = frozenset([RQ0, RQ1])
        d, idem, owed, _ = st.facts
        return State((d, idem, owed, max(min(prom, 2), -2)), env)

    def assign_norm(self, v):
        return v

    def subscript_store(self, ip, fr, st, node, base, index, value):
        d, idem, owed, prom = st.facts
        if value is not None:
            if QUEUE in base or RQ0 in base or RQ1 in base:
                if not isempty(value) and (REQ in value or NEWRESP in value):
                    ip.report(fr, node, 'order', 'an element is put into a queue other than at its end', key='store')
            return st
        head = ip.single_const(index) is not None and ip.single_const(index)[2] == 0 if node.slice.t == 'Index' else head_slice(node.slice)
        if QUEUE in base:
            self.takes += 1
            if not head:
                ip.report(fr, node, 'order', 'a request other than the oldest is removed from the queue', key='remove')
            return State((min(d + 1, 2), idem, owed, prom), st.env)
        if RQ0 in base or RQ1 in base:
            if not head:
                ip.report(fr, node, 'order', 'a response other than the oldest is removed from the queue', key='remove')
            return self.settle(st, prom - 1, ip.path(node.value))
        return st

    # -------------------------------------------------------- calls
    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        d, idem, owed, prom = st.facts
        if callee is not None and callee[0] == 'class' and callee[1] is self.resp:
            return [(st, av(NEWRESP))]
        if f.t != 'Attribute':
            return None
        if f.attr == 'get' and args and METHOD in args[0]:
            tab = self.class_table(ip, fr, st, f.value)
            if tab is not None:
                return self.table(st, tab, args[1] if len(args) > 1 else av(NONE))
            return None
        if f.attr in ('upper', 'strip') and not args:
            for s, b in ip.ev(f.value, st, fr):
                if METHOD in b:
                    return [(st, av(METHOD))]
            return None
        if f.attr in ('pop', 'append', 'insert', 'extend', 'remove'):
            for s, b in ip.ev(f.value, st, fr):
                if QUEUE in b:
                    if f.attr == 'pop':
                        c = ip.single_const(args[0]) if args else None
                        first = c is not None and c[2] == 0
                        self.takes += 1
                        return [(State((min(d + 1, 2), idem, owed, prom), s.env), av(REQ if first else OTHERREQ))]
                    if f.attr == 'append':
                        return [(s, av(NONE))]
                    ip.report(fr, node, 'order', 'the request queue is changed other than at its ends (%s)' % f.attr, key=f.attr)
                    return [(s, TOP)]
                if RQ0 in b or RQ1 in b:
                    p = recv_path if recv_path and recv_path.endswith('.responseQueue') else None
                    if f.attr == 'pop':
                        c = ip.single_const(args[0]) if args else None
                        if c is None or c[2] != 0:
                            ip.report(fr, node, 'order', 'a response other than the oldest is taken from the queue', key='pop')
                        s = self.settle(s, prom - 1, p)
                        self.promotes += 1
                        return [(s, av(RHEAD))]
                    if f.attr == 'append' and NEWRESP in args[0]:
                        self.attaches += 1
                        cur = s.env.get((p or '').rpartition('.')[0] + '.response', frozenset([NONE, RESP]))
                        if NONE in cur:
                            ip.report(fr, node, 'response', 'a response is queued although none is current: it never becomes current', key='queued')
                        env = dict(s.env)
                        if p:
                            env[p] = av(RQ1)
                        return [(State((d, idem, owed - 1, prom), env), av(NONE))]
                    ip.report(fr, node, 'order', 'the response queue is changed other than at its ends (%s)' % f.attr, key=f.attr)
                    return [(s, TOP)]
            return None
        return None

    def class_table(self, ip, fr, st, e):
        """a constant dictionary -> ('o','table',truthy keys)"""
        d = None
        if e.t == 'Attribute':
            for s, b in ip.ev(e.value, st, fr):
                for a in b:
                    if a[0] in ('inst', 'class') and hasattr(a[1], 'find_attr'):
                        ca = a[1].find_attr(e.attr)
                        if ca is not None:
                            d = ca[1]
        elif e.t == 'Name':
            for m in walk(fr.module.tree):
                if m.t == 'Assign' and any(t.t == 'Name' and t.id == e.id for t in m.targets):
                    d = m.value
        elif e.t == 'Dict':
            d = e
        if d is None or d.t != 'Dict':
            return None
        keys = set()
        for k, v in zip(d.keys, d.values):
            tv = ip.single_const(ip.ev(v, st, fr)[0][1])
            if k.t != 'Str':
                return None
            if tv is None or tv[2]:
                if not (tv is None and dotted(v) in ('None', 'False')):
                    keys.add(str(k.s))
        self.tables += 1
        return ('o', 'table', frozenset(keys))

    def table(self, st, tab, default):
        ok = tab[2] <= SAFE and (default is None or all(self.truthiness(a) is False for a in default))
        d, idem, owed, prom = st.facts
        if ok:
            return [(State((d, True, owed, prom), st.env), av(TRUE)), (st, av(FALSE))]
        return [(st, av(TRUE)), (st, av(FALSE))]

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0]
            if (op == 'In' and sense) or (op == 'NotIn' and not sense):
                for s, v in ip.ev(test.left, st, fr):
                    if METHOD in v and self.literal_subset(ip, fr, st, test.comparators[0]):
                        d, idem, owed, prom = st.facts
                        return [State((d, True, owed, prom), st.env)]
            if (op == 'Eq' and sense) or (op == 'NotEq' and not sense):
                for a, b in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
                    for s, v in ip.ev(a, st, fr):
                        for s2, w in ip.ev(b, st, fr):
                            c = ip.single_const(w)
                            if METHOD in v and c is not None and c[2] in SAFE:
                                d, idem, owed, prom = st.facts
                                return [State((d, True, owed, prom), st.env)]
        return None

    def literal_subset(self, ip, fr, st, e):
        if e.t in ('Tuple', 'List', 'Set'):
            return all(x.t == 'Str' and str(x.s) in SAFE for x in e.elts)
        if e.t == 'Call' and e.args and len(e.args) == 1:
            return self.literal_subset(ip, fr, st, e.args[0])
        if e.t == 'Attribute':
            for s, b in ip.ev(e.value, st, fr):
                for a in b:
                    if a[0] in ('inst', 'class') and hasattr(a[1], 'find_attr'):
                        ca = a[1].find_attr(e.attr)
                        if ca is not None and ca[1] is not None:
                            return self.literal_subset(ip, fr, st, ca[1])
        if e.t == 'Name':
            for m in walk(fr.module.tree):
                if m.t == 'Assign' and any(t.t == 'Name' and t.id == e.id for t in m.targets):
                    return self.literal_subset(ip, fr, st, m.value)
        return False

    # -------------------------------------------------------- obligations
    def balanced(self, ip, fr, st, node, where):
        d, idem, owed, prom = st.facts
        if d > 0:
            ip.report(fr, node, 'once', 'a request was removed from the queue without being started (%s)' % where, key='lost')
        if d < 0:
            ip.report(fr, node, 'once', 'a request was started and is left in the queue (%s)' % where, key='left')
        if owed > 0:
            ip.report(fr, node, 'response', 'a request was started and no response registered for it (%s)' % where, key='none')
        if owed < 0:
            ip.report(fr, node, 'response', 'more responses are registered than requests started (%s)' % where, key='more')
        if prom > 0:
            ip.report(fr, node, 'response', 'a response becomes current and stays queued (%s)' % where, key='twice')
        if prom < 0:
            ip.report(fr, node, 'response', 'a response is removed from the queue without becoming current (%s)' % where, key='skipped')

    def loop_back(self, ip, fr, st, node):
        # inner loops may come between taking and starting: only a whole round of the operation counts
        if fr.depth == 0 and not in_loop(node):
            self.balanced(ip, fr, st, node, 'another round')
            return State((0, False, 0, 0), st.env)
        return st

    def on_return(self, ip, fr, st, node, value):
        if fr.depth == 0:
            self.balanced(ip, fr, st, node, 'return')
        return st


def in_loop(n):
    n = n.up
    while n is not None and n.t not in ('FunctionDef', 'Lambda', 'ClassDef'):
        if n.t in ('While', 'For'):
            return True
        n = n.up
    return False


def isempty(v):
    return not v


def lit(e):
    return e.n if e is not None and e.t == 'Num' else None


def tail_slice(sl):
    return sl.t == 'Slice' and lit(sl.lower) == 1 and sl.upper is None and sl.step is None


def head_slice(sl):
    return sl.t == 'Slice' and (sl.lower is None or lit(sl.lower) == 0) and lit(sl.upper) == 1 and sl.step is None


def analyse(prog, pid, tier):
    r = Result()
    mod = prog.module('pyslet.rfc2616')
    link(mod.tree)
    conn = prog.cls('pyslet.rfc2616', 'Connection')
    stores = set(n.attr for n in walk(conn.node) if n.t == 'Attribute' and n.ctx == 'Store')
    for f in ('requestQueue', 'responseQueue', 'request', 'response'):
        if f not in stores:
            raise AnalysisBroken('Connection has no %s' % f)
    tot = dict(starts=0, takes=0, attaches=0, promotes=0)
    entries = 0
    for k in conn.all_subclasses():
        names = set()
        for c in k.mro:
            names |= set(getattr(c, 'methods', {}))
        for n in sorted(names):
            if n.startswith('_'):
                continue
            f = k.find(n)
            cl = Pipeline(prog, conn)
            ip = Interp(prog, cl)
            ip.run(f, cls=k)
            entries += 1
            for key in tot:
                tot[key] += getattr(cl, key)
            for (rule, q, what), text in ip.reports.items():
                r.add('%s|%s|%s' % (rule, q, what), text)
    # elsewhere the queues are only appended to
    outside = 0
    for m in prog.modules.values():
        for n in walk(link(m.tree)):
            if n.t == 'Attribute' and n.attr in ('requestQueue', 'responseQueue'):
                p = n.up
                own = enclosing_class(n)
                if own is not None and own.name in [c.name for c in conn.all_subclasses()] and m is mod:
                    continue
                outside += 1
                if n.ctx != 'Load' or (p.t == 'Attribute' and p.attr not in ('append',)) or \
                        (p.t == 'Subscript' and p.value is n and p.ctx != 'Load'):
                    r.add('order|%s|outside' % m.name, '%s:%d order: %s is changed other than by adding at its end' % (
                        m.rel, n.lineno, n.attr))
    for what, n in sorted(tot.items()):
        r.floor(what, n, 1)
    r.floor('entry_points', entries, 8)
    r.coverage['accesses_outside_the_class'] = outside
    r.samples = ['Connection.ConnectionTask', 'Connection.Close', 'HTTPRequestManager.QueueRequest']
    r.rules = ['pipeline', 'once', 'order', 'response', 'owed']
    r.files = ['pyslet/pyslet/rfc2616.py']
    r.explanation = ('Every path of the public operations of the connection was followed with the state of both queues, the '
                     'current request and the current response.')
    r.assumptions = ['a connection is used by one thread at a time (see C22)']
    return r


def enclosing_class(n):
    while n is not None:
        if n.t == 'ClassDef':
            return n
        n = n.up
    return None
