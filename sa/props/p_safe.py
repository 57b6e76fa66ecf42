"""C09: safe methods change nothing, a read-only server changes nothing.

The request method is a constant of the abstract run; every path of the
server that is feasible for it is followed and must not reach an operation
that changes data."""
from ..frontend import walk
from ..interp import Client, Interp, Frame, av, avk, TOP, const
from ..model import AnalysisBroken, walk_own
from ..result import Result

BASE = set(['InsertEntity', 'UpdateEntity', 'DeleteEntity', 'Update', 'Delete', 'Replace', 'SetStreamFromGenerator',
            'InsertLink', 'UpdateLink', 'ReplaceLink', 'DeleteLink', 'ClearLinks', 'ClearLinksUnbound', 'AddLink', 'clear',
            'UpdateEntityStream', 'InsertEntitySQL'])
PLAIN = ('dict', 'list')


def closure(prog):
    """names of operations that change data: BASE and what calls them in the data layers"""
    names = set(BASE)
    mods = [m for m in prog.modules.values() if m.name.startswith('pyslet.odata2.') and not m.name.endswith('.server')]
    ch = True
    while ch:
        ch = False
        for m in mods:
            for c in m.classes.values():
                for f in c.methods.values():
                    if f.name in names or f.name.startswith('__') or f.name in GENERIC:
                        continue
                    for n in walk_own(f.node):
                        if n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in names:
                            names.add(f.name)
                            ch = True
                            break
    return names


GENERIC = set(['close', 'Close', 'Execute'])


class Safe(Client):
    max_states = 24
    max_depth = 14

    def __init__(self, prog, method, names):
        self.prog, self.method, self.names = prog, method, names
        self.srv = prog.module('pyslet.odata2.server')
        self.reads = 0
        self.calls = 0
        self.sites = set()

    def relevant(self, ip, func):
        return func.module is self.srv

    def subscript_load(self, ip, fr, st, node, base, index):
        if len(index) == 1 and next(iter(index)) == ('k', 'str', 'REQUEST_METHOD'):
            self.reads += 1
            return [(st, self.method)]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        self.calls += 1
        f = node.func
        if f.t == 'Attribute':
            if f.attr == 'get' and args and len(args[0]) == 1 and next(iter(args[0])) == ('k', 'str', 'REQUEST_METHOD'):
                self.reads += 1
                return [(st, self.method)]
            if f.attr in ('upper', 'strip', 'lower', 'encode', 'decode'):
                out = []
                for s, b in ip.ev(f.value, st, fr):
                    if b and all(a[0] == 'k' and a[1] == 'str' for a in b):
                        out.append((s, frozenset(const(getattr(a[2], f.attr)()) if f.attr in ('upper', 'lower', 'strip')
                                                 else a for a in b)))
                    else:
                        return None
                return out
        if f.t == 'Name' and f.id in ('str', 'unicode') and len(args) == 1 and all(
                a[0] == 'k' and a[1] == 'str' for a in args[0]):
            return [(st, args[0])]
        return None

    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr in self.names and node.ctx == 'Load' and not any(
                a[0] == 'mod' or a[0] == 'bound' for a in base):
            self.hit(ip, fr, node, 'calls %s' % node.attr, node.attr)
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        if not self.plain(node.value, base, index):
            self.hit(ip, fr, node, 'stores an item of a collection', 'setitem')
        return st

    def stmt(self, ip, fr, st, node):
        if node.t == 'Delete':
            for t in node.targets:
                if t.t == 'Subscript' and t.slice.t == 'Index':
                    for s, b in ip.ev(t.value, st, fr):
                        if not self.plain(t.value, b, TOP):
                            self.hit(ip, fr, node, 'deletes an item of a collection', 'delitem')
        return st

    def plain(self, e, base, index):
        """a dictionary or list of the server's own"""
        if base and all(a[0] in ('k', 'tup', 'dictv', 'list') or a[0] == 'k' for a in base):
            return True
        if index and all(a[0] == 'k' for a in index):
            return True     # environ['X'], headers[0]: keys of data are never constants of the server
        return False

    def hit(self, ip, fr, node, what, key):
        self.sites.add((fr.func.qname, node.lineno))
        ip.report(fr, node, 'change', '%s (%s)' % (what, fr.trail()), key=key)


def analyse(prog, pid, tier):
    r = Result()
    names = closure(prog)
    srv = prog.module('pyslet.odata2.server')
    base = prog.cls('pyslet.odata2.server', 'Server')
    entry = base.find('__call__')
    if entry is None:
        raise AnalysisBroken('Server has no __call__')
    runs = 0
    used = set()
    classes = [k for k in base.all_subclasses() if k.module is srv]
    for k in classes:
        f = k.find('__call__')
        ro = k.name.startswith('ReadOnly') or any(getattr(x, 'name', '').startswith('ReadOnly') for x in k.mro)
        methods = ['GET', 'HEAD', 'OPTIONS', 'TRACE', 'get', 'Head', 'X-OTHER']
        if ro:
            methods += ['POST', 'PUT', 'DELETE', 'MERGE', 'PATCH', 'post', 'put', 'Delete']
        for m in methods:
            cl = Safe(prog, avk(m), names)
            ip = Interp(prog, cl)
            ip.run(f, cls=k)
            runs += 1
            if not cl.reads:
                raise AnalysisBroken('the request method is not read')
            for (rule, q, what), text in ip.reports.items():
                r.add('%s|%s|%s|%s' % (k.name, rule, q, what),
                      '%s [%s request%s]' % (text, m, ', read-only server' if ro else ''))
    # the same paths with the changing methods must find the operations: the analysis sees them
    cl = Safe(prog, frozenset([const('POST'), const('PUT'), const('DELETE')]), names)
    ip = Interp(prog, cl)
    ip.run(entry, cls=base)
    r.floor('changing_operations_reached_by_other_methods', len(cl.sites), 4)
    r.floor('server_classes', len(classes), 2)
    r.floor('runs', runs, 10)
    r.coverage['names_of_changing_operations'] = len(names)
    r.coverage['calls_seen'] = cl.calls
    r.samples = sorted('%s:%d' % s for s in cl.sites)
    r.rules = ['change']
    r.files = ['pyslet/pyslet/odata2/server.py']
    r.explanation = ('For each request method every feasible path from the WSGI entry point through the server was followed; '
                     'none may reach an operation that changes data. The same operations are reached for POST, PUT and DELETE.')
    r.assumptions = ['function imports are executed for GET as the protocol prescribes; what they do is up to them']
    return r
