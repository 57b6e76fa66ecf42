"""C08: one response per request, with the Content-Length of the body returned.

Typestate of the start_response callable along every path of the WSGI entry
points, with the values of the header tuples and of the returned body tracked
as tokens of the expression that made them."""
from ..interp import Client, Interp, av, TOP, FALSY, TRUTHY, NONE, UNBOUND
from ..model import AnalysisBroken
from ..result import Result

SR = ('sr',)
BYTES_CALLS = ('str',)
BYTES_METHODS = ('encode', 'RenderText')


class Wsgi(Client):
    max_states = 64
    init_facts = (0, None, ())      # responses started, content length value, trail

    def __init__(self):
        self.want = False
        self.starts = set()
        self.bodies = 0
        self.headers = set()

    # ---- which calls are entered: those that are handed the callable
    def relevant(self, ip, func):
        return self.want

    def has_sr(self, v):
        return any(a == SR or (a[0] == 'bound' and len(a) > 4) for a in v)

    def is_sr(self, v):
        return SR in v

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        self.want = any(self.is_sr(v) for v in list(args) + list(kw.values()))
        if callee is None and recv_path is None or callee is None:
            pass
        # the callable itself
        fv = None
        if node.func.t == 'Name':
            fv = st.env.get(node.func.id)
        elif node.func.t == 'Attribute':
            p = ip.path(node.func)
            fv = st.env.get(p) if p else None
        if fv is not None and SR in fv:
            return [(self.start(ip, fr, st, node, args), TOP)]
        if self.want and callee is not None and callee[0] == 'class':
            # stored in an adapter: its methods are checked on their own, calling one responds once
            return [(st, av(('adapter',)))]
        if node.func.t == 'Attribute' and recv_path and ('adapter',) in st.env.get(recv_path, ()):
            n, cl, tr = st.facts
            return [(self.start(ip, fr, st.with_facts((n, ('delegated',), tr)), node, args), av(('delegated',)))]
        if callee is not None and callee[0] == 'ext' and callee[1] == 'len' and len(args) == 1:
            return [(st, av(('len', args[0])))]
        if callee is not None and callee[0] == 'ext' and callee[1] == 'str' and len(args) == 1:
            a = args[0]
            if len(a) == 1 and next(iter(a))[0] in ('len', 'size'):
                return [(st, av(('strlen', a)))]
            self.raise_any(ip, fr, st, node)
            return [(st, av(('v', 'bytes', fr.func.qname, node.lineno, node.col)))]
        if callee is not None and callee[0] == 'ext' and callee[1] == 'unicode':
            self.raise_any(ip, fr, st, node)
            return [(st, av(('v', 'unicode', fr.func.qname, node.lineno, node.col)))]
        if node.func.t == 'Attribute':
            a = node.func.attr
            if a == 'close' and not args and not kw and not self.want:
                return [(st, av(NONE))]
            if a == 'GetStreamSize':
                self.raise_any(ip, fr, st, node)
                return [(st, av(('size', recv_path)))]
            if a == 'GetStreamGenerator':
                self.raise_any(ip, fr, st, node)
                return [(st, av(('stream', recv_path)))]
            if a == 'decode':
                return [(st, av(('v', 'unicode', fr.func.qname, node.lineno, node.col)))]
            if a in ('encode', 'getvalue', 'join', 'RenderText', 'read'):
                self.raise_any(ip, fr, st, node)
                return [(st, av(('v', 'bytes', fr.func.qname, node.lineno, node.col)))]
        return None

    def raise_any(self, ip, fr, st, node):
        for x in self.opaque_raises(ip, fr, st, node, None):
            ip.throw(fr, st, x, node)

    def binop(self, ip, fr, st, node, left, right):
        if node.op in ('Mod', 'Add'):
            return av(('v', 'bytes', fr.func.qname, node.lineno, node.col))
        return None

    def attr_load(self, ip, fr, st, node, base, path):
        if path and path not in st.env and not any(a[0] in ('inst', 'class', 'mod') for a in base):
            if ip.is_tracked(node, fr):
                return [(st, av(('either', 'attr', path, node.lineno)))]
        return None

    def start(self, ip, fr, st, node, args):
        n, cl, tr = st.facts
        self.starts.add((fr.func.qname, node.lineno))
        if n >= 1:
            ip.report(fr, node, 'second response', 'the response has been started before on this path', key='second')
        if cl is None:
            ip.report(fr, node, 'no Content-Length', 'the response is started without a Content-Length header',
                      key='nolength')
        return st.with_facts((min(n + 1, 2), cl, tr))

    def tuple_display(self, ip, fr, st, node, vals):
        if len(vals) == 2 and len(vals[0]) == 1:
            k = next(iter(vals[0]))
            if k[0] == 'k' and k[1] == 'str' and k[2].lower() == 'content-length':
                n, cl, tr = st.facts
                self.headers.add((fr.func.qname, node.lineno))
                for a in vals[1]:
                    if a[0] in ('len', 'size') or (a[0] == 'k' and a[1] != 'str') or a == NONE:
                        ip.report(fr, node, 'header value', 'the Content-Length is not a string', key='lengthtype')
                return st.with_facts((n, vals[1], tr))
        return st

    def list_display(self, ip, fr, st, node, vals):
        return av(('list', vals))

    def finish(self, ip, fr, st, value, node):
        """an entry point returns"""
        n, cl, tr = st.facts
        if n == 0:
            ip.report(fr, node, 'no response', 'returns without starting a response', key='none')
            return
        self.bodies += 1
        if cl == ('delegated',) or cl is None:
            return
        for a in value:
            ok, why = self.fits(a, cl)
            if not ok:
                ip.report(fr, node, 'Content-Length', why, key='length')

    def fits(self, a, cl):
        if a == ('delegated',):
            return True, None
        if a[0] == 'stream':
            want = av(('strlen', av(('size', a[1]))))
            return cl in (want,), 'the Content-Length is not the size of the stream returned'
        if a[0] in ('list', 'tup'):
            if len(a[1]) == 0:
                ok = len(cl) == 1 and next(iter(cl))[0] == 'k' and next(iter(cl))[2] == '0'
                return ok, 'an empty body does not have Content-Length 0'
            if len(a[1]) == 1:
                for d in a[1][0]:
                    if d[0] == 'v' and d[1] == 'unicode':
                        return False, 'the body returned is text that has not been encoded'
                ok = cl == av(('strlen', av(('len', a[1][0]))))
                return ok, 'the Content-Length is not the length of the data returned'
        return False, 'the body returned is not the data the Content-Length was computed from'


def analyse(prog, pid, tier):
    r = Result()
    srv = prog.cls('pyslet.odata2.server', 'Server')
    entries = []
    for mod, cname in (('pyslet.odata2.server', 'Server'), ('pyslet.rfc5023', 'Server')):
        c = prog.cls(mod, cname)
        f = c.methods.get('__call__')
        if f is None:
            raise AnalysisBroken('%s has no __call__' % cname)
        for k in c.all_subclasses():
            if k is c or k.find('__call__') is f:
                entries.append((f, k))
    cl = Wsgi()
    seen = set()
    for f, k in entries:
        if (f, k) in seen:
            continue
        seen.add((f, k))
        ip = Interp(prog, cl)
        params = [p for p in f.params[1:] if p]
        if len(params) < 2:
            raise AnalysisBroken('unexpected signature of %s' % f.qname)
        out = ip.run(f, cls=k, env={params[1]: av(SR)})
        from ..interp import Frame
        fr = Frame(f, k, 0)
        for st, v, node in out.ret:
            cl.finish(ip, fr, st, v, node)
        for (rule, q, what), text in ip.reports.items():
            r.add('%s|%s|%s' % (rule, q, what), text)
    # adapters: the method handed on as a callable starts the wrapped response exactly once
    adapters = 0
    for c in prog.module('pyslet.odata2.server').classes.values():
        init = c.methods.get('__init__')
        if init is None or 'start_response' not in init.params:
            continue
        for m in c.methods.values():
            calls = [n for n in __import__('sa.model', fromlist=['walk_own']).walk_own(m.node)
                     if n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr == 'start_response']
            if not calls:
                continue
            adapters += 1
            a = Wsgi()
            a.init_facts = (0, ('delegated',), ())
            ip = Interp(prog, a)
            me = m.params[0]
            out = ip.run(m, cls=c, env={me + '.start_response': av(SR)})
            from ..interp import Frame
            for st, v, node in out.ret:
                if st.facts[0] != 1:
                    ip.report(Frame(m, c, 0), node, 'adapter', 'does not start the response exactly once', key='adapter')
            for (rule, q, what), text in ip.reports.items():
                r.add('%s|%s|%s' % (rule, q, what), text)
    r.floor('wsgi_entry_points', len(seen), 2)
    r.floor('response_starts', len(cl.starts), 10)
    r.floor('content_length_headers', len(cl.headers), 10)
    r.floor('response_paths', cl.bodies, 10)
    r.coverage['adapters'] = adapters
    r.samples = sorted('%s:%d' % s for s in cl.starts)[:12]
    r.explanation = ('Every path of every WSGI entry point was followed through the functions that are handed the '
                     'start_response callable; the typestate not-started/started and the origin of the '
                     'Content-Length and of the body were tracked.')
    r.rules = ['second response', 'no response', 'no Content-Length', 'header value', 'Content-Length', 'adapter']
    r.files = ['pyslet/pyslet/odata2/server.py', 'pyslet/pyslet/rfc5023.py']
    r.assumptions = ['start_response itself and close() of a collection or cursor do not raise']
    return r
