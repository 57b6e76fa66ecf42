"""C23: credentials reach only the servers they are for, and a request is repeated
only as a redirect or a challenge allows.

The end of a request (HTTPRequest.Finished) is followed along every path for each
status class and method; every place that writes an Authorization header, every
look-up of credentials and every test of credentials is followed on its own."""
from ..frontend import walk, link
from ..interp import Client, Interp, av, const as k, TOP, NONE, ANY, TRUE, FALSE, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

EMPTY = frozenset()
STATUSES = (0, 200, 204, 300, 301, 302, 303, 304, 305, 307, 400, 401, 403, 404, 500)
METHODS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'get', 'post')
STR = set('''strip lstrip rstrip lower upper split rsplit partition rpartition startswith endswith find rfind index replace encode decode
join format count title isdigit isspace splitlines translate __len__'''.split())


def tags(v):
    return set(a[1] for a in v if a[0] == 'tag')


def maybe_none(v):
    return NONE in v and not TOP <= v


def tag(*names):
    return av(*[('tag', n) for n in names])


class Base(Client):
    init_facts = EMPTY
    max_states = 300

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False


class Ending(Base):
    """what a request does once its response is complete"""

    def __init__(self, prog, r, req, status, method, sites):
        self.prog, self.r, self.req, self.status, self.method, self.sites = prog, r, req, status, method, sites
        self.response = prog.cls('pyslet.rfc2616', 'HTTPResponse')

    def relevant(self, ip, func):
        return func.cls is not None and func.cls.module is self.req.module and \
            func.cls.name in ('HTTPRequest', 'HTTPResponse', 'HTTPMessage') and \
            func.name not in ('Resend', 'SetHeader', 'GetHeader', 'HasHeader', 'SetRequestURI', 'QueueRequest')

    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (fr.func.qname, text), '%s:%d %s' % (fr.module.rel, getattr(node, 'lineno', 0), text))

    def me(self, fr, x):
        return x.t == 'Name' and fr.func.cls is not None and x.id == (fr.func.params or [None])[0]

    def attr_load(self, ip, fr, st, node, base, path):
        mine = self.me(fr, node.value) and fr.func.cls.name != 'HTTPResponse'
        if mine and node.attr == 'status':
            return [(st, av(k(self.status)))]
        if node.attr == 'status' and ('inst', self.response) in base:
            return [(st, av(k(self.status)))]
        if mine and node.attr == 'method':
            return [(st, av(k(self.method)))]
        if mine and node.attr == 'requestURI':
            return [(st, tag('own uri'))]
        if mine and node.attr == 'response':
            return [(st, av(('inst', self.response)))]
        if mine and node.attr == 'tryCredentials' and path and path not in st.env:
            return [(st, tag('tried') if ('tried', True) in st.facts else av(NONE))]
        if maybe_none(base):
            self.bad(node, fr, 'a header the server may leave out is used without checking that it is there')
        t = tags(base)
        if 'text' in t and node.attr not in STR:
            self.bad(node, fr, 'the text of a header is used as though it were an address (.%s)' % node.attr)
        return None

    def truthiness(self, atom):
        return None if atom[0] == 'tag' and atom[1] in ('text',) else (True if atom[0] == 'tag' else truth(atom))

    def for_element(self, ip, fr, st, node, itv):
        if maybe_none(itv):
            self.bad(node, fr, 'what the server may leave out is gone through without checking that it is there')
        if tags(itv) & set(['challenges', 'empty']):
            return tag('challenge')
        return None

    def list_display(self, ip, fr, st, node, values):
        return None if node.elts else av(('either', 'tag'), ('tag', 'empty'))

    def loop_back(self, ip, fr, st, node):
        # the next challenge is another one
        return st.with_facts(st.facts - set([('spaced',)]))

    def attr_store(self, ip, fr, st, node, base, path, value):
        if node.attr == 'protectionSpace' and 'challenge' in tags(base):
            if value is not None and 'own root' in tags(value):
                return st.with_facts(st.facts | set([('spaced',)]))
            return st.with_facts(st.facts - set([('spaced',)]))
        if node.attr == 'tryCredentials' and self.me(fr, node.value):
            return st.with_facts(st.facts - set([('tried', True)]))
        return st

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'UnaryOp':
            return None
        x = test
        if x.t == 'Compare' and len(x.ops) == 1:
            op = x.ops[0] if isinstance(x.ops[0], str) else x.ops[0].t
            a, b = x.left, x.comparators[0]
            if op in ('Eq', 'NotEq'):
                va, vb = ip.ev(a, st, fr)[0][1], ip.ev(b, st, fr)[0][1]
                if set(['own root', 'root']) <= tags(va) | tags(vb) and (op == 'Eq') == sense:
                    return [st.with_facts(st.facts | set([('same root',)]))]
            if op in ('Is', 'IsNot', 'Eq', 'NotEq') and b.t == 'Name' and b.id == 'None':
                sense = (op in ('IsNot', 'NotEq')) == sense
                x = a
                if x.t == 'Attribute' and x.attr in ('host', 'scheme') and sense:
                    return self.absolute(ip, fr, st, x.value)
            return None
        if x.t == 'Call' and x.func.t == 'Attribute':
            if x.func.attr == 'IsAbsolute' and sense:
                return self.absolute(ip, fr, st, x.func.value)
        if x.t == 'Attribute' and x.attr == 'host' and sense:
            return self.absolute(ip, fr, st, x.value)
        return None

    def absolute(self, ip, fr, st, x):
        if 'address' in tags(ip.ev(x, st, fr)[0][1]):
            return [st.with_facts(st.facts | set([('absolute',)]))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t != 'Attribute':
            if f.t == 'Name' and f.id in ('str', 'unicode') and args:
                t = tags(args[0])
                return [(st, frozenset(a for a in args[0] if a[0] == 'tag'))] if t else None
            return None
        name = f.attr
        b = ip.ev(f.value, st, fr)[0][1]
        if name in ('upper', 'lower', 'strip') and len(b) == 1 and not args:
            a = next(iter(b))
            if a[0] == 'k' and isinstance(a[2], str):
                return [(st, av(k(getattr(a[2], name)())))]
            if a[0] == 'tag' and a[1] == 'text':
                return [(st, tag('text'))]
        if 'text' in tags(b) and name in STR:
            return [(st, tag('text') if NONE not in b else TOP)]
        if name == 'GetHeader' and args:
            a = [x for x in args[0] if x[0] == 'k']
            return [(st, tag('text') if a and str(a[0][2]).lower() == 'location' else TOP), (st, av(NONE))]
        if name == 'ListFromString':
            return [(st, tag('challenges'))]
        if name == 'URI' and args and 'text' in tags(args[0]):
            return [(st, tag('address'))]
        if name == 'Resolve':
            if any('own uri' in tags(x) for x in list(args) + [b]) and any(tags(x) & set(['address', 'text']) for x in list(args) + [b]):
                return [(st, tag('resolved', 'address'))]
        if name == 'GetCanonicalRoot':
            if 'own uri' in tags(b):
                return [(st, tag('own root'))]
            if 'address' in tags(b):
                return [(st, tag('root'))]
        if name == 'Match' and args and set(['own root', 'root']) <= tags(b) | tags(args[0]):
            return [(st.with_facts(st.facts | set([('same root',)])), av(TRUE)), (st, av(FALSE))]
        if name == 'FindCredentials':
            if not (args and 'challenge' in tags(args[0]) and ('spaced',) in st.facts):
                self.bad(node, fr, 'credentials are looked up for a challenge whose protection space is not that of the request')
                return [(st, TOP)]
            return [(st, tag('found')), (st, av(NONE))]
        if name == 'RemoveCredentials':
            if args and 'tried' in tags(args[0]):
                return [(st.with_facts(st.facts | set([('removed',)])), av(NONE))]
        if name == 'AddSuccessPath' and 'tried' in tags(b):
            if self.status == 401:
                self.bad(node, fr, 'credentials the server refused (401) are recorded as good for a path')
            if ('resent',) in st.facts:
                self.bad(node, fr, 'a path is recorded for credentials after the request has been sent again')
            return [(st, av(NONE))]
        if name in ('SetHeader', 'AppendHeader') and args and any(a[0] == 'k' and str(a[2]).lower() == 'authorization' for a in args[0]):
            self.sites.add((fr.func.qname, node.lineno))
            v = args[1] if len(args) > 1 else TOP
            if all(a == NONE for a in v):
                return [(st.with_facts(st.facts | set([('cleared',)])), av(NONE))]
            if 'found' not in tags(v):
                self.bad(node, fr, 'an Authorization header is set from something other than credentials found for this request')
            return [(st.with_facts((st.facts - set([('cleared',)])) | set([('authorised',)])), av(NONE))]
        if name == 'Resend':
            if ('resent',) in st.facts:
                self.bad(node, fr, 'one response makes the request be sent twice')
            if self.status not in range(300, 400) and self.status != 401:
                self.bad(node, fr, 'the request is sent again though the response was neither a redirect nor a challenge')
            url = args[0] if args else (list(kw.values())[0] if isinstance(kw, dict) and kw else av(NONE))
            if all(a == NONE for a in url):
                if ('authorised',) not in st.facts:
                    self.bad(node, fr, 'the request is sent again to the same address unchanged')
            else:
                if self.status in (302, 307) and self.method.upper() not in ('GET', 'HEAD'):
                    self.bad(node, fr, 'a request other than GET or HEAD is redirected without confirmation')
                if ('cleared',) not in st.facts and ('same root',) not in st.facts:
                    self.bad(node, fr, 'a request is redirected to what may be another server with the Authorization header it had')
                if 'resolved' not in tags(url) and not (tags(url) & set(['address', 'text']) and ('absolute',) in st.facts):
                    self.bad(node, fr, 'a request is redirected to an address that may be relative')
            return [(st.with_facts(st.facts | set([('resent',)])), av(NONE))]
        return None


class Sending(Ending):
    """the header of the request: credentials are those found for the request's own address"""

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'FindCredentialsForURL':
            if not (args and 'own uri' in tags(args[0])):
                self.bad(node, fr, 'credentials are looked up for an address that is not that of the request')
                return [(st, TOP)]
            return [(st, tag('found')), (st, av(NONE))]
        return Ending.call(self, ip, fr, st, node, callee, recv_path, args, kw)

    def attr_load(self, ip, fr, st, node, base, path):
        if self.me(fr, node.value) and node.attr == 'requestURI':
            return [(st, tag('own uri'))]
        return None


class Finding(Base):
    """look-ups return only credentials that passed the test"""

    def __init__(self, prog, r, test, param):
        self.prog, self.r, self.test, self.param = prog, r, test, param
        self.tests = 0

    def relevant(self, ip, func):
        return func.cls is not None and func.cls.name == 'HTTPRequestManager'

    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr == 'credentials':
            return [(st, tag('all'))]
        return None

    def for_element(self, ip, fr, st, node, itv):
        if 'all' in tags(itv):
            return tag('one')
        if 'passed' in tags(itv):
            return tag('passed')
        return None

    def loop_head(self, ip, fr, st, node):
        return st.with_facts(EMPTY)

    def subscript_load(self, ip, fr, st, node, base, index):
        return [(st, frozenset(a for a in base if a[0] == 'tag' and a[1] == 'passed') or tag('one'))] if tags(base) & set(['passed', 'all']) else None

    def is_test(self, ip, fr, st, x):
        if x.t == 'Call' and x.func.t == 'Attribute' and x.func.attr == self.test and x.args:
            v = ip.ev(x.args[0], st, fr)[0][1]
            return 'param' in tags(v)
        return False

    def refine(self, ip, fr, st, test, sense):
        if sense and self.is_test(ip, fr, st, test):
            self.tests += 1
            return [st.with_facts(frozenset(['passed']))]
        return None

    def comp(self, ip, fr, st, node, parts):
        for g in node.generators:
            v = ip.ev(g.iter, st, fr)[0][1]
            if 'all' in tags(v) or 'passed' in tags(v):
                ok = 'passed' in tags(v)
                for c in g.ifs:
                    for x in ([c] if c.t != 'BoolOp' or c.op != 'And' else c.values):
                        if self.is_test(ip, fr, st, x):
                            ok = True
                            self.tests += 1
                return [(st, tag('passed' if ok else 'all'))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        if node.func.t == 'Name' and node.func.id in ('list', 'iter', 'next', 'tuple', 'sorted', 'reversed') and args:
            t = tags(args[0])
            if t & set(['all', 'passed', 'one']):
                o = frozenset(a for a in args[0] if a[0] == 'tag')
                return [(st, o | (args[1] if len(args) > 1 else EMPTY))]
        return None


class Testing(Base):
    """a test of credentials is passed only after the comparisons it must make"""

    def __init__(self, prog, owner, other):
        self.prog, self.owner, self.other = prog, owner, other

    def relevant(self, ip, func):
        return func.cls is not None and func.cls.module is self.owner.module and func.name != 'FromString'

    def what(self, ip, fr, st, x):
        """('self'|'other', name)"""
        if x.t == 'Attribute' and x.value.t == 'Name':
            v = ip.ev(x.value, st, fr)[0][1]
            who = 'other' if 'other' in tags(v) else 'self' if x.value.id == (fr.func.params or [None])[0] else None
            return (who, x.attr) if who else None
        if x.t == 'Subscript' and x.slice.t == 'Index' and x.slice.value.t == 'Str':
            v = ip.ev(x.value, st, fr)[0][1]
            return ('other', x.slice.value.s) if 'other' in tags(v) else None
        if x.t == 'Call' and x.func.t == 'Attribute' and x.func.attr in ('GetCanonicalRoot', 'get', 'lower', 'upper', 'strip', 'Canonicalize'):
            v = ip.ev(x.func.value, st, fr)[0][1]
            if x.func.attr == 'GetCanonicalRoot':
                return ('other', 'protectionSpace') if 'other' in tags(v) else None
            if x.func.attr == 'get':
                return ('other', x.args[0].s) if 'other' in tags(v) and x.args and x.args[0].t == 'Str' else None
            return self.what(ip, fr, st, x.func.value)
        if x.t == 'Name':
            v = ip.ev(x, st, fr)[0][1]
            for a in v:
                if a[0] == 'tag' and isinstance(a[1], tuple):
                    return a[1]
        return None

    def attr_load(self, ip, fr, st, node, base, path):
        w = self.what(ip, fr, st, node)
        return [(st, av(('either', 'tag', w)))] if w and w[1] in ('scheme', 'protectionSpace', 'realm') else None

    def refine(self, ip, fr, st, test, sense):
        x = test
        if x.t == 'Compare' and len(x.ops) == 1:
            op = x.ops[0] if isinstance(x.ops[0], str) else x.ops[0].t
            a, b = self.what(ip, fr, st, x.left), self.what(ip, fr, st, x.comparators[0])
            if a and b and a[0] != b[0] and a[1] == b[1] and (op in ('Eq', 'Is') and sense or op in ('NotEq', 'IsNot') and not sense):
                return [st.with_facts(st.facts | set([a[1]]))]
            if a and a[0] == 'self' and x.comparators[0].t == 'Name' and x.comparators[0].id == 'None' and (op in ('Is', 'Eq')) == sense:
                return [st.with_facts(st.facts | set(['no ' + a[1]]))]
        elif x.t == 'Attribute':
            a = self.what(ip, fr, st, x)
            if a and a[0] == 'self' and not sense:
                return [st.with_facts(st.facts | set(['no ' + a[1]]))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr == 'Match' and node.args:
            a, b = self.what(ip, fr, st, f.value), self.what(ip, fr, st, node.args[0])
            if a and b and a[0] != b[0] and a[1] == b[1]:
                return [(st.with_facts(st.facts | set([a[1]])), av(TRUE)), (st, av(FALSE))]
        if f.t == 'Attribute' and f.attr == 'TestPath':
            return [(st.with_facts(st.facts | set(['path'])), av(TRUE)), (st, av(FALSE))]
        return None


def analyse(prog, pid, tier):
    r = Result()
    mod = prog.cls('pyslet.rfc2616', 'HTTPRequest').module
    req = prog.cls('pyslet.rfc2616', 'HTTPRequest')
    man = prog.cls('pyslet.rfc2616', 'HTTPRequestManager')
    cred = prog.cls('pyslet.rfc2617', 'Credentials')
    for m in (mod, cred.module):
        link(m.tree)
    sites, runs, ends = set(), 0, 0
    fin = req.find('Finished')
    if fin is None:
        raise AnalysisBroken('no Finished')
    resent, entered = 0, set()
    for status in STATUSES:
        for method in METHODS:
            for tried in (False, True):
                cl = Ending(prog, r, req, status, method, sites)
                cl.init_facts = frozenset([('tried', True)]) if tried else EMPTY
                ip = Interp(prog, cl)
                out = ip.run(fin, facts=cl.init_facts)
                entered |= ip.entered
                runs += 1
                for s, v, node in out.ret:
                    ends += 1
                    resent += ('resent',) in s.facts
                    if tried and status == 401 and ('removed',) not in s.facts:
                        r.add('kept', '%s:%d credentials the server refused (401) are not removed, and will be tried again without end'
                              % (fin.module.rel, fin.node.lineno))
    r.floor('paths_that_send_again', resent, 10)
    # every function that writes the header
    writers = set()
    for f in prog.all_funcs:
        if f.module.name.startswith('legacy') or f is fin:
            continue
        for n in walk_own(f.node):
            if n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in ('SetHeader', 'AppendHeader') and n.args and \
                    n.args[0].t == 'Str' and n.args[0].s.lower() == 'authorization':
                writers.add(f)
    for f in sorted(writers, key=lambda f: f.qname):
        if f in entered:
            continue
        cl = Sending(prog, r, req, 401, 'GET', sites)
        if not any((f.qname, n.lineno) in sites for n in walk_own(f.node) if n.t == 'Call'):
            Interp(prog, cl).run(f, cls=f.cls)
    r.floor('authorization_headers', len(sites), 2)
    # look-ups
    for name, test in (('FindCredentials', 'MatchChallenge'), ('FindCredentialsForURL', 'TestURL')):
        f = man.find(name)
        if f is None:
            raise AnalysisBroken('no ' + name)
        cl = Finding(prog, r, test, f.params[1])
        out = Interp(prog, cl).run(f, env={f.params[1]: tag('param')})
        for s, v, node in out.ret:
            for a in v:
                if a[0] == 'tag' and a[1] == 'passed' or a == NONE:
                    continue
                if a[0] == 'tag' and a[1] == 'one' and 'passed' in s.facts:
                    continue
                r.add('untested|' + name, '%s:%d %s returns credentials without %s having found them to apply' % (f.module.rel, node.lineno, name, test))
        r.floor('tests_in_' + name, cl.tests, 1)
    # tests
    tested = 0
    for name, need in (('MatchChallenge', ('scheme', 'protectionSpace', 'realm')), ('TestURL', ('protectionSpace', 'path'))):
        for c in sorted(cred.all_subclasses(), key=lambda c: c.qname):
            f = c.methods.get(name)
            if f is None:
                continue
            cl = Testing(prog, c, f.params[1])
            out = Interp(prog, cl).run(f, cls=c, env={f.params[1]: tag('other')})
            tested += 1
            for s, v, node in out.ret:
                may = any(truth(a) is not False for a in v)
                if not may:
                    continue
                facts = set(s.facts)
                for x in need:
                    if x not in facts and not (x == 'realm' and 'no realm' in facts):
                        r.add('test|%s|%s' % (f.qname, x), '%s:%d %s can succeed without having compared the %s' % (
                            f.module.rel, node.lineno, f.qname.split('.')[-2] + '.' + name, {'protectionSpace': 'protection space'}.get(x, x)))
    r.floor('tests_of_credentials', tested, 3)
    r.coverage['runs_by_status_and_method'] = runs
    r.coverage['ends_of_paths'] = ends
    r.files = [mod.rel, cred.module.rel]
    r.rules = ['an Authorization header comes from credentials found for the address or the challenge of the request itself',
               'found credentials passed their test; a test compares scheme, protection space, realm or path',
               'a redirect to another root drops the Authorization header; other methods than GET and HEAD are not redirected by 302 or 307',
               'one response makes the request be sent again at most once; refused credentials are removed',
               'headers the server may leave out are checked before use']
    r.samples = ['%s:%d' % s for s in sorted(sites)]
    r.explanation = 'The end of a request was followed for %d combinations of status, method and tried credentials.' % runs
    r.assumptions = ['Application code does not set the Authorization header by other means than SetHeader.']
    return r
