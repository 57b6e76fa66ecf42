"""C34: the options of a request reach the collection that answers it.

The handling of a request that identifies a collection is followed along every path
from the moment it has been identified to each place where the collection is read;
by then every option the request may carry has been applied to it."""
from ..frontend import walk, link
from ..interp import Client, Interp, av, TOP, NONE, ANY, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

SETTERS = {'Filter': ('filter',), 'OrderBy': ('orderby',), 'Expand': ('expand', 'select'), 'SetPage': ('top', 'skip', 'skiptoken'),
           'SetInlineCount': ('inlinecount',), 'TopMax': ('topmax',)}
KEYWORDS = {'filter': 'filter', 'orderby': 'orderby', 'expand': 'expand', 'select': 'select', 'top': 'top', 'skip': 'skip',
            'skiptoken': 'skiptoken', 'topmax': 'topmax'}
WHOLE = set('itervalues values iteritems items iterkeys keys __iter__'.split())
NEED = {'entities': set(['filter', 'orderby', 'expand', 'select', 'top', 'skip', 'skiptoken', 'inlinecount', 'topmax']),
        'links': set(['top', 'skip', 'skiptoken', 'inlinecount']),
        'count': set(['filter'])}
PAGED, ALLOF, COUNT = 'a page', 'all of it', 'the count'


def opts(v):
    return set(a[2] for a in v if a[0] == 'either' and a[1] == 'opt')


def is_res(v):
    return any(a[0] == 'inst' and len(a) == 3 and a[2] == 'res' for a in v)


class Reads(object):
    """how the methods of a collection read it"""

    def __init__(self, cls):
        self.cls, self.memo = cls, {}

    def of(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = set()
        if name == 'iterpage':
            r = set([PAGED])
        elif name in WHOLE:
            r = set([ALLOF])
        elif name == '__len__':
            r = set([COUNT])
        else:
            f = self.cls.find(name)
            r = set()
            if f is not None and f.cls.module is self.cls.module:
                r = self.body(f, (f.params or [None])[0], None)
        self.memo[name] = r
        return r

    def body(self, f, me, attr):
        """reads of `me` (attr None) or of me.attr in f"""
        r = set()

        def subject(x):
            if attr is None:
                return x.t == 'Name' and x.id == me
            return x.t == 'Attribute' and x.attr == attr and x.value.t == 'Name' and x.value.id == me
        for n in walk_own(f.node):
            if n.t == 'Call':
                if n.func.t == 'Attribute' and subject(n.func.value):
                    r |= self.of(n.func.attr)
                elif n.func.t == 'Name' and n.args and subject(n.args[0]):
                    if n.func.id == 'len':
                        r.add(COUNT)
                    elif n.func.id in ('list', 'iter', 'tuple', 'sorted', 'set', 'dict', 'enumerate', 'map'):
                        r.add(ALLOF)
            elif n.t in ('For', 'comprehension') and subject(n.iter):
                r.add(ALLOF)
        return r


class Serving(Client):
    init_facts = frozenset()
    max_states = 500
    max_depth = 6

    def __init__(self, prog, r, server, coll, entity):
        self.prog, self.r, self.server, self.coll, self.entity = prog, r, server, coll, entity
        self.reads = Reads(coll)
        self.sites, self.applied, self.passed = set(), set(), False

    def relevant(self, ip, func):
        return self.passed and func.cls is self.server and not func.is_generator

    # ------------------------------------------------ values
    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr == 'sysQueryOptions':
            return [(st, av(('either', 'opt', '*')))]
        if node.value.t == 'Name' and node.value.id in ('SystemQueryOption', 'InlineCount') or \
                node.value.t == 'Attribute' and node.value.attr in ('SystemQueryOption', 'InlineCount'):
            return [(st, av(('optname', node.attr)))]
        if node.attr == 'topmax' and any(a[0] == 'inst' and a[1] is self.server for a in base):
            return [(st, av(('either', 'opt', 'topmax')))]
        return None

    def option(self, base, key):
        if '*' in opts(base):
            k = [a[1] for a in key if a[0] == 'optname']
            if len(k) == 1 and len(key) == 1:
                return k[0]
        return None

    def subscript_load(self, ip, fr, st, node, base, index):
        o = self.option(base, index)
        return [(st, av(('either', 'opt', o)))] if o else None

    def refine(self, ip, fr, st, test, sense):
        x, absent = None, None
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            a, b = test.left, test.comparators[0]
            if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
                for p, q in ((a, b), (b, a)):
                    if q.t == 'Name' and q.id == 'None':
                        x, absent = p, (op in ('Eq', 'Is')) == sense
                    elif q.t == 'Attribute' and q.value.t in ('Name', 'Attribute') and (q.value.id if q.value.t == 'Name' else q.value.attr) == 'PathOption' \
                            and (op in ('Eq', 'Is')) == sense:
                        return [st.with_facts(frozenset(f for f in st.facts if f[0] != 'mode') | set([('mode', q.attr)]))]
                    elif q.t == 'Attribute' and q.attr == 'allpages':
                        for s, v in ip.ev(p, st, fr)[:1]:
                            if 'inlinecount' in opts(v):
                                return [st.with_facts(st.facts | set([('inline', (op in ('Eq', 'Is')) == sense)]))]
            elif op in ('In', 'NotIn'):
                for s, v in ip.ev(b, st, fr)[:1]:
                    if '*' in opts(v):
                        for s2, k in ip.ev(a, st, fr)[:1]:
                            o = self.option(v, k)
                            if o and (op == 'NotIn') == sense:
                                return [st.with_facts(st.facts | set([('applied', o)]))]
                return None
        elif test.t in ('Name', 'Attribute', 'Subscript', 'Call'):
            x, absent = test, not sense
        if x is not None and absent and x.t in ('Name', 'Attribute', 'Subscript', 'Call'):
            if x.t == 'Call' and not (x.func.t == 'Attribute' and x.func.attr == 'get'):
                return None
            for s, v in ip.ev(x, st, fr)[:1]:
                o = opts(v) - set(['*'])
                if len(o) == 1:     # a request without this option
                    return [st.with_facts(st.facts | set([('applied', next(iter(o)))]))]
        return None

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    # ------------------------------------------------ events
    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (fr.func.qname, text), '%s:%d %s' % (fr.module.rel, node.lineno, text))

    def read(self, st, fr, node, how):
        self.sites.add((fr.func.qname, node.lineno))
        mode = [f[1] for f in st.facts if f[0] == 'mode']
        mode = mode[0] if mode else 'entities'
        if mode not in NEED:
            mode = 'entities'
        done = set(f[1] for f in st.facts if f[0] == 'applied')
        if ('inline', False) in st.facts:
            done.add('inlinecount')
        what = {'entities': 'the entities', 'links': 'the links', 'count': 'the count'}[mode] + ' of a collection'
        if ALLOF in how and mode != 'count':
            self.bad(node, fr, '%s are read whole, not the page asked for' % what)
        missing = NEED[mode] - done
        if PAGED not in how and ALLOF not in how and mode != 'count':
            missing = missing & set(['filter', 'inlinecount'])
        for o in sorted(missing):
            self.bad(node, fr, '%s are returned without %s having been applied' % (what, '$' + o if o != 'topmax' else 'the page limit of the server'))

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        vals = list(args) + [v for v in (kw.values() if isinstance(kw, dict) else [])]
        self.passed = any(is_res(a) for a in vals) or (f.t == 'Attribute' and f.attr == 'HandleRequest')
        if f.t == 'Name':
            if f.id == 'len' and args and is_res(args[0]):
                self.read(st, fr, node, set([COUNT]))
            elif f.id in ('list', 'iter', 'tuple', 'sorted', 'set', 'dict', 'map', 'enumerate') and any(is_res(a) for a in args):
                self.read(st, fr, node, set([ALLOF]))
            elif callee is not None and callee[0] == 'class' and any(is_res(a) for a in args):
                c = callee[1]
                how = set()
                for m in getattr(c, 'methods', {}).values():
                    how |= self.reads.body(m, (m.params or [None])[0], 'collection')
                if how:
                    self.read(st, fr, node, how)
            return None
        if f.t != 'Attribute':
            return None
        if f.attr == 'GetResource':
            return [(st, av(('tup', (av(('inst', self.coll, 'res')), av(('inst', self.entity), NONE)))))]
        out = []
        base = ip.ev(f.value, st, fr)
        b = base[0][1] if base else TOP
        if f.attr == 'get' and args and '*' in opts(b):
            o = self.option(b, args[0])
            return [(st, av(('either', 'opt', o)) if o else TOP)]
        if is_res(b):
            if f.attr in SETTERS:
                params = SETTERS[f.attr]
                given = dict(zip(params, args))
                if isinstance(kw, dict):
                    for k, v in kw.items():
                        if KEYWORDS.get(k) in params:
                            given[KEYWORDS[k]] = v
                facts = set(st.facts)
                for p in params:
                    v = given.get(p)
                    if v is None:
                        continue
                    if p in opts(v):
                        facts.add(('applied', p))
                        self.applied.add((f.attr, p))
                    elif p == 'inlinecount':
                        t = set(truth(a) for a in v)
                        if len(t) == 1 and ('inline', next(iter(t))) in st.facts:
                            facts.add(('applied', p))
                            self.applied.add((f.attr, p))
                    elif all(a == NONE for a in v) and ('applied', p) in facts:
                        pass
                    elif opts(v):
                        self.bad(node, fr, '%s is given $%s where it takes %s' % (f.attr, '/$'.join(sorted(opts(v))), p))
                    else:
                        facts.discard(('applied', p))
                return [(st.with_facts(frozenset(facts)), av(NONE))]
            how = self.reads.of(f.attr)
            if how:
                self.read(st, fr, node, how)
        return None

    def with_enter(self, ip, fr, st, node, ctx, path):
        return st, ctx, None

    def for_element(self, ip, fr, st, node, itv):
        if is_res(itv):
            self.read(st, fr, node, set([ALLOF]))
        return None


def analyse(prog, pid, tier):
    r = Result()
    server = prog.cls('pyslet.odata2.server', 'Server')
    coll = prog.cls('pyslet.odata2.core', 'EntityCollection')
    entity = prog.cls('pyslet.odata2.core', 'Entity')
    link(server.module.tree)
    link(coll.module.tree)
    cl = Serving(prog, r, server, coll, entity)
    ip = Interp(prog, cl)
    f = server.methods.get('HandleRequest')
    if f is None:
        raise AnalysisBroken('no HandleRequest')
    out = ip.run(f)
    r.floor('places_that_read', len(cl.sites), 4)
    r.floor('options_applied', len(cl.applied), 8)
    identified(prog, r, server, coll)
    next_page(prog, r, coll)
    r.coverage['ends_of_paths'] = len(out.ret) + len(out.exc)
    r.files = [server.module.rel, coll.module.rel]
    r.rules = ['where the collection is read, each option the form of the request admits has been applied from the request\'s value of it',
               'links and entities are read by page', 'a link to the next page carries the options of the page',
               'the options are checked against the form of the request before the collection is handed on']
    r.samples = ['%s:%d' % s for s in sorted(cl.sites)]
    r.explanation = 'The handling of a request for a collection was followed on every path from identification to each reading.'
    r.assumptions = ['Subclasses of Server do not override the steps followed.']
    return r


class Identifying(Client):
    """GetResource: what is returned as a collection was checked against the rules of a collection"""
    init_facts = frozenset()
    max_states = 300

    def __init__(self, prog, r, coll):
        self.prog, self.r, self.coll, self.passed = prog, r, coll, False
        self.checked = set()

    def relevant(self, ip, func):
        return self.passed and func.cls is not None and func.cls.name == 'Server'

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr in ('OpenCollection', 'Execute'):
            v = av(('inst', self.coll, 'res'))
            return [(st.with_facts(frozenset()), v if f.attr == 'OpenCollection' else v | TOP)]
        if f.t == 'Attribute' and f.attr == 'ValidateSystemQueryOptions':
            for a in (args[0] if args else ()):
                if a[0] == 'k':
                    self.checked.add(a[2])
                    return [(st.with_facts(st.facts | set([a[2]])), av(NONE))]
        self.passed = any(is_res(a) for a in args) or any(a[0] == 'inst' and getattr(a[1], 'name', '') == 'ODataURI' for v in args for a in v)
        return None


def identified(prog, r, server, coll):
    f = server.methods.get('GetResource')
    if f is None:
        raise AnalysisBroken('no GetResource')
    cl = Identifying(prog, r, coll)
    out = Interp(prog, cl).run(f)
    n = 0
    for s, v, node in out.ret:
        for a in v:
            if a[0] == 'tup' and a[1] and any(x[0] == 'inst' and len(x) == 3 and x[2] == 'res' for x in a[1][0]):
                n += 1
                if not (s.facts & set([1, 62])):
                    r.add('unchecked', '%s:%d GetResource returns a collection without having checked that the options are those of a collection'
                          % (f.module.rel, node.lineno))
    r.floor('collections_identified', n, 1)


def next_page(prog, r, coll):
    """the link to the next page carries what the page was made with"""
    f = coll.find('GetNextPageLocation')
    if f is None:
        raise AnalysisBroken('no GetNextPageLocation')
    me = f.params[0]
    want = {'filter': 'filter', 'expand': 'expand', 'select': 'select', 'orderby': 'orderby', 'top': 'top'}
    cl = NextLink(prog, me)
    out = Interp(prog, cl).run(f)
    n = 0
    for s, v, node in out.ret:
        if all(a == NONE for a in v):
            continue
        n += 1
        for o in sorted(want):
            if ('put', o) not in s.facts and ('none', o) not in s.facts:
                r.add('next|' + o, '%s:%d the link to the next page is made without the $%s of the page' % (f.module.rel, node.lineno, o))
        if ('put', 'skiptoken') not in s.facts:
            r.add('next|skiptoken', '%s:%d the link to the next page is made without its $skiptoken' % (f.module.rel, node.lineno))
    r.floor('links_to_next_pages', n, 1)


class NextLink(Client):
    init_facts = frozenset()
    max_states = 300

    def __init__(self, prog, me):
        self.prog, self.me = prog, me

    def relevant(self, ip, func):
        return func.cls is not None and func.cls.name == 'EntityCollection' and func.name not in ('NextSkipToken', 'GetLocation')

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def attr_load(self, ip, fr, st, node, base, path):
        if node.value.t == 'Name' and node.value.id == (fr.func.params or [None])[0] and node.attr in NEED['entities']:
            if ('none', node.attr) in st.facts:
                return [(st, av(NONE))]
            return [(st, av(('either', 'opt', node.attr)))]
        if node.value.t in ('Name', 'Attribute') and (node.value.id if node.value.t == 'Name' else node.value.attr) == 'SystemQueryOption':
            return [(st, av(('optname', node.attr)))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        if node.func.t == 'Attribute' and node.func.attr == 'NextSkipToken':
            return [(st, av(('either', 'opt', 'skiptoken'))), (st, av(NONE))]
        if callee is not None and callee[0] in ('func', 'bound') and self.relevant(ip, callee[1]):
            return None
        o = set()
        for v in args:
            o |= opts(v)
        if o:
            return [(st, frozenset(('either', 'opt', x) for x in o))]       # what is made of it
        return None

    def binop(self, ip, fr, st, node, left, right):
        o = opts(left) | opts(right)
        return frozenset(('either', 'opt', x) for x in o) if o else None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1 and test.comparators[0].t == 'Name' and test.comparators[0].id == 'None':
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            x, absent = test.left, (op in ('Is', 'Eq')) == sense
        elif test.t in ('Name', 'Attribute'):
            x, absent = test, not sense
        else:
            return None
        for s, v in ip.ev(x, st, fr)[:1]:
            o = opts(v)
            if absent and len(o) == 1:
                return [st.with_facts(st.facts | set([('none', next(iter(o)))]))]
        return None

    def subscript_store(self, ip, fr, st, node, base, index, value):
        k = [a[1] for a in index if a[0] == 'optname']
        if len(k) == 1 and value is not None and k[0] in opts(value):
            return st.with_facts(st.facts | set([('put', k[0])]))
        return st
