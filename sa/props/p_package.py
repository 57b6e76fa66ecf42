"""C25: a content package keeps to its own directory.
C26: temporary directories and open files are released.

C25 follows every path value through the content package: which values are the
directory of the package, which are known to lie inside it (because the
containment test has been passed) and which are not known; every effect on the
file system must be on one known to lie inside."""
import re
from ..frontend import walk, link
from ..interp import Client, Interp, av, const as k, TOP, NONE, ANY, TRUE, FALSE, truth
from ..model import AnalysisBroken, walk_own
from ..result import Result

EMPTY = frozenset()
STR = set(dir(str)) | set(['decode'])
EFFECTS = ('mkdir', 'makedirs', 'remove', 'rmtree', 'unlink', 'rmdir', 'removedirs')
SAME = ('normcase', 'lower', 'upper', 'strip', 'encode', 'decode')
OS_EFFECTS = set('os.remove os.unlink os.mkdir os.makedirs os.rmdir os.removedirs os.rename os.renames os.link os.symlink '
                 'shutil.rmtree shutil.copy shutil.copy2 shutil.copyfile shutil.move shutil.copytree'.split())


def path(kind, new=False):
    return ('tag', kind, new)


def kinds(v):
    return set(a[1] for a in v if a[0] == 'tag' and len(a) == 3)


def only(v, ks):
    return bool(v) and all(a[0] == 'tag' and len(a) == 3 and a[1] in ks for a in v)


def safe(v):
    return only(v, ('root', 'in', 'sub'))


def rel(v):
    return bool(v) and all(a[0] == 'tag' and len(a) == 3 and a[1] == 'rel' or
                           a[0] == 'k' and isinstance(a[2], str) and '/' not in a[2] and '\\' not in a[2] and '..' not in a[2]
                           for a in v)


def new(v):
    return all(a[0] == 'tag' and len(a) == 3 and a[2] for a in v)


def dotted_name(ip, fr, node):
    out = []
    while node.t == 'Attribute':
        out.insert(0, node.attr)
        node = node.value
    if node.t != 'Name':
        return None
    return '.'.join([node.id] + out)


class Base(Client):
    init_facts = EMPTY
    max_states = 300
    max_depth = 6

    def __init__(self, prog, r, pkg):
        self.prog, self.r, self.pkg = prog, r, pkg
        self.family = [pkg] + list(pkg.all_subclasses())
        self.modules = set(c.module for c in self.family)
        self.sites = set()

    def relevant(self, ip, func):
        if func.name in ('PathInPath', 'PackagePath'):
            return False
        return func.module in self.modules and (func.cls is None or func.cls in self.family)

    def bad(self, node, fr, text):
        self.r.add('%s|%s' % (fr.func.qname, text), '%s:%d %s' % (fr.module.rel, getattr(node, 'lineno', 0), text))

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def own(self, fr, x):
        return x.t == 'Name' and fr.func.cls is not None and fr.func.cls in self.family and x.id == (fr.func.params or [None])[0]


class Containment(Base):
    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def attr_load(self, ip, fr, st, node, base, p):
        if self.own(fr, node.value):
            if node.attr == 'dPath':
                return [(st, av(path('root')))]
            if node.attr == 'fileTable':
                return [(st, av(('tag', 'table')))]
        if node.attr == '__class__' and kinds(base):
            return [(st, av(('tag', 'class')))]
        return None

    def truthiness(self, atom):
        if atom[0] == 'tag' and len(atom) == 3 and atom[1] == 'rel':
            return True
        return True if atom[0] == 'tag' else truth(atom)

    def binop(self, ip, fr, st, node, left, right):
        op = node.op if isinstance(node.op, str) else node.op.t
        if op == 'Mod':
            fmt = [a for a in left if a[0] == 'k' and isinstance(a[2], str)]
            if len(fmt) == 1 and len(left) == 1 and '/' not in fmt[0][2] and '\\' not in fmt[0][2] and '..' not in fmt[0][2]:
                convs = re.findall(r'%[#0\- +]*[0-9]*(?:\.[0-9]+)?([a-zA-Z])', fmt[0][2])
                ops = None
                for a in right:
                    if a[0] == 'tup':
                        ops = list(a[1])
                if ops is None:
                    ops = [right]
                if len(ops) == len(convs) and all(c in 'diXxou' or rel(o) for c, o in zip(convs, ops)):
                    return av(path('rel'))
        if op == 'Add' and rel(left) and rel(right) and (kinds(left) or kinds(right)):
            return av(path('rel'))
        return None

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            if op in ('In', 'NotIn') and (op == 'NotIn') == sense:
                v = ip.ev(test.comparators[0], st, fr)[0][1]
                if ('tag', 'table') in v:
                    p = ip.path(test.left)
                    lv = ip.ev(test.left, st, fr)[0][1]
                    if p and only(lv, ('rel',)):
                        return [st.set(p, av(path('rel', True)))]
        return None

    def need(self, node, fr, v, what):
        self.sites.add((fr.func.qname, node.lineno))
        if not safe(v):
            self.bad(node, fr, '%s what has not been found to be inside the directory of the package' % what)

    def need_new(self, node, fr, v, what):
        if not new(v):
            self.bad(node, fr, '%s what has not been found not to exist yet' % what)

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        dn = dotted_name(ip, fr, f)
        if f.t == 'Name' and name in ('unicode', 'str') and args:
            return [(st, args[0])] if only(args[0], ('rel', 'n', 'in', 'sub', 'root')) or rel(args[0]) else None
        if name == 'PathInPath':
            if len(args) < 2 or not only(args[1], ('root',)):
                return [(st, TOP)]
            return self.tested(ip, st, node, args[0])
        if name == 'PackagePath' and f.t == 'Attribute' and self.own(fr, f.value) and args:
            if self.normalises or only(args[0], ('n', 'in', 'sub', 'root')):
                return self.tested(ip, st, node, args[0])
            return [(st, TOP)]
        if dn in OS_EFFECTS:
            for a in args[-1:] if 'copy' in dn else args:
                self.need(node, fr, a, '%s acts on' % dn)
            return [(st, TOP)]
        if name == 'open' or dn in ('open', 'codecs.open', 'file'):
            on_path = f.t == 'Attribute' and dn != 'codecs.open'
            target = ip.ev(f.value, st, fr)[0][1] if on_path else (args or [TOP])[0]
            margs = args if on_path else args[1:]
            mode = margs[0] if margs else kw.get('mode', av(k('r')))
            if not all(a[0] == 'k' and isinstance(a[2], str) and a[2].startswith('r') and '+' not in a[2] for a in mode):
                self.need(node, fr, target, 'the code writes to')
                self.need_new(node, fr, target, 'the code writes to')
            return [(st, TOP)]
        if name == 'ZipFile':
            mode = args[1] if len(args) > 1 else kw.get('mode', av(k('r')))
            if not all(a[0] == 'k' and a[2] == 'r' for a in mode):
                if not (node.args and node.args[0].t == 'Name' and node.args[0].id in fr.func.params):
                    self.need(node, fr, args[0] if args else TOP, 'an archive is written to')
            return [(st, TOP)]
        if f.t != 'Attribute':
            if callee is not None and callee[0] == 'tag' and callee[1] == 'class':
                return [(st, av(path('rel', all(new(a) for a in args))) if args and all(rel(a) for a in args) else TOP)]
            return None
        b = ip.ev(f.value, st, fr)[0][1]
        if k('') in b and name not in STR and kinds(b) | set(a[0] for a in b) == set(['k']):
            self.bad(node, fr, 'the directory of the package itself (an empty relative path) is taken for a file in it (.%s)' % name)
            return [(st, av(path('rel')))]
        if name == '__class__':
            return [(st, av(path('rel', all(new(a) for a in args))) if args and all(rel(a) for a in args) else TOP)]
        if name in EFFECTS and not self.own(fr, f.value):
            if not args or name == 'rmtree':
                self.need(node, fr, b, '%s() acts on' % name)
                return [(st, av(NONE))]
        if name == 'copy' and len(args) == 1:
            self.need(node, fr, args[0], 'a file is copied to')
            self.need_new(node, fr, args[0], 'a file is copied to')
            return [(st, av(NONE))]
        if name in ('rename', 'move') and len(args) == 1:
            self.need(node, fr, b, 'the code moves')
            self.need(node, fr, args[0], 'a file is moved to')
            return [(st, av(NONE))]
        if name == 'exists' and not args:
            if recv_path and safe(b):
                return [(st, av(TRUE)), (st.set(recv_path, frozenset(('tag', a[1], True) for a in b)), av(FALSE))]
            return None
        if name == 'isfile' and not args and recv_path and not kinds(b):
            return [(st.set(recv_path, av(path('file'))), av(TRUE)), (st, av(FALSE))]
        if name == 'join' and args:
            if safe(b) and all(rel(a) for a in args):
                return [(st, av(path('sub', any(only(a, ('rel',)) and new(a) for a in args))))]
            return [(st, TOP)]
        if name == 'normpath':
            if safe(b) or only(b, ('rel',)):
                return [(st, b)]
            return [(st, av(path('n')))]
        if name in ('abspath', 'realpath'):
            return [(st, b if safe(b) and name == 'abspath' else TOP)]
        if name in SAME and kinds(b):
            return [(st, b)]
        if name == 'split' and not args:
            if only(b, ('sub',)):
                return [(st, av(('tup', (av(path('in')), av(path('rel'))))))]
            if kinds(b):
                return [(st, av(('tup', (TOP, av(path('rel')) if only(b, ('rel', 'sub', 'in')) else TOP))))]
            return None
        if name == 'splitext' and not args and only(b, ('rel',)):
            return [(st, av(('tup', (av(path('rel')), av(path('rel'))))))]
        return None

    def tested(self, ip, st, node, v):
        """the containment test: the three answers, with what is known of the argument"""
        p = ip.path(node.args[0])
        inside = root = st
        if p and not safe(v):
            inside, root = st.set(p, av(path('in'))), st.set(p, av(path('root')))
            if only(v, ('file',)):
                return [(inside, av(path('rel'))), (st, av(NONE))]
        return [(inside, av(path('rel'))), (root, av(k(''))), (st, av(NONE))]


class Test(Client):
    """the containment tests themselves: an answer other than None only when some
    ancestor of the (normalised) path was equal to the directory"""
    init_facts = EMPTY

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def relevant(self, ip, func):
        return False

    def attr_load(self, ip, fr, st, node, base, p):
        return [(st, av(('tag', 'parent')))] if node.attr == 'dPath' else None

    def t(self, v):
        return set(a[1] for a in v if a[0] == 'tag')

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            if op in ('Eq', 'NotEq') and (op == 'Eq') == sense:
                a = ip.ev(test.left, st, fr)[0][1]
                b = ip.ev(test.comparators[0], st, fr)[0][1]
                for x, y in ((a, b), (b, a)):
                    if self.t(y) == set(['parent']) and self.t(x) and self.t(x) <= set(['child', 'nchild']):
                        return [st.with_facts(st.facts | set(['equal']) | (set(['norm']) if self.t(x) == set(['nchild']) else set()))]
        return None

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute':
            b = ip.ev(f.value, st, fr)[0][1]
            t = self.t(b)
            if f.attr == 'normpath' and 'child' in t:
                return [(st, av(('tag', 'nchild')))]
            if f.attr in ('normpath', 'normcase') and t:
                return [(st, b)]
            if f.attr == 'split' and t & set(['child', 'nchild']):
                return [(st.with_facts(st.facts - set(['equal', 'norm'])), av(('tup', (b, TOP))))]
        return None


def containment_test(prog, r, f, child, parent):
    env = {child: av(('tag', 'child'))}
    if parent:
        env[parent] = av(('tag', 'parent'))
    cl = Test()
    out = Interp(prog, cl).run(f, env=env, facts=EMPTY)
    norm, ends = True, 0
    for s, v, node in out.ret:
        if all(a == NONE for a in v):
            continue
        ends += 1
        if 'equal' not in s.facts:
            r.add('test|' + f.qname, '%s:%d %s can find a path to be inside without having found it below the directory' % (f.module.rel, node.lineno, f.name))
        if 'norm' not in s.facts:
            norm = False
    r.floor('answers_of_' + f.name, ends, 1)
    return norm


def entries(family):
    """methods no other method of the class calls: the others are judged in their callers' contexts"""
    funcs, called = [], {}
    for c in family:
        for m in c.methods.values():
            funcs.append(m)
            for n in walk_own(m.node):
                if n.t == 'Attribute' and n.value.t == 'Name' and n.value.id == (m.params or [None])[0]:
                    called.setdefault(n.attr, set()).add(m)
    return sorted((f for f in funcs if not (called.get(f.name, set()) - set([f]))), key=lambda f: f.qname), funcs


def analyse_containment(prog, r, pkg):
    mod = pkg.module
    inpath = mod.funcs.get('PathInPath') if hasattr(mod, 'funcs') else None
    cl = Containment(prog, r, pkg)
    pip = [f for f in prog.all_funcs if f.module is mod and f.name == 'PathInPath' and f.cls is None]
    pp = pkg.find('PackagePath')
    if not pip or pp is None:
        raise AnalysisBroken('no containment tests')
    if not containment_test(prog, r, pip[0], pip[0].params[0], pip[0].params[1]):
        r.add('norm|PathInPath', '%s:%d PathInPath compares a path that has not been normalised' % (mod.rel, pip[0].node.lineno))
    cl.normalises = containment_test(prog, r, pp, pp.params[1], None)
    starts, funcs = entries(cl.family)
    entered = set()
    for f in starts:
        ip = Interp(prog, cl)
        ip.run(f, cls=f.cls)
        entered |= ip.entered | set([f])
    for f in funcs:
        if f not in entered and f.name not in ('PackagePath',):
            Interp(prog, cl).run(f, cls=f.cls)
    r.floor('effects_on_files', len(cl.sites), 5)
    r.coverage['methods'] = len(funcs)
    r.samples = ['%s:%d' % s for s in sorted(cl.sites)]
    r.files = sorted(m.rel for m in cl.modules)


class Release(Base):
    """temporary directories are removed and open files closed, however control leaves"""

    def __init__(self, prog, r, pkg):
        Base.__init__(self, prog, r, pkg)
        self.opened, self.made = set(), set()

    def relevant(self, ip, func):
        return func.module in self.modules and (func.cls is None or func.cls in self.family)

    def truthiness(self, atom):
        return True if atom[0] == 'tag' else truth(atom)

    def opaque_raises(self, ip, fr, st, node, callee):
        f = node.func
        if f.t == 'Attribute' and f.attr in ('close', 'rmtree'):
            return ()
        return (ANY,)

    def attr_load(self, ip, fr, st, node, base, p):
        if self.own(fr, node.value):
            if node.attr == 'tempDir':
                known = [v for n, v in [f for f in st.facts if f[0] == 'T']]
                if known:
                    return [(st, av(TRUE if known[0] else FALSE))]
                return [(st.with_facts(st.facts | set([('T', True)])), av(TRUE)), (st.with_facts(st.facts | set([('T', False)])), av(FALSE))]
            if node.attr == 'dPath':
                return [(st, av(('tag', 'dir')))] if ('owed',) in st.facts or ('T', True) in st.facts else None
        return None

    def attr_store(self, ip, fr, st, node, base, p, value):
        if not self.own(fr, node.value) or value is None:
            return st
        f = st.facts
        if node.attr == 'dPath':
            if value == av(('tag', 'made')):
                return st.with_facts(f | set([('tmp',)]))
            if all(a == NONE for a in value):
                if ('owed',) in f:
                    self.bad(node, fr, 'the temporary directory is forgotten without having been removed')
                return st.with_facts(f - set([('tmp',)]))
            if ('T', False) not in f:
                self.bad(node, fr, 'the directory of a package whose directory may be temporary is replaced by another one, which would be removed')
            return st.with_facts(f - set([('tmp',)]))
        if node.attr == 'tempDir':
            g = frozenset(x for x in f if x[0] != 'T')
            yes = any(truth(a) is not False for a in value)
            if yes and ('tmp',) not in f:
                self.bad(node, fr, 'a directory that was not made as a temporary one is marked as temporary, and would be removed')
            if not yes and ('owed',) in f:
                self.bad(node, fr, 'a temporary directory is marked as permanent, and would not be removed')
            return st.with_facts(g | set([('T', yes)]))
        return st

    def handle(self, v):
        return set(a[2] for a in v if a[0] == 'tag' and a[1] == 'handle')

    def drop(self, st, hs):
        return st.with_facts(frozenset(x for x in st.facts if not (x[0] == 'open' and x[1] in hs)))

    def with_enter(self, ip, fr, st, node, ctx, p):
        h = self.handle(ctx)
        return (st, ctx if h else TOP, frozenset(h) or None)

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        name = f.attr if f.t == 'Attribute' else f.id if f.t == 'Name' else None
        dn = dotted_name(ip, fr, f)
        if name == 'mkdtemp':
            self.made.add((fr.func.qname, node.lineno))
            for x in self.opaque_raises(ip, fr, st, node, callee):
                ip.throw(fr, st, x, node)
            return [(st.with_facts(st.facts | set([('owed',)])), av(('tag', 'made')))]
        if name == 'rmtree' and f.t == 'Attribute':
            if self.own(fr, f.value):
                return None
            b = ip.ev(f.value, st, fr)[0][1]
            if f.value.t == 'Attribute' and f.value.attr == 'dPath' and self.own(fr, f.value.value):
                if ('T', True) not in st.facts:
                    self.bad(node, fr, 'the directory of the package is removed though it may not be a temporary one')
            elif b != av(('tag', 'made')) and b != av(('tag', 'dir')):
                self.bad(node, fr, 'a directory tree is removed that is not known to be the temporary one')
                return None
            return [(st.with_facts(st.facts - set([('owed',)])), av(NONE))]
        if (name == 'open' or dn in ('open', 'codecs.open', 'file', 'zipfile.ZipFile') or name == 'ZipFile') and name != 'urlopen':
            h = '%s:%d' % (fr.func.qname, node.lineno)
            self.opened.add((fr.func.qname, node.lineno))
            for x in self.opaque_raises(ip, fr, st, node, callee):
                ip.throw(fr, st, x, node)
            return [(st.with_facts(st.facts | set([('open', h)])), av(('tag', 'handle', h)))]
        if name == 'close' and f.t == 'Attribute' and not args:
            h = self.handle(ip.ev(f.value, st, fr)[0][1])
            if h:
                return [(self.drop(st, h), av(NONE))]
        return None

    def with_exit(self, ip, fr, st, node, token):
        if token and isinstance(token, frozenset):
            return self.drop(st, token)
        return Client.with_exit(self, ip, fr, st, node, token)


def analyse_release(prog, r, pkg):
    cl = Release(prog, r, pkg)
    starts, funcs = entries(cl.family)
    entered, ends = set(), 0

    def leaks(f, s, how, node):
        for x in s.facts:
            if x[0] == 'open':
                r.add('open|%s|%s' % (f.qname, x[1].split(':')[0]), '%s:%d %s can leave open a file or archive it opened at line %s' % (
                    f.module.rel, getattr(node, 'lineno', f.node.lineno), f.name, x[1].split(':')[1]))

    def judge(f, cls):
        ip = Interp(prog, cl)
        init = f.name == '__init__'
        facts = EMPTY
        if f.name == 'Close':
            facts = frozenset([('T', True), ('owed',), ('tmp',)])
        out = ip.run(f, cls=cls, facts=facts)
        entered.update(ip.entered)
        entered.add(f)
        n = 0
        for s, v, node in out.ret:
            n += 1
            leaks(f, s, 'returns', node)
            if f.name == 'Close' and ('owed',) in s.facts:
                r.add('kept|' + f.qname, '%s:%d closing the package can leave its temporary directory behind' % (f.module.rel, getattr(node, 'lineno', f.node.lineno)))
            if f.name != 'Close' and ('owed',) in s.facts and ('T', True) not in s.facts:
                r.add('unmarked|' + f.qname, '%s:%d %s can end with a temporary directory that closing the package will not remove' % (f.module.rel, f.node.lineno, f.name))
        for s, exc, node in out.exc:
            n += 1
            leaks(f, s, 'raises', node)
            if init and ('owed',) in s.facts:
                r.add('failed|' + f.qname, '%s:%d a package that fails to open, because of an error at line %d, leaves its temporary directory behind' % (
                    f.module.rel, f.node.lineno, getattr(node, 'lineno', 0)))
        return n
    close = pkg.find('Close')
    if close is None:
        raise AnalysisBroken('no Close')
    for f in set(starts) | set([close]):
        ends += judge(f, f.cls)
    for f in funcs:
        if f not in entered:
            ends += judge(f, f.cls)
    # files opened for writing anywhere else
    for f in sorted(prog.all_funcs, key=lambda f: f.qname):
        if f.cls in cl.family or f.module.name.startswith('legacy') or f.module.name.endswith('.vfs'):
            continue
        for n in walk_own(f.node):
            if n.t == 'Call' and (n.func.t == 'Name' and n.func.id in ('open', 'file') or n.func.t == 'Attribute' and n.func.attr == 'open'):
                m = [a for a in (n.args or []) + [x.value for x in n.keywords or []] if a.t == 'Str' and re.match(r'^[wa]b?\+?$|^r\+', a.s)]
                if m:
                    ends += judge(f, f.cls)
                    break
    r.floor('temporary_directories', len(cl.made), 2)
    r.floor('opened_files', len(cl.opened), 6)
    r.coverage['ends_of_paths'] = ends
    r.samples = ['%s:%d' % s for s in sorted(cl.opened | cl.made)]
    r.files = sorted(set(m.rel for m in cl.modules))


def analyse(prog, pid, tier):
    r = Result()
    pkg = prog.cls('pyslet.imscpv1p2', 'ContentPackage')
    for c in [pkg] + list(pkg.all_subclasses()):
        link(c.module.tree)
    if pid == 'C26':
        analyse_release(prog, r, pkg)
        r.rules = ['a directory is marked as temporary only when it is the one mkdtemp made, and only a directory so marked is removed',
                   'opening a package that fails removes the temporary directory; so does closing the package',
                   'a file or archive that is opened is closed on every path']
        r.explanation = 'Every method of the content package, and every function that opens a file to write, was followed along every path, errors at any call included.'
        r.assumptions = ['close() and rmtree() do not raise.', 'XML entities keep the file they read open until they are closed; that is not judged.']
        return r
    analyse_containment(prog, r, pkg)
    r.rules = ['a path is inside after the containment test answered for it, or when joined from the directory and a relative path the test returned',
               'every file that is made, written, copied to or removed is inside; one that is written or copied to was found not to exist',
               'the containment test answers only when an ancestor of the normalised path equals the directory']
    r.explanation = 'Every method of the content package was followed along every path; each effect on the file system was judged by what is known of its path.'
    r.assumptions = ['Symbolic links inside the package directory are not followed out of it.']
    return r
