"""Program model: modules, imports, classes, methods, name resolution."""
import os

from . import frontend
from .frontend import walk, children


# what a star import of a standard library module brings in
STAR_EXPORTS = {'types': set("""BooleanType BufferType BuiltinFunctionType BuiltinMethodType ClassType
CodeType ComplexType DictProxyType DictType DictionaryType EllipsisType FileType FloatType FrameType
FunctionType GeneratorType GetSetDescriptorType InstanceType IntType LambdaType ListType LongType
MemberDescriptorType MethodType ModuleType NoneType NotImplementedType ObjectType SliceType StringType
StringTypes TracebackType TupleType TypeType UnboundMethodType UnicodeType XRangeType""".split())}


class AnalysisBroken(Exception):
    """An anchor the check depends on cannot be found: no verdict."""


class External(object):
    """something outside the repository (standard library)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'External(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, External) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Func(object):
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name if node.t == 'FunctionDef' else '<lambda>'
        self.decorators = []
        for d in getattr(node, 'decorator_list', None) or []:
            self.decorators.append(dotted(d) or '?')
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self._gen = None
        self._locals = None

    @property
    def qname(self):
        if self.cls:
            return '%s.%s.%s' % (self.module.name, self.cls.name, self.name)
        if self.outer:
            return '%s.%s' % (self.outer.qname, self.name)
        return '%s.%s' % (self.module.name, self.name)

    @property
    def short(self):
        """name without the module"""
        if self.cls:
            return '%s.%s' % (self.cls.name, self.name)
        return self.name

    @property
    def where(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(n.t == 'Yield' for n in walk_own(self.node))
        return self._gen

    @property
    def params(self):
        out = []
        for a in self.node.args.args or []:
            out.append(a.id if a.t == 'Name' else None)
        return out

    @property
    def locals(self):
        if self._locals is None:
            self._locals = local_names(self.node)
        return self._locals

    def __repr__(self):
        return 'Func(%s)' % self.qname


def walk_own(fn):
    """nodes of a function's own body (not of nested functions/classes;
    the nested definition nodes themselves are yielded)"""
    own = getattr(fn, '_own', None)
    if own is None:
        own = fn._own = list(_walk_own(fn))
    return own


def _walk_own(fn):
    stack = list(reversed(fn.body)) if isinstance(fn.body, list) else [fn.body]
    while stack:
        x = stack.pop()
        yield x
        if x.t in ('FunctionDef', 'ClassDef', 'Lambda'):
            # decorators and defaults belong to the enclosing scope
            ds = list(getattr(x, 'decorator_list', None) or [])
            if x.t != 'ClassDef':
                ds += list(x.args.defaults or [])
            else:
                ds += list(x.bases or [])
            stack.extend(reversed(ds))
            continue
        stack.extend(reversed(list(children(x))))


def target_names(t):
    if t.t == 'Name':
        yield t.id
    elif t.t in ('Tuple', 'List'):
        for e in t.elts:
            for x in target_names(e):
                yield x


def local_names(fn):
    """names bound in the function's own scope"""
    names = set()
    globs = set()
    for a in fn.args.args or []:
        names.update(target_names(a))
    if fn.args.vararg:
        names.add(fn.args.vararg)
    if fn.args.kwarg:
        names.add(fn.args.kwarg)
    body = fn.body if isinstance(fn.body, list) else []
    for n in walk_own(fn):
        names.update(bound_by(n))
        if n.t == 'Global':
            globs.update(n.names)
    return names - globs


def bound_by(n):
    """names bound by this one node in its scope"""
    if n.t in ('FunctionDef', 'ClassDef'):
        return [n.name]
    if n.t == 'Name' and n.ctx in ('Store', 'Param', 'AugStore'):
        return [n.id]
    if n.t == 'Name' and n.ctx == 'Del':
        return [n.id]
    if n.t in ('Import', 'ImportFrom'):
        out = []
        for a in n.names:
            if a.name == '*':
                continue
            if n.t == 'Import':
                out.append(a.asname or a.name.split('.')[0])
            else:
                out.append(a.asname or a.name)
        return out
    if n.t == 'ExceptHandler' and n.name is not None:
        return list(target_names(n.name))
    return []


def dotted(e):
    if e.t == 'Name':
        return e.id
    if e.t == 'Attribute':
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


class Class(object):
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.attrs = {}         # class level assignments: name -> value node
        self.bases = []         # Class or External
        self._mro = None
        self.inst_attrs = None
        self.subclasses = []

    @property
    def qname(self):
        return self.module.name + '.' + self.name

    @property
    def mro(self):
        if self._mro is None:
            self._mro = self._c3()
        return self._mro

    def _c3(self):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                    for t in seqs:
                        while c in t[1:]:
                            t.remove(c)
                out.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            return out
        self._mro = [self]      # guards against cyclic nonsense
        parents = [b.mro for b in self.bases if isinstance(b, Class)]
        direct = [b for b in self.bases if isinstance(b, Class)]
        return [self] + merge(parents + [direct])

    @property
    def external_bases(self):
        out = []
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, External) and b.name != 'object':
                    out.append(b.name)
        return out

    def find(self, name):
        """method lookup along the MRO -> Func or None"""
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        seen = False
        for c in self.mro:
            if seen and name in c.methods:
                return c.methods[name]
            if c is cls:
                seen = True
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, other):
        return other in self.mro

    def all_subclasses(self):
        out, todo = [], [self]
        seen = set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            out.append(c)
            todo.extend(c.subclasses)
        return out

    def __repr__(self):
        return 'Class(%s)' % self.qname


class Module(object):
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.rel = os.path.relpath(path, frontend.REPO)
        self.names = {}     # name -> ('class',Class)|('func',Func)|('mod',Module)|('ext',External)|('var',[value nodes])
        self.stars = []     # modules star-imported
        self.ext_star = False
        self.classes = {}
        self.funcs = {}
        self.global_writes = set()
        self.star_ext = []

    def __repr__(self):
        return 'Module(%s)' % self.name


class Program(object):
    def __init__(self, extra=()):
        self.modules = {}
        self.by_rel = {}
        files = frontend.source_files(extra)
        trees = frontend.load(files)
        base = os.path.join(frontend.REPO, 'pyslet')
        for f in files:
            rel = os.path.relpath(f, base)
            if rel.startswith('..'):
                name = 'legacy.' + os.path.splitext(os.path.basename(f))[0]
            else:
                name = os.path.splitext(rel)[0].replace(os.sep, '.')
            is_pkg = name.endswith('.__init__')
            if is_pkg:
                name = name[:-9]
            m = Module(name, f, trees[f], is_pkg)
            self.modules[name] = m
            self.by_rel[m.rel] = m
        for m in self.modules.values():
            self._scan(m)
        self._link()
        self.all_funcs = []
        for m in self.modules.values():
            for fn in m.func_list:
                self.all_funcs.append(fn)

    # ---- module scan
    def _scan(self, m):
        m.func_list = []

        def do_body(body, scope_cls):
            for n in body:
                do_stmt(n, scope_cls)

        def add_func(n, cls, outer=None):
            f = Func(m, n, cls, outer)
            n._func = f
            m.func_list.append(f)
            for x in walk_own(n):
                if x.t == 'FunctionDef':
                    add_func(x, None, f)
                elif x.t == 'Global':
                    m.global_writes.update(x.names)
                elif x.t == 'ClassDef':
                    add_class(x, nested=True)
            return f

        def add_class(n, nested=False):
            c = Class(m, n)
            n._class = c
            for s in n.body:
                do_stmt(s, c)
            if not nested:
                m.classes[n.name] = c
            return c

        def do_stmt(n, cls):
            if n.t == 'FunctionDef':
                f = add_func(n, cls)
                if cls is None:
                    m.funcs[n.name] = f
                    m.names[n.name] = ('func', f)
                else:
                    cls.methods[n.name] = f
                return
            if n.t == 'ClassDef':
                if cls is None:
                    c = add_class(n)
                    m.names[n.name] = ('class', c)
                else:
                    c = add_class(n, nested=True)
                    cls.attrs[n.name] = n
                return
            if n.t == 'Import' and cls is None:
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = self._mod(m, a.name)
                    else:
                        top = a.name.split('.')[0]
                        m.names[top] = self._mod(m, top)
                return
            if n.t == 'ImportFrom' and cls is None:
                src = n.module or ''
                for a in n.names:
                    if a.name == '*':
                        k = self._mod(m, src)
                        if k[0] == 'mod':
                            m.stars.append(k[1])
                        else:
                            m.star_ext.append(src)
                    else:
                        m.names[a.asname or a.name] = ('from', src, a.name)
                return
            # other statements: collect names
            if cls is not None:
                if n.t == 'Assign':
                    for t in n.targets:
                        for x in target_names(t):
                            cls.attrs[x] = n.value
                            if n.value.t == 'Name' and n.value.id in cls.methods:
                                cls.methods[x] = cls.methods[n.value.id]
                for x in walk_own_stmt(n):
                    for b in bound_by(x):
                        cls.attrs.setdefault(b, None)
                return
            if n.t == 'Assign':
                for t in n.targets:
                    for x in target_names(t):
                        k = m.names.get(x)
                        if k and k[0] == 'var':
                            k[1].append(n.value if t.t == 'Name' else None)
                        else:
                            m.names[x] = ('var', [n.value if t.t == 'Name' else None])
                return
            if n.t in ('If', 'TryExcept', 'TryFinally', 'For', 'While', 'With'):
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, f, None)
                    if b:
                        do_body(b, cls)
                for h in getattr(n, 'handlers', None) or []:
                    for b in bound_by(h):
                        m.names.setdefault(b, ('var', [None]))
                    do_body(h.body, cls)
                if n.t == 'For':
                    for b in target_names(n.target):
                        m.names.setdefault(b, ('var', [None]))
                if n.t == 'With' and n.optional_vars is not None:
                    for b in target_names(n.optional_vars):
                        m.names.setdefault(b, ('var', [None]))
                return
            for x in walk_own_stmt(n):
                for b in bound_by(x):
                    m.names.setdefault(b, ('var', [None]))
        do_body(m.tree.body, None)

    def _mod(self, m, name):
        # implicit relative import first (Python 2)
        pkg = m.name if m.is_pkg else m.name.rpartition('.')[0]
        if pkg and pkg + '.' + name in self.modules:
            return ('mod', self.modules[pkg + '.' + name])
        if name in self.modules:
            return ('mod', self.modules[name])
        if name == 'pyslet':
            return ('mod', self.modules['pyslet'])
        return ('ext', External(name))

    def resolve_global(self, m, name, seen=None):
        """name in module m's global scope -> kind tuple or None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        k = m.names.get(name)
        if k is not None:
            if k[0] == 'from':
                src = self._mod(m, k[1])
                if src[0] == 'mod':
                    sub = src[1].name + '.' + k[2]
                    r = self.resolve_global(src[1], k[2], seen)
                    if r is not None:
                        return r
                    if sub in self.modules:
                        return ('mod', self.modules[sub])
                    return None
                return ('ext', External(k[1] + '.' + k[2]))
            return k
        if name in m.global_writes:
            return ('var', [None])
        if not name.startswith('_'):
            for src in m.star_ext:
                if name in STAR_EXPORTS.get(src, ()):
                    return ('ext', External(src + '.' + name))
        for s in reversed(m.stars):
            if name.startswith('_'):
                continue
            r = self.resolve_global(s, name, seen)
            if r is not None:
                return r
        return None

    def resolve_mod_attr(self, mod, attr):
        r = self.resolve_global(mod, attr)
        if r is not None:
            return r
        sub = mod.name + '.' + attr
        if sub in self.modules:
            return ('mod', self.modules[sub])
        return None

    def resolve_expr(self, m, e, local=()):
        """a Name/Attribute expression of globals -> kind tuple or None"""
        if e.t == 'Name':
            if e.id in local:
                return None
            return self.resolve_global(m, e.id)
        if e.t == 'Attribute':
            b = self.resolve_expr(m, e.value, local)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.resolve_mod_attr(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', External(b[1].name + '.' + e.attr))
            if b[0] == 'class':
                f = b[1].find(e.attr)
                if f:
                    return ('method', b[1], f)
                a = b[1].find_attr(e.attr)
                if a:
                    return ('classattr', a[0], a[1], e.attr)
        return None

    def _link(self):
        for m in self.modules.values():
            for n in walk(m.tree):
                if n.t == 'ClassDef' and hasattr(n, '_class'):
                    c = n._class
                    for b in n.bases or []:
                        k = self.resolve_expr(m, b)
                        if k and k[0] == 'class':
                            c.bases.append(k[1])
                            k[1].subclasses.append(c)
                        else:
                            c.bases.append(External(dotted(b) or '?'))

    # ---- lookups used by the checks
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken('module %s not found' % name)
        return self.modules[name]

    def cls(self, modname, name):
        m = self.module(modname)
        k = self.resolve_global(m, name)
        if not k or k[0] != 'class':
            raise AnalysisBroken('class %s.%s not found' % (modname, name))
        return k[1]

    def func(self, modname, name):
        m = self.module(modname)
        if '.' in name:
            c, f = name.split('.')
            fn = self.cls(modname, c).find(f)
        else:
            k = self.resolve_global(m, name)
            fn = k[1] if k and k[0] == 'func' else None
        if fn is None:
            raise AnalysisBroken('function %s.%s not found' % (modname, name))
        return fn

    def classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c


def walk_own_stmt(n):
    """nodes of one statement excluding nested function/class bodies"""
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if x.t in ('FunctionDef', 'ClassDef', 'Lambda'):
            continue
        stack.extend(children(x))
