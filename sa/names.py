"""Whole-package name, attribute, signature and format analysis.

Each rule reports only what would certainly fail when reached: a global name
nothing binds, an attribute a repository module does not have, a method no
class of the hierarchy defines, a call that no candidate callee accepts, a
format string whose conversions do not match its operands, a raise of
something that is no exception."""
import re

from . import model
from .frontend import walk, children, Node
from .model import walk_own, Class, External, dotted, target_names, bound_by

# the names of Python 2.7's __builtin__ module (and of site)
BUILTINS = set('''ArithmeticError AssertionError AttributeError BaseException
BufferError BytesWarning DeprecationWarning EOFError Ellipsis EnvironmentError
Exception False FloatingPointError FutureWarning GeneratorExit IOError
ImportError ImportWarning IndentationError IndexError KeyError
KeyboardInterrupt LookupError MemoryError NameError None NotImplemented
NotImplementedError OSError OverflowError PendingDeprecationWarning
ReferenceError RuntimeError RuntimeWarning StandardError StopIteration
SyntaxError SyntaxWarning SystemError SystemExit TabError True TypeError
UnboundLocalError UnicodeDecodeError UnicodeEncodeError UnicodeError
UnicodeTranslateError UnicodeWarning UserWarning ValueError Warning
ZeroDivisionError __debug__ __doc__ __import__ __name__ __package__ __file__
__path__ __builtins__ abs all any apply basestring bin bool buffer bytearray bytes callable
chr classmethod cmp coerce compile complex copyright credits delattr dict dir
divmod enumerate eval execfile exit file filter float format frozenset getattr
globals hasattr hash help hex id input int intern isinstance issubclass iter
len license list locals long map max memoryview min next object oct open ord
pow print property quit range raw_input reduce reload repr reversed round set
setattr slice sorted staticmethod str sum super tuple type unichr unicode vars
xrange zip'''.split())

EXC = set(x for x in BUILTINS if x.endswith('Error') or x.endswith('Exception') or x in (
    'StopIteration', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'Warning', 'UserWarning',
    'DeprecationWarning'))


class Finding(object):
    def __init__(self, rule, func, module, node, what):
        self.rule, self.module, self.what = rule, module, what
        self.func = func
        self.line = getattr(node, 'lineno', 0)

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.func, self.what)

    def __repr__(self):
        return '%s:%d %s [%s] %s' % (self.module.rel, self.line, self.func, self.rule, self.what)


def scopes(prog, m):
    """yields (qualified name, class or None, function or None, nodes)"""
    for f in m.func_list:
        yield f.qname, f.cls, f, walk_own(f.node)


class Scope(object):
    """names visible in a function through enclosing functions"""


def enclosing_locals(f):
    s = set(f.locals)
    o = f.outer
    while o is not None:
        s |= o.locals
        o = o.outer
    return s


def lambda_params(node):
    out = set()
    for n in walk(node):
        if n.t == 'Lambda':
            for a in n.args.args or []:
                out.update(target_names(a))
        if n.t in ('GeneratorExp', 'ListComp', 'SetComp', 'DictComp'):
            for g in n.generators:
                out.update(target_names(g.target))
    return out


def check_names(prog, stats):
    out = []
    for m in prog.modules.values():
        unknown_star = has_unknown_star(m, set())
        # module and class level code
        def lookup(name):
            return prog.resolve_global(m, name) is not None or name in BUILTINS
        for n in module_level(m):
            if n.t == 'Name' and n.ctx == 'Load':
                stats['names'] = stats.get('names', 0) + 1
                if not lookup(n.id) and not unknown_star and n.id not in getattr(n, '_cls_names', ()):
                    out.append(Finding('unbound-name', m.name, m, n, n.id))
        for q, cls, f, nodes in scopes(prog, m):
            loc = enclosing_locals(f) | lambda_params(f.node)
            for n in nodes:
                for x in ([n] if n.t != 'Lambda' else walk(n.body)):
                    if x.t == 'Name' and x.ctx == 'Load':
                        stats['names'] = stats.get('names', 0) + 1
                        if x.id in loc or lookup(x.id):
                            continue
                        if unknown_star:
                            stats['unknown_via_star'] = stats.get('unknown_via_star', 0) + 1
                            continue
                        out.append(Finding('unbound-name', q, m, x, x.id))
                    elif x.t == 'Attribute':
                        b = module_of(prog, m, x.value, loc)
                        if b is not None:
                            stats['module_attrs'] = stats.get('module_attrs', 0) + 1
                            if prog.resolve_mod_attr(b, x.attr) is None and x.attr not in ('__name__', '__file__', '__doc__', '__path__'):
                                if has_unknown_star(b, set()):
                                    continue
                                out.append(Finding('module-attribute', q, m, x, '%s.%s' % (dotted(x.value), x.attr)))
        for n in module_level(m):
            if n.t == 'Attribute':
                b = module_of(prog, m, n.value, ())
                if b is not None:
                    stats['module_attrs'] = stats.get('module_attrs', 0) + 1
                    if prog.resolve_mod_attr(b, n.attr) is None and n.attr not in ('__name__', '__file__', '__doc__'):
                        out.append(Finding('module-attribute', m.name, m, n, '%s.%s' % (dotted(n.value), n.attr)))
    return out


def has_unknown_star(m, seen):
    """a star import from a module whose exports are not known"""
    if m.name in seen:
        return False
    seen.add(m.name)
    return any(s not in model.STAR_EXPORTS for s in m.star_ext) or any(has_unknown_star(s, seen) for s in m.stars)


def module_level(m):
    """nodes of module level and class level code"""
    def body(b, clsnames):
        for s in b:
            stack = [s]
            while stack:
                x = stack.pop()
                x._cls_names = clsnames
                yield x
                if x.t in ('FunctionDef', 'Lambda'):
                    for d in (getattr(x, 'decorator_list', None) or []) + (x.args.defaults or []):
                        stack.append(d)
                    continue
                if x.t == 'ClassDef':
                    c = x._class
                    names = set(c.methods) | set(c.attrs) | set(clsnames)
                    for bb in x.bases or []:
                        for y in walk(bb):
                            y._cls_names = clsnames
                            yield y
                    for y in body(x.body, names):
                        yield y
                    continue
                stack.extend(children(x))
    return body(m.tree.body, ())


def module_of(prog, m, e, loc):
    d = dotted(e)
    if d is None:
        return None
    if d.split('.')[0] in loc:
        return None
    r = prog.resolve_expr(m, e)
    if r and r[0] == 'mod':
        return r[1]
    return None


# ---------------------------------------------------------------- attributes

def attribute_universe(prog):
    """attribute names some code creates on an object other than its own
    receiver: assignments to x.attr and setattr with constant names"""
    uni = set()
    for m in prog.modules.values():
        for f in m.func_list:
            o = f
            while o.cls is None and o.outer is not None:
                o = o.outer
            me = o.params[0] if o.cls is not None and o.params and not o.is_static else None
            for n in walk_own(f.node):
                if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore'):
                    if not (n.value.t == 'Name' and n.value.id == me):
                        uni.add(n.attr)
                elif n.t == 'Call' and n.func.t == 'Name' and n.func.id == 'setattr' and len(n.args) >= 2:
                    if n.args[1].t == 'Str':
                        uni.add(str(n.args[1].s))
        for n in module_level(m):
            if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore'):
                uni.add(n.attr)
    return uni


# attributes every object / function / class has
OBJECT_ATTRS = set('''__class__ __dict__ __doc__ __module__ __name__ __init__ __str__ __unicode__ __repr__
__getattribute__ __setattr__ __delattr__ __hash__ __eq__ __ne__ __cmp__ __new__ __bases__ __subclasses__
message args'''.split())


def class_members(c, cache):
    """names of c, its ancestors and its descendants, or None when the class
    is open (external base other than exceptions/object, __getattr__)"""
    if c in cache:
        return cache[c]
    names = set(OBJECT_ATTRS)
    open_ = False
    for d in c.all_subclasses():
        for e in d.mro:
            names |= set(e.methods) | set(e.attrs)
            own = cache.get(('own', e))
            if own is None:
                own = set()
                for f in e.methods.values():
                    for n in walk_own(f.node):
                        if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore') and n.value.t == 'Name' \
                                and f.params and n.value.id == f.params[0]:
                            own.add(n.attr)
                cache[('own', e)] = own
            names |= own
            if '__getattr__' in e.methods:
                open_ = True
            for b in e.bases:
                if isinstance(b, External) and b.name != 'object' and b.name not in EXC:
                    open_ = True
    cache[c] = None if open_ else names
    return cache[c]


def check_self_attrs(prog, stats):
    out = []
    uni = attribute_universe(prog)
    cache = {}
    # attributes created from outside: XML content models use setattr with computed names;
    # class level XMLATTR_/XMLCONTENT declarations name them
    declared = set()
    for c in prog.classes():
        for name, v in c.attrs.items():
            if name.startswith('XMLATTR_') and v is not None:
                if v.t == 'Str':
                    declared.add(str(v.s))
                elif v.t == 'Tuple' and v.elts and v.elts[0].t == 'Str':
                    declared.add(str(v.elts[0].s))
    for m in prog.modules.values():
        for f in m.func_list:
            o = f
            while o.cls is None and o.outer is not None:
                o = o.outer
            cls = o.cls
            if cls is None or o.is_static or not o.params:
                continue
            me = o.params[0]
            if f is not o and me in f.locals:
                continue
            if o.is_classmethod:
                continue
            # self rebound?
            if any(n.t == 'Name' and n.id == me and n.ctx == 'Store' for n in walk_own(o.node)):
                continue
            names = class_members(cls, cache)
            if names is None:
                continue
            guarded = hasattr_names(f)
            for n in walk_own(f.node):
                if n.t == 'Attribute' and n.ctx == 'Load' and n.value.t == 'Name' and n.value.id == me:
                    stats['self_attrs'] = stats.get('self_attrs', 0) + 1
                    if n.attr in names or n.attr in uni or n.attr in declared or n.attr in guarded:
                        continue
                    out.append(Finding('no-such-attribute', f.qname, m, n, 'self.' + n.attr))
    # any attribute at all that nothing in the package or on a builtin object has
    return out


def hasattr_names(f):
    out = set()
    for n in walk_own(f.node):
        if n.t == 'Call' and n.func.t == 'Name' and n.func.id in ('hasattr', 'getattr') and len(n.args) >= 2 \
                and n.args[1].t == 'Str':
            out.add(str(n.args[1].s))
    return out


# ---------------------------------------------------------------- signatures

def stored_attrs(m):
    r = getattr(m, '_stored_attrs', None)
    if r is None:
        r = m._stored_attrs = frozenset(n.attr for n in walk(m.tree) if n.t == 'Attribute' and n.ctx == 'Store')
    return r


def callee_candidates(prog, f, cls, call, loc):
    """functions a call certainly goes to -> list of (Func, bound?) or None.
    For self.m(): the definition in the class and every override in its
    subclasses (the call is wrong only when the class' own one rejects it and
    every override does)"""
    m = f.module if f else None
    fn = call.func
    if fn.t == 'Name':
        if fn.id in loc:
            # nested function
            o = f
            while o is not None:
                defs = [n for n in walk_own(o.node) if n.t == 'FunctionDef' and n.name == fn.id]
                binds = [n for n in walk_own(o.node) if fn.id in bound_by(n)]
                if len(defs) == 1 and len(binds) == 1 and fn.id not in o.params:
                    return [(defs[0]._func, False)]
                if fn.id in o.locals:
                    return None
                o = o.outer
            return None
        k = prog.resolve_global(m, fn.id)
    elif fn.t == 'Attribute':
        v = fn.value
        # super(C, self).m
        if v.t == 'Call' and v.func.t == 'Name' and v.func.id == 'super' and len(v.args) == 2:
            k = prog.resolve_expr(m, v.args[0], loc)
            if k and k[0] == 'class':
                c = k[1]
                t = c.find_after(c, fn.attr)
                if t is not None:
                    return [(t, not t.is_static)]
            return None
        if v.t == 'Name' and f is not None and v.id in loc:
            o = f
            while o.cls is None and o.outer is not None:
                o = o.outer
            if o.cls is not None and o.params and not o.is_static and v.id == o.params[0] \
                    and not o.is_classmethod:
                if o is not f and v.id in f.locals:
                    return None
                out = []
                t = o.cls.find(fn.attr)
                if t is not None:
                    out.append((t, not t.is_static))
                seen = set([t])
                for d in o.cls.all_subclasses():
                    t2 = d.methods.get(fn.attr)
                    if t2 is not None and t2 not in seen:
                        seen.add(t2)
                        out.append((t2, not t2.is_static))
                # instance attribute shadows the method?
                if fn.attr in stored_attrs(m):
                    return None
                return out or None
            return None
        k = prog.resolve_expr(m, fn, loc)
    else:
        return None
    if k is None:
        return None
    if k[0] == 'func':
        if any(d not in ('staticmethod',) for d in k[1].decorators):
            return None
        return [(k[1], False)]
    if k[0] == 'class':
        init = k[1].find('__init__')
        if k[1].find('__new__') is not None:
            return None
        if init is None:
            return None
        return [(init, True)]
    if k[0] == 'method':
        t = k[2]
        if t.is_static:
            return [(t, False)]
        if t.is_classmethod:
            return [(t, True)]
        return [(t, False)]
    return None


def accepts(f, call, bound):
    """None when the call fits, else the reason"""
    a = f.node.args
    params = list(a.args or [])
    nargs = len(call.args or [])
    kws = [k.arg for k in call.keywords or []]
    star = call.starargs is not None
    kwstar = call.kwargs is not None
    names = [p.id if p.t == 'Name' else None for p in params]
    ndef = len(a.defaults or [])
    pos = nargs + (1 if bound else 0)
    if pos > len(params) and not a.vararg:
        return 'too many arguments (%d given, at most %d)' % (pos, len(params))
    filled = set(names[:pos])
    for k in kws:
        if k in names:
            if k in filled:
                return 'argument %s given twice' % k
            filled.add(k)
        elif not a.kwarg:
            return 'unexpected keyword %s' % k
    if star or kwstar:
        return None
    required = names[:len(params) - ndef]
    for i, r in enumerate(required):
        if i < pos:
            continue
        if r not in filled:
            return 'missing argument %s' % r
    return None


def check_calls(prog, stats):
    out = []
    for m in prog.modules.values():
        for f in m.func_list:
            loc = enclosing_locals(f) | lambda_params(f.node)
            for n in walk_own(f.node):
                if n.t != 'Call':
                    continue
                c = callee_candidates(prog, f, f.cls, n, loc)
                if not c:
                    continue
                stats['calls_resolved'] = stats.get('calls_resolved', 0) + 1
                why = [accepts(t, n, b) for t, b in c]
                # the statically named target decides; overrides must agree too
                if why[0] is not None and all(w is not None for w in why):
                    out.append(Finding('call-signature', f.qname, m, n, '%s(): %s' % (
                        dotted(n.func) or n.func.attr, why[0])))
            # super() misuse
            for n in walk_own(f.node):
                if n.t == 'Call' and n.func.t == 'Name' and n.func.id == 'super' and len(n.args) == 2 \
                        and f.cls is not None:
                    k = prog.resolve_expr(m, n.args[0], loc)
                    stats['super_calls'] = stats.get('super_calls', 0) + 1
                    if k and k[0] == 'class' and not f.cls.is_subclass(k[1]):
                        out.append(Finding('super-class', f.qname, m, n, 'super(%s) in unrelated class %s' % (k[1].name, f.cls.name)))
                if n.t == 'Attribute' and n.value.t == 'Call' and n.value.func.t == 'Name' \
                        and n.value.func.id == 'super' and len(n.value.args) == 2:
                    k = prog.resolve_expr(m, n.value.args[0], loc)
                    if k and k[0] == 'class' and not k[1].external_bases:
                        c = k[1]
                        if c.find_after(c, n.attr) is None and n.attr not in OBJECT_ATTRS:
                            if any(n.attr in e.attrs for e in c.mro[1:]):
                                continue
                            # mixin: another base in a subclass' MRO may supply it
                            if any(d.find_after(c, n.attr) for d in c.all_subclasses()):
                                continue
                            out.append(Finding('super-attribute', f.qname, m, n, 'super(%s).%s' % (c.name, n.attr)))
    return out


# ---------------------------------------------------------------- formats
FMT = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)', re.S)


def fmt_arity(s):
    n = 0
    keyed = False
    pos = 0
    while True:
        i = s.find('%', pos)
        if i < 0:
            break
        mo = FMT.match(s, i)
        if not mo:
            return None, 'incomplete format'
        pos = mo.end()
        if mo.group('c') == '%':
            continue
        if mo.group('c') not in 'diouxXeEfFgGcrs':
            return None, 'unknown conversion %%%s' % mo.group('c')
        if mo.group('key') is not None:
            keyed = True
            continue
        n += 1
        n += (mo.group('w') == '*') + (mo.group('p') == '*')
    return (None if keyed else n), None


def check_formats(prog, stats):
    out = []
    for m in prog.modules.values():
        consts = {}
        for name, k in m.names.items():
            if k[0] == 'var' and len(k[1]) == 1 and k[1][0] is not None and k[1][0].t == 'Str':
                consts[name] = str(k[1][0].s)
        for f in m.func_list:
            loc = enclosing_locals(f)
            for n in walk_own(f.node):
                if n.t == 'BinOp' and n.op == 'Mod':
                    s = None
                    if n.left.t == 'Str':
                        s = str(n.left.s)
                    elif n.left.t == 'Name' and n.left.id in consts and n.left.id not in loc:
                        s = consts[n.left.id]
                    if s is None:
                        continue
                    stats['formats'] = stats.get('formats', 0) + 1
                    want, err = fmt_arity(s)
                    if err:
                        out.append(Finding('format', f.qname, m, n, '%r: %s' % (s, err)))
                        continue
                    if want is None:
                        continue
                    if n.right.t == 'Tuple':
                        have = len(n.right.elts)
                    elif n.right.t in ('Str', 'Num', 'Dict', 'BoolOp', 'Compare', 'List', 'ListComp', 'Repr') or (
                            n.right.t == 'Call' and n.right.func.t == 'Name' and n.right.func.id in ('repr', 'str', 'unicode', 'len', 'int', 'hex')):
                        have = 1
                        if n.right.t == 'Dict' and want == 0:
                            continue
                    else:
                        # a single value: fine for one conversion; might be a tuple otherwise
                        if want == 0 or want == 1:
                            have = 1
                        else:
                            have = None if may_be_tuple(n.right) else 1
                    if have is not None and have != want:
                        out.append(Finding('format', f.qname, m, n, '%r takes %d, given %d' % (s, want, have)))
                elif n.t == 'Call' and n.func.t == 'Attribute' and n.func.attr in (
                        'debug', 'info', 'warn', 'warning', 'error', 'critical', 'exception') \
                        and n.func.value.t == 'Name' and n.func.value.id == 'logging' and n.args \
                        and n.args[0].t == 'Str' and n.starargs is None:
                    s = str(n.args[0].s)
                    want, err = fmt_arity(s)
                    stats['formats'] = stats.get('formats', 0) + 1
                    have = len(n.args) - 1
                    if want is not None and have and have != want:
                        out.append(Finding('format', f.qname, m, n, 'logging %r takes %d, given %d' % (s, want, have)))
    return out


def may_be_tuple(e):
    return e.t in ('Name', 'Call', 'Attribute', 'Subscript', 'BinOp', 'IfExp')


def check_operands(prog, stats):
    """operators certain to fail on the types their operands visibly have, and raises of
    things that are no exception"""
    out = []
    for m in prog.modules.values():
        for f in m.func_list:
            loc = enclosing_locals(f)
            for n in walk_own(f.node):
                if n.t == 'BinOp' and n.op in ('BitAnd', 'BitOr', 'Sub', 'Div', 'BitXor') and (
                        n.left.t == 'Str' or n.right.t == 'Str'):
                    out.append(Finding('operator', f.qname, m, n, 'string operand of %s' % n.op))
                if n.t == 'Call' and n.func.t == 'Name' and n.func.id == 'len' and n.func.id not in loc \
                        and len(n.args) == 1 and n.args[0].t in ('Compare', 'Num'):
                    out.append(Finding('operator', f.qname, m, n, 'len() of a comparison'))
                if n.t == 'Raise' and n.type is not None:
                    stats['raises'] = stats.get('raises', 0) + 1
                    e = n.type
                    if e.t == 'Call':
                        e = e.func
                    if n.type.t in ('Str', 'Num', 'Tuple', 'List', 'Dict', 'BinOp', 'BoolOp', 'Compare', 'UnaryOp',
                                    'ListComp', 'GeneratorExp', 'Lambda'):
                        out.append(Finding('raise', f.qname, m, n, 'raises a %s' % n.type.t))
                        continue
                    if e.t in ('Name', 'Attribute'):
                        if e.t == 'Name' and e.id in loc:
                            continue
                        k = prog.resolve_expr(m, e, loc)
                        if e.t == 'Name' and k is None and e.id in BUILTINS and e.id not in EXC:
                            out.append(Finding('raise', f.qname, m, n, 'raises %s' % e.id))
                        if k and k[0] == 'class' and not is_exception(k[1]):
                            out.append(Finding('raise', f.qname, m, n, 'raises %s, not an exception class' % k[1].name))
                        if k and k[0] in ('func', 'mod') and n.type.t != 'Call':
                            out.append(Finding('raise', f.qname, m, n, 'raises %s' % dotted(e)))
    return out


def is_exception(c):
    for e in c.mro:
        for b in e.bases:
            if isinstance(b, External) and (b.name in EXC or not b.name == 'object' and b.name not in BUILTINS):
                return True
    return False


# ------------------------------------------------ class and library attributes

TYPE_ATTRS = set(dir(type)) | {'__name__', '__module__', '__unicode__', '__cmp__', '__getitem__', '__len__',
                               '__iter__', '__contains__', '__setitem__', '__delitem__', '__del__', 'mro', '__bases__'}
EXT = {}


def ext_tables():
    if not EXT:
        import json
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extattrs.json')) as f:
            d = json.load(f)
        EXT['modules'] = dict((k, set(v)) for k, v in d['modules'].items())
        EXT['attrs'] = set(d['attrs'])
    return EXT


def str_keys(n):
    if n is not None and n.t == 'Dict':
        return set(str(k.s) for k in n.keys if k.t == 'Str')
    return set()


def class_statics(prog):
    """class -> names it certainly or possibly has as a class, None when open"""
    added = {}
    for m in prog.modules.values():
        nodes = [(n, ()) for n in module_level(m)]
        for f in m.func_list:
            loc = enclosing_locals(f)
            nodes.extend((n, loc) for n in walk_own(f.node))
        for n, loc in nodes:
            if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore'):
                k = prog.resolve_expr(m, n.value, loc)
                if k and k[0] == 'class':
                    added.setdefault(k[1], set()).add(n.attr)
            elif n.t == 'Call' and n.args:
                k = prog.resolve_expr(m, n.args[0], loc) if n.args[0].t in ('Name', 'Attribute') else None
                if k and k[0] == 'class':
                    s = added.setdefault(k[1], set())
                    for a in n.args[1:]:
                        s |= str_keys(a)
                    if n.func.t == 'Name' and n.func.id == 'setattr' and len(n.args) > 1:
                        if n.args[1].t == 'Str':
                            s.add(str(n.args[1].s))
                        else:
                            s.add('*')
    cache = {}

    def members(c):
        if c not in cache:
            names = set()
            for e in c.mro:
                names |= set(e.methods) | set(e.attrs) | added.get(e, set())
                for f in e.methods.values():
                    if f.is_classmethod and f.params:
                        for n in walk_own(f.node):
                            if n.t == 'Attribute' and n.ctx in ('Store', 'AugStore') and n.value.t == 'Name' \
                                    and n.value.id == f.params[0]:
                                names.add(n.attr)
                d = e.attrs.get('decode')
                if d is not None:
                    ks = str_keys(d)
                    if d.t != 'Dict':
                        names.add('*')
                    names |= ks | {'encode'}
                for b in e.bases:
                    if isinstance(b, External) and b.name not in ('object',):
                        if b.name in EXC:
                            names |= {'message', 'args'}
                        else:
                            names.add('*')
            names |= set(x.lower() for x in names)
            cache[c] = names
        return cache[c]
    return members


def check_class_attrs(prog, stats):
    out = []
    members = class_statics(prog)
    ext = ext_tables()['modules']
    for m in prog.modules.values():
        groups = [(m.name, module_level(m), ())]
        for f in m.func_list:
            groups.append((f.qname, walk_own(f.node), enclosing_locals(f) | lambda_params(f.node)))
        for q, nodes, loc in groups:
            for n in nodes:
                for x in ([n] if n.t != 'Lambda' else walk(n.body)):
                    if x.t != 'Attribute' or x.ctx != 'Load':
                        continue
                    d = dotted(x.value)
                    if d is None or d.split('.')[0] in loc:
                        continue
                    k = prog.resolve_expr(m, x.value, loc)
                    if k and k[0] == 'class':
                        stats['class_attrs'] = stats.get('class_attrs', 0) + 1
                        names = members(k[1])
                        if x.attr in names or '*' in names or x.attr in TYPE_ATTRS:
                            continue
                        out.append(Finding('class-attribute', q, m, x, '%s.%s' % (d, x.attr)))
                    elif k and k[0] == 'ext' and k[1].name in ext:
                        stats['library_attrs'] = stats.get('library_attrs', 0) + 1
                        if x.attr not in ext[k[1].name]:
                            out.append(Finding('library-attribute', q, m, x, '%s.%s' % (d, x.attr)))
    return out


# attributes of objects made by optional libraries that are not installed here (vobject)
UNTYPED_LIBRARY = {'fn', 'org', 'email', 'tel', 'adr'}


def check_attr_universe(prog, stats):
    """an attribute no class of the package and no builtin or library type has"""
    uni = set(ext_tables()['attrs']) | attribute_universe(prog) | OBJECT_ATTRS
    for m in prog.modules.values():
        uni |= set(m.names)
        for n in walk(m.tree):
            if n.t == 'ClassDef':
                c = n._class if hasattr(n, '_class') else None
                if c is not None:
                    uni |= set(c.methods) | set(c.attrs)
                    uni |= str_keys(c.attrs.get('decode'))
                    for name, v in c.attrs.items():
                        if name.startswith('XMLATTR_') and v is not None:
                            if v.t == 'Str':
                                uni.add(str(v.s))
                            elif v.t == 'Tuple' and v.elts and v.elts[0].t == 'Str':
                                uni.add(str(v.elts[0].s))
            elif n.t == 'Attribute' and n.ctx in ('Store', 'AugStore'):
                uni.add(n.attr)
            elif n.t == 'Call':
                for a in n.args[1:]:
                    uni |= str_keys(a)
                if n.func.t == 'Name' and n.func.id in ('hasattr', 'getattr', 'setattr') and len(n.args) > 1 \
                        and n.args[1].t == 'Str':
                    uni.add(str(n.args[1].s))
            # fields of named tuples
            if n.t == 'Call' and (dotted(n.func) or '').split('.')[-1] == 'namedtuple' and len(n.args) > 1:
                if n.args[1].t == 'Str':
                    uni |= set(str(n.args[1].s).replace(',', ' ').split())
                else:
                    uni |= set(str(e.s) for e in walk(n.args[1]) if e.t == 'Str')
    uni |= UNTYPED_LIBRARY
    uni |= set(x.lower() for x in list(uni))
    out = []
    for m in prog.modules.values():
        for f in m.func_list:
            for n in walk(f.node):
                if n.t == 'Attribute' and n.ctx == 'Load':
                    stats['attribute_reads'] = stats.get('attribute_reads', 0) + 1
                    if n.attr not in uni:
                        k = prog.resolve_expr(m, n.value, enclosing_locals(f)) if n.value.t in ('Name', 'Attribute') else None
                        if k is not None:
                            continue    # reported by a more precise rule
                        out.append(Finding('undefined-attribute', f.qname, m, n, (dotted(n) or n.attr)))
    return out
