"""C16: loops make progress, and the end of the input is not taken for a character.

Every while loop is followed: two rounds in succession on one path without
consuming input, moving an index, shrinking a container or the like are a loop
that never ends.  Parsers are followed with the current character either there
or not (end of input): using the missing character as a string is an error."""
from ..frontend import walk, link, children
from ..interp import Client, Interp, State, av, TOP, NONE, TRUTHY, FALSY, TRUE, FALSE, truth, ANY
from ..model import AnalysisBroken, walk_own, dotted
from ..result import Result

EMPTY = frozenset()
CAP = 5
CURSOR = ('theChar', 'cWord')
STEP = set('''pop popitem popleft remove next read readline readlines recv wait join select acquire get getline sleep write seek
poll send flush clear __next__ discard insert'''.split())
CH = av(TRUTHY)
END = av(NONE)


def counts(st):
    return dict(st.facts)


def pack(d):
    return frozenset(d.items())


def bump(st, n):
    return st.with_facts(frozenset((k, max(0, min(CAP, c + n))) for k, c in st.facts if k[0] != 'no'))


def zero(st):
    return st.with_facts(frozenset((k, 0) for k, c in st.facts if k[0] != 'no'))


def root_path(x):
    while x.t == 'Subscript':
        x = x.value
    return dotted(x)


def names_in(x):
    """longest dotted names read by an expression"""
    out = set()

    def go(e):
        d = dotted(e) if e.t in ('Name', 'Attribute') else None
        if d:
            out.add(d)
            return
        for c in children(e):
            go(c)
    go(x)
    return out


def related(a, b):
    return a == b or a.startswith(b + '.') or b.startswith(a + '.')


PREDICATE = ('Is', 'is_', 'isdigit', 'Has', 'has', 'Match', 'Test', 'test', 'Check', 'Get', 'get', 'startswith', 'endswith', 'find', 'lower', 'upper', 'strip')


class Info(object):
    """what the exits of a loop depend on"""

    def __init__(self, node):
        self.edges = {}
        seeds = set(names_in(node.test))
        for n in walk(node):
            if n.t in ('If', 'While') and any(x.t in ('Break', 'Return', 'Raise') for x in walk(n)):
                seeds |= names_in(n.test)
            elif n.t == 'Assign':
                for t in n.targets:
                    for e in (t.elts if t.t in ('Tuple', 'List') else [t]):
                        p = root_path(e)
                        if p:
                            self.edges.setdefault(p, set()).update(names_in(n.value))
            elif n.t == 'AugAssign':
                p = root_path(n.target)
                if p:
                    self.edges.setdefault(p, set()).update(names_in(n.value) | set([p]))
            elif n.t == 'For':
                for p in names_in(n.target):
                    self.edges.setdefault(p, set()).update(names_in(n.iter))
            elif n.t == 'Call' and n.func.t == 'Attribute':
                p = root_path(n.func.value)
                if p and p != 'self':
                    for a in list(n.args or []) + [k.value for k in n.keywords or []]:
                        self.edges.setdefault(p, set()).update(names_in(a))
        self.deps = self.closure(seeds)

    def closure(self, start):
        seen, work = set(start), list(start)
        while work:
            x = work.pop()
            for k, v in self.edges.items():
                if related(k, x):
                    for y in v:
                        if y not in seen:
                            seen.add(y)
                            work.append(y)
        return seen

    def moves(self, node):
        """something in the loop changes what its exits depend on, or takes something in"""
        for n in [x for s in node.body for x in walk(s)]:
            if n.t in ('Yield',):
                return True
            if n.t == 'AugAssign' and self.depends(root_path(n.target) or ''):
                return True
            if n.t == 'Delete' and any(self.depends(root_path(t) or '') for t in n.targets):
                return True
            if n.t == 'Assign':
                for t in n.targets:
                    for e in (t.elts if t.t in ('Tuple', 'List') else [t]):
                        p = root_path(e)
                        if p and self.depends(p) and (e.t == 'Subscript' or any(c.t == 'Call' for c in walk(n.value)) or self.fed_by(n.value, p) or
                                                      not names_in(n.value)):
                            return True
            if n.t == 'Call':
                f = n.func
                if f.t == 'Attribute' and f.attr in STEP or f.t == 'Name' and f.id == 'next':
                    return True
                if f.t == 'Attribute' and not f.attr.startswith(PREDICATE) and self.depends(dotted(f.value) or ''):
                    return True
        return any(n.t == 'Call' and n.func.t == 'Attribute' and not n.func.attr.startswith(PREDICATE) for n in walk(node.test))

    def depends(self, path):
        return any(related(path, d) for d in self.deps)

    def fed_by(self, value, path):
        return any(related(path, d) for d in self.closure(names_in(value)))


class Loops(Client):
    max_states = 64
    max_depth = 40
    init_facts = EMPTY

    def __init__(self, prog, r, parsers, found, loops):
        self.prog, self.r, self.parsers, self.found, self.loops = prog, r, parsers, found, loops
        self.rounds = 0
        self.infos = {}
        self.table, self.deps, self.queue, self.queued, self.current_key = {}, {}, [], set(), None
        self.ends = set()

    # ------------------------------------------------------------ what is followed
    def relevant(self, ip, func):
        return False

    def followed(self, func):
        if func.cls is not None:
            return func.cls in self.parsers or func.name == 'Test' and func.cls.name == 'CharClass'
        return func.name.startswith('Is') and len(func.params) == 1

    def opaque_raises(self, ip, fr, st, node, callee):
        return ()

    def opaque_havoc(self, ip, fr, st, node, recv_path, args):
        return False

    def key_extra(self, st, fr):
        lens = self.lens(fr.func)
        return tuple(sorted((p, NONE in v, len(v) > 1) for p, v in st.env.items() if p.rpartition('.')[2] in CURSOR)), tuple(
            sorted((p, st.env.get(p) == av(FALSY)) for p in lens))

    def literals(self, func):
        if getattr(func, '_literals', None) is None:
            func._literals = set(x.s for x in walk_own(func.node) if x.t == 'Str' and len(x.s) <= 3)
        return func._literals

    def lens(self, func):
        if getattr(func, '_lens', None) is None:
            func._lens = set(x.args[0].id for n in walk_own(func.node) if n.t == 'Compare' for x in walk(n) if x.t == 'Call' and x.func.t == 'Name'
                             and x.func.id == 'len' and len(x.args or []) == 1 and x.args[0].t == 'Name')
        return func._lens

    # ------------------------------------------------------------ summaries
    def coarse(self, v):
        out = set()
        for a in v:
            if a[0] == 'k' and a[1] not in ('bool', 'int') and not (isinstance(a[2], str) and len(a[2]) <= 3):
                a = TRUTHY if a[2] else FALSY
            elif a[0] == 'pos':
                a = TRUTHY
            elif a[0] not in ('none', 'truthy', 'falsy', 'k', 'bound', 'func', 'inst', 'class', 'either', 'ext'):
                a = TRUTHY if truth(a) else FALSY if truth(a) is False else ('either',)
            out.add(a)
        if len(out) > 6:
            return TOP
        return frozenset(out)

    def summary(self, key):
        if self.current_key is not None:
            self.deps.setdefault(key, set()).add(self.current_key)
        if key not in self.table:
            self.table[key] = frozenset()
            self.queue.append(key)
            self.queued.add(key)
        return self.table[key]

    def settle(self, ip):
        n = 0
        while self.queue:
            key = self.queue.pop(0)
            self.queued.discard(key)
            new = self.solve(ip, key)
            n += 1
            if new != self.table[key]:
                self.table[key] = new
                for d in self.deps.get(key, ()):
                    if d not in self.queued:
                        self.queued.add(d)
                        self.queue.append(d)
        return n

    def solve(self, ip, key):
        func, cls, kind, args = key
        env = dict(args)
        cur = None
        if kind is not None:
            cur = '%s.%s' % (func.params[0], kind[0])
            env[cur] = kind[1]
        self.current_key = key
        no = [(('no', cur, x), 0) for x in (kind[2] if kind is not None and len(kind) > 2 else ())]
        out = ip.run(func, cls=cls, env=env, facts=frozenset([(('caller',), 0)] + no))
        self.current_key = None
        res = set()
        for w, lst in (('ret', out.ret), ('exc', out.exc)):
            for st, v, node in lst:
                k = st.env.get(cur) if cur else None
                kk = None if k is None else k if kind and k == kind[1] and len(k) == 1 and dict(st.facts).get(('caller',), 0) == 0 else END if k == END else CH if NONE not in k else None
                res.add((w, self.coarse(v) if w == 'ret' else v, min(3, dict(st.facts).get(('caller',), 0)), kk))
        return frozenset(res)

    def apply(self, ip, fr, st, node, func, cls, recv_path, args, kw, bound):
        params = list(func.params)
        if bound:
            params = params[1:]
        env = {}
        for i, v in enumerate(args):
            if i < len(params) and params[i]:
                env[params[i]] = self.coarse(v)
        for k, v in kw.items():
            env[k] = self.coarse(v)
        nd = func.node.args.defaults or []
        for i, p in enumerate(func.params):
            j = i - (len(func.params) - len(nd))
            if p and j >= 0 and p not in env and node.starargs is None and node.kwargs is None:
                env[p] = self.coarse(ip.const_value(nd[j]))
        env = tuple(sorted(((k, v) for k, v in env.items() if v != TOP), key=lambda x: x[0]))
        if func.cls is None or func.cls not in self.parsers or not recv_path:
            starts = [(st, None, None)]
        else:
            c = CURSOR[1] if any(k.name == 'WordParser' for k in func.cls.mro) else CURSOR[0]
            p = recv_path + '.' + c
            no = tuple(sorted(k[2] for k, n in st.facts if k[0] == 'no' and k[1] == p and k[2] in self.literals(func)))
            starts = [(s, (c, v) + ((no,) if no else ()), p) for s, v in self.current(st, p)]
        out = []
        want = None
        if func.name in ('Match', 'Parse', 'MatchInsensitive') and len(args) == 1 and len(args[0]) == 1:
            a = next(iter(args[0]))
            want = a[2] if a[0] == 'k' and isinstance(a[2], str) and a[2] else None
        for s, kind, p in starts:
            c = next(iter(kind[1])) if kind is not None and len(kind[1]) == 1 else None
            for w, v, moved, k in self.summary((func, cls, kind, env)):
                if want and c is not None and c[0] == 'k' and w == 'ret' and func.name != 'MatchInsensitive':
                    if c[2] == want and all(truth(a) is False for a in v):
                        continue
                    if c[2] != want[0] and all(truth(a) is True for a in v):
                        continue
                q = bump(s, moved) if moved else s
                if want and func.name == 'Match' and len(want) == 1 and w == 'ret' and k == CH and all(truth(a) is True for a in v):
                    k = args[0]
                for q2 in ([q] if p is None else [q.set(p, k)] if k is not None else [x for x, _ in self.both(q, p)]):
                    if w == 'ret':
                        out.append((q2, v))
                    else:
                        ip.throw(fr, q2, v, node)
        return out

    # ------------------------------------------------------------ loops
    def loop_head(self, ip, fr, st, node):
        if node.t != 'While':
            return st
        d = dict(st.facts)
        for k in [k for k in d if k[0] == 'L' and k[1] == node.lineno]:
            if k[3]:
                n = d.pop(k)
                d[('L', node.lineno, k[2], False)] = 0
                break
            del d[k]
        else:
            d[('L', node.lineno, 0, False)] = 0
        self.loops.add((fr.func, node.lineno))
        return st.with_facts(pack(d))

    def loop_back(self, ip, fr, st, node):
        if node.t != 'While':
            return st
        self.rounds += 1
        d = dict(st.facts)
        for k in [k for k in d if k[0] == 'L' and k[1] == node.lineno]:
            n = 0 if d.pop(k) > 0 else k[2] + 1
            if n >= 2:
                at_end = any(v == END for p, v in st.env.items() if p.rpartition('.')[2] in CURSOR)
                self.found.setdefault(('loop', fr.func, node.lineno), (fr, node, 'goes round without end%s: no input is consumed, nothing it depends on changes' % (
                    ' at the end of the input' if at_end else '')))
                return None
            d[('L', node.lineno, n, True)] = 0
        return st.with_facts(pack(d))

    def step(self, fr, st, path):
        """something the exits of loops depend on has changed"""
        if path is None:
            return st
        out = set()
        for k, c in st.facts:
            if k[0] == 'L' and self.loop_info(fr.func, k[1]).depends(path):
                c = min(CAP, c + 1)
            out.add((k, c))
        return st.with_facts(frozenset(out))

    def loop_info(self, func, line):
        k = (func, line)
        if k not in self.infos:
            self.infos[k] = Info([n for n in walk_own(func.node) if n.t == 'While' and n.lineno == line][0])
        return self.infos[k]

    def stmt(self, ip, fr, st, node):
        if node.t == 'AugAssign':
            p = root_path(node.target)
            if p and p.endswith('.pos') and fr.func.cls in self.parsers:
                return bump(st, 1)
            return self.step(fr, st, p)
        if node.t == 'Delete':
            for t in node.targets:
                st = self.step(fr, st, root_path(t))
        if node.t == 'Assign':
            for t in node.targets:
                for p in self.paths(t):
                    out = set()
                    for k, c in st.facts:
                        if k[0] == 'L':
                            i = self.loop_info(fr.func, k[1])
                            if i.depends(p) and i.fed_by(node.value, p):
                                c = min(CAP, c + 1)
                        out.add((k, c))
                    st = st.with_facts(frozenset(out))
        return st

    def subscript_store(self, ip, fr, st, node, base, index, value):
        return self.step(fr, st, root_path(node))

    def attr_store(self, ip, fr, st, node, base, path, value):
        if node.attr == 'element' and fr.func.cls in self.parsers:
            return bump(st, 1)
        return st

    def paths(self, t):
        if t.t in ('Tuple', 'List'):
            return [p for e in t.elts for p in self.paths(e)]
        p = dotted(t)
        return [p] if p else []

    # ------------------------------------------------------------ the current character
    def attr_load(self, ip, fr, st, node, base, path):
        if node.attr in CURSOR and path and path not in st.env and ip.is_tracked(node, fr):
            return [(st.set(path, END), END), (st.set(path, CH), CH)]
        if node.attr == 'pos' and path and self.cursor(node.value):
            p = path.rpartition('.')[0] + '.theChar'
            return [(st, av(('pos', st.facts, st.env.get(p))))]
        if base == END and node.value.t == 'Attribute' and node.value.attr in CURSOR:
            self.missing(fr, node, 'an attribute of the current character is used')
        return None

    def cursor(self, x):
        return x.t in ('Name', 'Attribute')

    def missing(self, fr, node, what):
        self.found.setdefault(('end', fr.func, what), (fr, node, '%s at the end of the input, where there is none' % what))

    def collection(self, fr, name):
        body = walk_own(fr.func.node) if name in fr.func.locals else fr.module.tree.body
        w = [n.value for n in body if n.t == 'Assign' and any(t.t == 'Name' and t.id == name for t in n.targets)]
        return bool(w) and all(x.t in ('Dict', 'List', 'Set', 'Tuple', 'ListComp', 'DictComp') or x.t == 'Call' and x.func.t == 'Name' and
                               x.func.id in ('dict', 'list', 'set', 'frozenset', 'tuple') for x in w)

    def refine(self, ip, fr, st, test, sense):
        if test.t == 'Compare' and len(test.ops) == 1:
            op = test.ops[0] if isinstance(test.ops[0], str) else test.ops[0].t
            l = test.left
            if op in ('In', 'NotIn') and l.t == 'Attribute' and l.attr in CURSOR and st.env.get(ip.path(l)) == END:
                c = test.comparators[0]
                if c.t in ('Str', 'Name', 'BinOp') and not (c.t == 'Name' and (
                        any(a[0] == 'tup' for a in ip.ev(c, st, fr)[0][1]) or self.collection(fr, c.id))):
                    self.missing(fr, test, 'the current character is looked for in a string')
                if (op == 'In') == sense:
                    return []
            if op in ('Eq', 'NotEq') and l.t == 'Attribute' and l.attr == 'theChar' and test.comparators[0].t == 'Str':
                p = ip.path(l)
                fact = (('no', p, test.comparators[0].s), 0)
                if (op == 'Eq') == sense:
                    if fact in st.facts:
                        return []
                elif st.env.get(p) == CH:
                    return [st.with_facts(st.facts | frozenset([fact]))]
            if op in ('Eq', 'NotEq') and (op == 'Eq') == sense:
                for x, y in ((l, test.comparators[0]), (test.comparators[0], l)):
                    if x.t in ('Attribute', 'Name') and st.env.get(ip.path(x)) == END and y.t == 'Name' and y.id != 'None' and ip.is_tracked(y, fr) is None:
                        return []
            if op in ('Lt', 'GtE', 'Gt', 'LtE') and l.t in ('Name', 'Attribute') and st.env.get(ip.path(l)) == END and (
                    test.comparators[0].t == 'Str' and (op in ('Lt', 'LtE')) != sense):
                return []
            if op in ('Lt', 'GtE', 'Gt', 'LtE') and l.t == 'Call' and l.func.t == 'Name' and l.func.id == 'len' and len(l.args) == 1:
                v = ip.ev(l.args[0], st, fr)[0][1]
                n = [a[2] for a in ip.ev(test.comparators[0], st, fr)[0][1] if a[0] == 'k' and isinstance(a[2], int)]
                if len(n) == 1:
                    if v == av(FALSY) and {'Lt': 0 < n[0], 'GtE': 0 >= n[0], 'Gt': 0 > n[0], 'LtE': 0 <= n[0]}[op] != sense:
                        return []
                    if v == av(TRUTHY) and n[0] <= 1 and {'Lt': False, 'GtE': True}.get(op, sense) != sense:
                        return []
        return None

    def binop(self, ip, fr, st, node, left, right):
        for x, v in ((node.left, left), (node.right, right)):
            if v == END and x.t == 'Attribute' and x.attr in CURSOR and node.op == 'Add':
                self.missing(fr, node, 'the current character is appended to a string')
        return None

    def both(self, st, p):
        return [(st.set(p, END), TOP), (st.set(p, CH), TOP)]

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        f = node.func
        if f.t == 'Attribute' and f.attr in ('NextChar', 'ParseLiteral', 'BuffText', 'SetPos', 'PushEntity'):
            r = self.primitive(ip, fr, st, node, recv_path, args)
            if r is not None:
                return r
        if callee is not None and callee[0] in ('func', 'bound') and not callee[1].is_generator and self.followed(callee[1]):
            func = callee[1]
            if callee[0] == 'bound':
                return self.apply(ip, fr, st, node, func, callee[3], callee[2], args, kw, True)
            if func.cls is not None and not func.is_static and node.args:
                c0 = [a[1] for a in args[0] if a[0] == 'inst']
                return self.apply(ip, fr, st, node, func, c0[0] if c0 else func.cls, ip.path(node.args[0]), args[1:], kw, True)
            return self.apply(ip, fr, st, node, func, func.cls, None, args, kw, False)
        if f.t == 'Name':
            if f.id in ('ord', 'len') and args and args[0] == END:
                if f.id == 'ord':
                    self.missing(fr, node, 'the code of the current character is taken')
                    return []
            if f.id == 'next':
                return [(bump(st, 1), TOP)]
            s = self.handed_over(ip, fr, st, node)
            return None if s is st else [(s, TOP)]
        if f.t != 'Attribute':
            return None
        name = f.attr
        if name in ('append', 'join') and recv_path:
            if name == 'join' and recv_path == 'string' and args:
                if args[0] in (av(TRUTHY), av(FALSY)):
                    return [(st, args[0])]
                return [(st, av(TRUTHY, FALSY))]
        if name == 'append' and args and args[0] == END and node.args[0].t == 'Attribute' and node.args[0].attr in CURSOR:
            self.missing(fr, node, 'the current character is appended to a list of strings')
            return []
        if name == 'Test' and callee is None and len(args) == 1:
            c = self.prog.cls('pyslet.unicode5', 'CharClass')
            return self.apply(ip, fr, st, node, c.find('Test'), c, None, args, kw, True)
        if name in ('append', 'extend', 'insert') and recv_path and ip.is_tracked(f.value, fr) and (name == 'append' or args and args[-1] == av(TRUTHY)):
            return [(self.step(fr, st, recv_path).set(recv_path, av(TRUTHY)), av(NONE))]
        if name in STEP:
            return [(bump(st, 1), TOP)]
        st = self.handed_over(ip, fr, st, node)
        if recv_path and not name.startswith(PREDICATE):
            st = self.step(fr, st, recv_path)
        if name in ('PopParser',) and args and any(truth(a) is not False for a in args[0]):
            return self.both(zero(st), recv_path + '.theChar')
        return [(st, TOP)] if callee is None else None

    def handed_over(self, ip, fr, st, node):
        """a parser given to code that is not followed may be anywhere afterwards"""
        for a in node.args or []:
            p = ip.path(a) if a.t in ('Name', 'Attribute') else None
            for k in list(st.env):
                if p and k.rpartition('.')[0] == p and k.rpartition('.')[2] in CURSOR:
                    st = bump(st.drop(k) if hasattr(st, 'drop') else st.set(k, av(NONE, TRUTHY)), 1)
        return st

    def list_display(self, ip, fr, st, node, values):
        return av(TRUTHY if node.elts else FALSY)

    def primitive(self, ip, fr, st, node, recv_path, args):
        name = node.func.attr
        p = (recv_path + '.theChar') if recv_path else None
        if name == 'NextChar' and p and not (fr.func.name == 'NextChar' and recv_path.endswith('.entity')):
            out = []
            for s, v in self.current(st, p):
                if v == END:
                    out.append((s, av(NONE)))
                else:
                    out.extend((q, av(NONE)) for q, _ in self.both(bump(s, 1), p))
            return out
        if name == 'ParseLiteral' and p:
            out = []
            lit = next(iter(args[0])) if args and len(args[0]) == 1 else ANY
            for s, v in self.current(st, p):
                c = next(iter(v)) if len(v) == 1 else ANY
                if c[0] == lit[0] == 'k' and lit[2] and isinstance(lit[2], str):
                    yes, no = c[2] == lit[2][0], c[2] != lit[2]
                else:
                    yes, no = v != END, True
                if lit[0] == 'k' and (('no', p, lit[2]), 0) in s.facts:
                    yes, no = False, True
                if yes:
                    out.extend((q, av(TRUE)) for q, _ in self.both(bump(s, len(lit[2]) if lit[0] == 'k' and isinstance(lit[2], str) and lit[2] else 1), p))
                if no:
                    if lit[0] == 'k' and isinstance(lit[2], str) and len(lit[2]) > 1 and v != END:
                        s = s.with_facts(s.facts | frozenset([(('no', p, lit[2]), 0)]))
                    out.append((s, av(FALSE)))
            return out
        if name == 'PushEntity' and p:
            return self.both(st, p)
        if name == 'BuffText' and p:
            a = args[0] if args else TOP
            n = [len(x[2]) if x[0] == 'k' and isinstance(x[2], str) else None for x in a]
            if len(n) == 1 and n[0] is not None:
                return [(bump(st.set(p, CH), -n[0]), av(NONE))]
            return [(zero(st.set(p, CH)), av(NONE)), (st, av(NONE))]
        if name == 'SetPos' and p and node.args:
            a = args[0]
            out = []
            for x in a:
                if x[0] == 'pos':
                    d = dict(x[1])
                    s = st.with_facts(frozenset((k, d.get(k, 0)) for k, c in st.facts))
                    out.extend([(s.set(p, x[2]), av(NONE))] if x[2] is not None else self.both(s, p))
            if not out:
                e = node.args[0]
                fwd = e.t == 'BinOp' and e.op == 'Add' and any(y.t == 'Attribute' and y.attr == 'pos' for y in walk(e))
                s = bump(st, 1) if fwd and st.env.get(p) != END else st
                out = self.both(s, p)
            return out
        return None

    def current(self, st, p):
        v = st.env.get(p)
        if v is None or NONE in v and v != END:
            return [(st.set(p, END), END), (st.set(p, CH), CH)]
        return [(st, v)]


def analyse(prog, pid, tier):
    r = Result()
    parsers = set()
    for m, c in (('pyslet.unicode5', 'BasicParser'), ('pyslet.xml20081126.parser', 'XMLParser'), ('pyslet.rfc2616_core', 'WordParser')):
        k = prog.cls(m, c)
        parsers |= set(k.all_subclasses()) | set([k])
    found, loops = {}, set()
    n = 0
    files = set()
    want = []
    plain = 0
    other = ('pyslet.rfc2234', 'pyslet.iso8601')       # a parser of their own, with a stack instead of positions
    for f in prog.all_funcs:
        if f.module.name.startswith('legacy'):
            continue
        has = any(x.t == 'While' for x in walk_own(f.node))
        if f.cls in parsers or has and f.module.name not in other and any(x.t == 'Attribute' and x.attr in CURSOR for x in walk_own(f.node)):
            want.append(f)
        elif has:
            files.add(f.module.rel)
            for x in walk_own(f.node):
                if x.t == 'While':
                    plain += 1
                    if not Info(x).moves(x):
                        class fr(object):
                            func = f
                        found[('loop', f, x.lineno)] = (fr, x, 'does not change anything its end depends on')
                        loops.add((f, x.lineno))
    cl = Loops(prog, r, parsers, found, loops)
    ip = Interp(prog, cl)
    import time
    for f in sorted(want, key=lambda f: (f.module.name, f.node.lineno)):
        n += 1
        files.add(f.module.rel)
        if f.cls in parsers and not f.is_static and f.params:
            c = CURSOR[1] if any(k.name == 'WordParser' for k in f.cls.mro) else CURSOR[0]
            for v in (END, CH):
                cl.summary((f, f.cls, (c, v), ()))
        else:
            cl.summary((f, f.cls, None, ()))
    solved = cl.settle(ip)
    r.coverage['contexts'] = len(cl.table)
    r.coverage['evaluations'] = solved
    for (kind, f, what), (fr, node, text) in sorted(found.items(), key=lambda x: (x[0][1].qname, x[1][1].lineno)):
        r.add('%s|%s|%s' % (kind, f.qname, what if kind == 'end' else sum(1 for q, l in loops if q is f and l < node.lineno)),
              '%s:%d in %s: %s' % (f.module.rel, node.lineno, f.qname, ('the loop ' + text) if kind == 'loop' else text))
    r.floor('loops', len(loops), 60)
    r.floor('plain_loops', plain, 30)
    r.floor('parser_classes', len(parsers), 8)
    r.coverage['functions'] = n
    r.coverage['rounds'] = cl.rounds
    r.files = sorted(files)
    r.rules = ['two rounds of a while loop in succession consume input, move an index, shrink a container, read, wait or leave',
               'the current character is not used as a string when it is None (end of input)']
    r.samples = ['%s:%d' % (f.module.rel, l) for f, l in sorted(loops, key=lambda x: (x[0].qname, x[1]))[:10]]
    r.explanation = '%d while loops in %d functions were followed, parsers with and without a current character.' % (len(loops), n)
    r.assumptions = []
    return r
