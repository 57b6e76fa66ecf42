"""Definite assignment: a local variable is assigned on every path to a read."""
from . import interp
from .model import walk_own
from .interp import Client, Interp, UNBOUND, av, TOP, State


# methods of strings and lists that do not raise on the values they are used with
SAFE_METHODS = set('strip lstrip rstrip lower upper isdigit startswith endswith append extend keys values items'.split())


class DefAssign(Client):
    track_unbound = True
    max_states = 32

    def __init__(self, prog=None):
        self.loads = 0
        self.noret = {}
        self.prog = prog

    def relevant(self, ip, func):
        """enter raise helpers: small functions that raise and never return explicitly"""
        r = self.noret.get(func)
        if r is None:
            nodes = list(walk_own(func.node)) if func.node.t == 'FunctionDef' else []
            r = self.noret[func] = (len(nodes) < 80 and any(n.t == 'Raise' for n in nodes)
                                    and not any(n.t in ('Return', 'Yield') for n in nodes))
        return r

    def call(self, ip, fr, st, node, callee, recv_path, args, kw):
        if callee is not None and callee[0] == 'bound' and fr.depth == 0 and recv_path == (fr.func.params or [None])[0]:
            # a helper some subclass overrides with one that is no raise helper may return
            f = callee[1]
            fs = [c.methods[f.name] for c in callee[3].all_subclasses() if f.name in c.methods]
            if self.relevant(ip, f) and not all(self.relevant(ip, x) for x in fs):
                return [(st, TOP)]
        return None

    def resolve_unknown(self, ip, fr, st, node, name):
        # a raise helper that delegates to another object of its own kind
        if name == fr.func.name and fr.func.cls is not None and self.relevant(ip, fr.func):
            return [fr.func]
        return ()

    def opaque_raises(self, ip, fr, st, node, callee):
        if node.func.t == 'Attribute' and node.func.attr in SAFE_METHODS and (
                callee is None or callee[0] == 'ext'):
            return ()
        return (interp.ANY,)

    def name_load(self, ip, fr, st, node, value):
        if node.id not in fr.func.locals:
            return None
        self.loads += 1
        if UNBOUND in value:
            ip.report(fr, node, 'unbound-local', node.id, key=node.id)
            v = value - {UNBOUND} or TOP
            return [(st.set(node.id, v), v)]
        return None

    def opaque_havoc(self, *a):
        return True


def check(prog, stats, funcs=None):
    c = DefAssign(prog)
    out = []
    for f in funcs or prog.all_funcs:
        if f.node.t != 'FunctionDef':
            continue
        ip = Interp(prog, c)
        ip.run(f)
        for (rule, q, what), text in ip.reports.items():
            out.append((rule, q, what, text))
        stats['statements'] = stats.get('statements', 0) + ip.stats['statements']
        stats['functions'] = stats.get('functions', 0) + 1
    stats['local_reads'] = c.loads
    return out
