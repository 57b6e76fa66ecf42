"""Front end: the syntax trees of the repository's Python 2 sources.

The trees come from Jython's own parser (the one the build and the tests
use), dumped as JSON and rebuilt here as light Node objects.  Nothing of the
repository is executed."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pyslet/pyslet'
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
JYTHON = '/opt/vp/runner/jython.sh'


class FrontEndError(Exception):
    pass


class Node(object):
    """A syntax tree node: t is the node type, fields are attributes"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s@%s>' % (self.t, getattr(self, 'lineno', '?'))


class Lit(object):
    """wrapper for literal payloads"""
    __slots__ = ()


class U(str):
    """unicode literal"""


def _build(d):
    if isinstance(d, list):
        return [_build(x) for x in d]
    if isinstance(d, dict):
        if 't' in d:
            n = Node(d['t'])
            n._fields = []
            for k, v in d.items():
                if k == 't':
                    continue
                if k == 'ln':
                    n.lineno = v
                elif k == 'co':
                    n.col = v
                else:
                    setattr(n, k, _build(v))
                    n._fields.append(k)
            return n
        k = d['k']
        if k == 'i':
            return int(d['v'])
        if k == 'f':
            return float(d['v'])
        if k == 'c':
            return complex(d['v'])
        if k == 'u':
            return U(d['v'])
        return d['v']
    return d


def _fix(n, parent=None):
    """ctx and operator payloads become plain strings; names become str"""
    stack = [n]
    while stack:
        x = stack.pop()
        for f in x._fields:
            v = getattr(x, f)
            if isinstance(v, Node):
                if not v._fields and v.t not in ('Pass', 'Break', 'Continue', 'Ellipsis'):
                    setattr(x, f, v.t)
                else:
                    stack.append(v)
            elif isinstance(v, list):
                out = []
                for y in v:
                    if isinstance(y, Node):
                        if not y._fields and y.t not in ('Pass', 'Break', 'Continue', 'Ellipsis'):
                            out.append(y.t)
                        else:
                            out.append(y)
                            stack.append(y)
                    else:
                        out.append(y)
                setattr(x, f, out)
    return n


def source_files(extra=()):
    pat = os.path.join(REPO, PKG)
    files = sorted(glob.glob(pat + '/*.py') + glob.glob(pat + '/*/*.py'))
    for e in extra:
        files.append(os.path.join(REPO, e))
    return files


def load(files):
    """Returns {filename: (Module node, source text)}"""
    result = {}
    todo = []
    ver = hashlib.sha256(open(os.path.join(HERE, 'dump_ast.py'), 'rb').read()).hexdigest()
    keys = {}
    for f in files:
        with open(f, 'rb') as fh:
            data = fh.read()
        key = hashlib.sha256(ver.encode() + data).hexdigest()
        keys[f] = key
        cf = os.path.join(CACHE, key + '.json')
        if os.path.exists(cf):
            try:
                with open(cf) as fh:
                    rec = json.load(fh)
                result[f] = rec
                continue
            except (ValueError, OSError):
                pass
        todo.append(f)
    if todo:
        fd, out = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        try:
            p = subprocess.run([JYTHON, os.path.join(HERE, 'dump_ast.py'), out] + todo,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise FrontEndError('jython failed: ' + p.stdout.decode('utf-8', 'replace')[-2000:])
            with open(out) as fh:
                for line in fh:
                    rec = json.loads(line)
                    f = rec['file']
                    result[f] = rec
                    if os.environ.get('VERIF_NOCACHE'):
                        continue
                    try:
                        os.makedirs(CACHE, exist_ok=True)
                        tmp = os.path.join(CACHE, keys[f] + '.%d.tmp' % os.getpid())
                        with open(tmp, 'w') as ch:
                            ch.write(line)
                        os.rename(tmp, os.path.join(CACHE, keys[f] + '.json'))
                    except OSError:
                        pass
        finally:
            os.unlink(out)
    trees = {}
    for f in files:
        rec = result.get(f)
        if rec is None:
            raise FrontEndError('no tree for ' + f)
        if 'error' in rec:
            raise FrontEndError('%s does not parse: %s' % (f, rec['error']))
        trees[f] = _fix(_build(rec['tree']))
    return trees


def children(n):
    for f in n._fields:
        v = getattr(n, f)
        if isinstance(v, Node):
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, Node):
                    yield y


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def link(tree):
    """sets .up on every node of the tree"""
    if getattr(tree, '_linked', False):
        return tree
    tree._linked = True
    tree.up = None
    for n in walk(tree):
        for c in children(n):
            c.up = n
    return tree
