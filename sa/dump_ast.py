"""Runs under Jython 2.7: parses Python 2 sources with Jython's own parser
and writes each syntax tree as one JSON line.  It imports nothing of the
repository and executes nothing of it.

usage: dump_ast.py OUT FILE..."""
import sys, ast, json


def conv(n):
    if isinstance(n, ast.AST):
        d = {'t': n.__class__.__name__}
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['ln'] = ln
            d['co'] = getattr(n, 'col_offset', 0)
        for f in n._fields or ():
            d[f] = conv(getattr(n, f, None))
        return d
    if isinstance(n, (list, tuple)) or n.__class__.__name__ == 'AstList':
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, unicode):
        return {'v': n, 'k': 'u'}
    if isinstance(n, str):
        return {'v': n.decode('latin-1'), 'k': 's'}
    if isinstance(n, (int, long)):
        return {'v': str(n), 'k': 'i'}
    if isinstance(n, float):
        return {'v': repr(n), 'k': 'f'}
    if isinstance(n, complex):
        return {'v': repr(n), 'k': 'c'}
    return {'v': str(n), 'k': 'op'}


def main():
    out = open(sys.argv[1], 'wb')
    for name in sys.argv[2:]:
        f = open(name, 'rb')
        src = f.read()
        f.close()
        try:
            tree = ast.parse(src, name)
            rec = {'file': name, 'tree': conv(tree)}
        except SyntaxError:
            rec = {'file': name, 'error': str(sys.exc_info()[1])}
        out.write(json.dumps(rec))
        out.write('\n')
    out.close()

main()
