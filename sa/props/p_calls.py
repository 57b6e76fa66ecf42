"""C02: calls fit their callee, formats fit their operands, raises raise exceptions."""
from .. import names
from ..result import Result


def analyse(prog, pid, tier):
    r = Result()
    st = {}
    for f in names.check_calls(prog, st) + names.check_formats(prog, st) + names.check_operands(prog, st):
        r.add(f.key, repr(f))
    r.floor('calls_resolved', st['calls_resolved'], 4000)
    r.floor('super_calls', st['super_calls'], 60)
    r.floor('formats', st['formats'], 800)
    r.floor('raises', st['raises'], 800)
    r.explanation = ('Every call with a statically known repository callee was matched against its signature (and those '
                     'of the overrides), every %-format with its operands, every raise with the exception hierarchy.')
    r.rules = ['call-signature', 'super-class', 'super-attribute', 'format', 'operator', 'raise']
    r.files = sorted(m.rel for m in prog.modules.values())
    return r
