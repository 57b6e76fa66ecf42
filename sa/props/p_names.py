"""C01: every name and attribute the code reads exists, every local is
assigned before it is read."""
from .. import names, defassign
from ..result import Result

# (module, local) pairs whose unassigned path is infeasible for a reason the
# analysis does not see; each was read and confirmed
INFEASIBLE = {
    ('html40_19991224', 'lastX'): 'set on even indexes, read on odd ones; the first index is 0',
    ('iso8601', 'stem'): 'truncation is one of the three handled values; Minute precision excludes others',
    ('iso8601', 'zDirection'): 'callers enter only on Z, + or -',
    ('iso8601', 'zHour'): 'callers enter only on Z, + or -',
    ('iso8601', 'zMinute'): 'callers enter only on Z, + or -',
    ('iso8601', 'format'): 'callers enter only on Z, + or -',
    ('odata2.sqlds', 'dv'): 'a navigation property name is None or non-empty',
    ('qtiv1.common', 'op'): 'the five members of the action enumeration are all handled',
    ('qtiv1.item', 'baseIdentifier'): 'read only when the list of responses built from it is not empty',
    ('rfc2234', 'maxError'): 'errorPos starts below every position, the first error assigns',
    ('rfc2616', 'bytes'): 'nBytes is positive in this branch: the loop body runs and every exit assigns',
}


def analyse(prog, pid, tier):
    r = Result()
    st = {}
    fs = (names.check_names(prog, st) + names.check_self_attrs(prog, st) +
          names.check_class_attrs(prog, st) + names.check_attr_universe(prog, st))
    for f in fs:
        r.add(f.key, repr(f))
    ds = {}
    for rule, q, what, text in defassign.check(prog, ds):
        if any(q.startswith('pyslet.%s.' % m) and what == v for m, v in INFEASIBLE):
            continue
        r.add('%s|%s|%s' % (rule, q, what), text)
    r.floor('global_name_reads', st['names'], 30000)
    r.floor('module_attribute_reads', st['module_attrs'], 2500)
    r.floor('self_attribute_reads', st['self_attrs'], 5000)
    r.floor('class_attribute_reads', st['class_attrs'], 1500)
    r.floor('library_attribute_reads', st['library_attrs'], 500)
    r.floor('attribute_reads', st['attribute_reads'], 15000)
    r.floor('local_reads_abstractly_executed', ds['local_reads'], 50000)
    r.floor('functions', ds['functions'], 2500)
    r.coverage['modules'] = len(prog.modules)
    r.coverage['infeasible_exceptions'] = len(INFEASIBLE)
    r.explanation = ('Every module of the package was parsed and every name read, attribute read on a module, '
                     'attribute read on the receiver of a method and read of a local variable was resolved; locals by '
                     'a path-sensitive forward analysis with exceptional edges.')
    r.rules = ['unbound-name', 'module-attribute', 'no-such-attribute', 'class-attribute', 'attribute nothing defines', 'unbound-local']
    r.samples = sorted(f.qname for f in prog.all_funcs)[:12]
    r.files = sorted(m.rel for m in prog.modules.values())
    r.assumptions = ['attributes of objects of unknown class are only required to exist on some class',
                     'nothing outside the package adds names to its modules']
    return r
