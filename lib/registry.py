"""Properties -> harness units, with their bounds."""
COMMON_ASSUMPTIONS = [
    'bitcode produced by clang-18 -O1 from /repo sources stands for the compiled code (native replays validate it per run)',
    'the C library is replaced by /verif/rt/minilibc.c (ISO C semantics, C locale); memory allocation succeeds',
    'nothing is claimed outside the stated bounds',
]
CHECKS, NOT_APPLICABLE = {}, {}
def check(pid, units, **kw): CHECKS[pid] = dict(units=units, **kw)
def unit(name, src, what, bounds='', groups=('core',), defs=None, quick=None, thorough=None, covers=('end',), **kw):
    return dict(name=name, src=src, what=what, bounds=bounds, groups=list(groups), defs=defs or {}, quick={'defs': quick or {}}, thorough={'defs': thorough or {}}, covers=list(covers), **kw)
import os, glob, importlib
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reg_*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
