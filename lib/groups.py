"""Groups of repository sources and how each is compiled."""
import glob, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['core', 'rpagreputf', 'rexjson']


def extra_flags(gs, repo):
    f = []
    if 'rexjson' in gs or 'rexjson++' in gs: f += ['-I%s/rexjson' % repo]
    if 'rexgrep' in gs: f += ['-I%s/rexgrep' % repo]
    if 'rpagrep' in gs: f += ['-I%s/rpagrep' % repo]
    if 'rexccmain' in gs: f += ['-I%s/rexcc/unix' % repo]
    if 'rexcc' in gs: f += ['-I%s/rexcc' % repo]
    return f


def gen_rexjson(repo, d, run):
    """the scanner tables of the JSON parser, generated by the scanner generator of the same tree"""
    gd = os.path.dirname(d) + '/gen'; h = gd + '/rexjsondfa.h'
    if not os.path.exists(h):
        exe = '%s/rexcc.%d' % (gd, os.getpid())
        run.sh(['gcc', '-O1', '-w', '-I' + repo, '-I' + repo + '/arch/unix', '-I' + repo + '/rexcc/unix'] + [f for x in ('rlib', 'rex') for f in sorted(glob.glob('%s/%s/*.c' % (repo, x)))] + [repo + '/rexcc/rexcc.c', repo + '/rexcc/rexccmain.c', repo + '/rexcc/unix/rexccdep.c', '-lm', '-o', exe])
        run.sh([exe, repo + '/rexjson/rexjsondfa.rexcc', '-o', exe + '.h']); os.rename(exe + '.h', h); os.unlink(exe)
    return ['-I' + gd, '-I' + repo + '/rexjson']


def spec(g, repo, d, run):
    if g == 'rexjson':
        return [(repo + '/rexjson/rexjson.c', gen_rexjson(repo, d, run))]
    if g == 'core':
        return [(f, []) for x in ('rlib', 'rvm', 'rpa', 'rex') for f in sorted(glob.glob('%s/%s/*.c' % (repo, x)))]
    if g == 'conc': # rlib with a call before every memory access and in place of every atomic operation

        return [(f, ['-include', V + '/h/l05_atomic.h', '-O0', '-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores']) for f in sorted(glob.glob(repo + '/rlib/*.c'))]
    if g == 'minilibc': return [(V + '/rt/minilibc.c', [])]
    if g == 'native': return [(V + '/rt/native.c', [])]
    if g == 'rexcc': return [(repo + '/rexcc/rexcc.c', [])]
    if g == 'rexccmain': return [(repo + '/rexcc/rexccmain.c', ['-I%s/rexcc/unix' % repo, '-Dmain=rexcc_main', '-Dfopen=x06_fopen', '-Dfclose=x06_fclose'])]
    if g == 'rexgrep': return [(repo + '/rexgrep/rexgrep.c', ['-I%s/rexgrep/unix' % repo])]
    if g == 'rpagrep': return [(repo + '/rpagrep/%s.c' % x, ['-I%s/rpagrep' % repo, '-I%s/rpagrep/unix' % repo]) for x in ('rpagrep', 'rpagreputf', 'unix/fsenum')] + [(repo + '/rpagrep/unix/rpagrepdep.c', ['-I%s/rpagrep' % repo, '-I%s/rpagrep/unix' % repo])]
    if g == 'rpagreputf': return [(repo + '/rpagrep/rpagreputf.c', [])]
    raise KeyError(g)
