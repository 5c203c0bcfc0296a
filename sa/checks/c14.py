"""C14: nothing on the way from well-formed input to the output certainly fails with an internal error"""
from ..collect import gather
from .common import *
from ..drivers import REPO
from .. import lint

EXPLANATION = ('Names, attributes of self and of modules, arguments of calls, unpacked results, format fields, command-line options and assignments before use are resolved for every function of the packages '
               'from the syntax trees; and all abstract runs of the other checks (codes, variants, options, methods) are searched for operations that fail for every value of their operands.')
ASSUMPTIONS = ('names in numpy are those of its stubs', 'attributes may be added to objects from outside under any name that the program stores somewhere')
LEVEL = 'other'
KINDS = (('imported names', ('import',)), ('names', ('name', 'unbound')), ('attributes of self', ()), ('attributes of modules', ()), ('calls', ('call',)), ('unpacked results', ('unpack',)),
         ('formats', ('format',)), ('commands', ('option',)))
WANT = dict(MATRIX=30)


def run(ctx):
    # ---- syntax trees
    P = lint.program(REPO)
    found = P.run()
    for kind, path, qual, line, msg in found:
        ctx.ob('%s[%s:%s: %s]' % (kind, path, qual, msg), 'violated', msg, '%s:%s:%d' % (path, qual, line), 'what is referred to exists')
    for what, n in sorted(P.count.items()):
        ctx.ob('syntax: ' + what, 'ok', '%d checked, %d found wanting' % (n, len(found)), ', '.join(sorted(m.path for m in P.mods.values())), 'what is referred to exists')
    # ---- abstract runs
    for d in gather(('c14', 'c17', 'c12')):
        for r in d['runs']:
            bad = [e for e in r['errors'] if e[3]]
            open_ = [e for e in r['errors'] if not e[3]]
            name = 'run[%s %s]' % (d['check'], r['name'])
            for w, exc, msg, _ in bad:
                ctx.ob('%s %s' % (name, ':'.join(w.split(':')[:2])), 'violated', '%s: %s' % (exc, msg), w, 'no operation fails on well-formed input')
            if not bad:
                n = '%d events in %d functions' % (r['events'], len(r['funcs']))
                ctx.ob(name, 'undecided' if r['aborted'] or open_ else 'ok', r['aborted'] or (open_ and '%s %s may fail' % (open_[0][0], open_[0][1])) or n, '', 'no operation fails on well-formed input')
            for f in r['funcs']:
                ctx.analysed.add(f)
        if d['failed'] or not d['runs']:
            ctx.ob('runs[%s]' % d['check'], 'undecided', d['failed'] or 'no runs', '', '')
