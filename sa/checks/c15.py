"""C15: every record of the binary files is read where it is and as what it is"""
from .common import *
from .. import records as R
from .out import render, free_labels_all

EXPLANATION = ('All reads of binary files that occur in the interpretation of the analysis of every code, with spinors or not, with PAW, few or many k-points, are collected; position, format '
               'and file name are closed forms over sizes and loop indices and are evaluated in models for all values of the indices, and compared with the record layout of the file format.')
ASSUMPTIONS = ('record layouts of WAVECAR, WFK, wfc*.dat and UNK files as written down in sa/records.py',)


def path_forms(p):
    return free_labels_all([(p, '')]) if isinstance(p, StrT) else set()


def text(M, p, env):
    if isinstance(p, Const):
        return str(p.v)
    return render(M, [(p, '')], env)


def which(n, path):
    """(reader of the layout, index in the name, spin)"""
    import re
    m = re.search(r'/wfc(up|dw)?(\d+)\.dat$', path, re.I)
    if m:
        return 'wfc', int(m.group(2)), (m.group(1) or '').lower()
    m = re.search(r'UNK(\d{5})\.(NC|1)$', path)
    if m:
        return 'unk', int(m.group(1)), m.group(2)
    return 'other', 0, ''


def cases(M, forms, labels, pc):
    from ..forms import lab
    es = R.envs(M, list(forms) + [lab(l) for l in labels], pc)
    if not es:
        raise Undecided('no model gets there')
    return es


def fits(layout, fmt):
    """may a record of this layout be read with the format?"""
    if layout is None or fmt is None:
        return False
    if layout == R.OPAQUE:
        return True
    f, single = fmt
    layout = R.merged(layout)
    return layout == f or single and len(layout) == 1 and layout[0][:2] == f[0][:2] and (f[0][2] == 1 or layout[0][2] % f[0][2] == 0 and layout[0][2] == f[0][2])


def run(ctx):
    for n in MATRIX:
        code, sp, opt, kw = MATRIX[n]
        r = get(n, ctx)
        ns = 2 if sp else 1
        evs = {}
        for e in r.I.events:
            if e.kind in ('record', 'fromfile', 'open') and not e.spec:
                evs.setdefault((e.kind, e.where() + (' from ' + str(e.stack[-2][2]) if e.kind != 'open' and len(e.stack) > 1 else '')), []).append(e)
        if r.aborted or r.exc:
            ctx.ob('reads[%s]' % n, *stopped(r), '', 'well-formed files are read')
        if not evs:
            ctx.ob('reads[%s]' % n, 'undecided', 'no read reached', '', '')
        for (kind, where), es in sorted(evs.items(), key=lambda x: (x[0][1], x[0][0])):
            name = '%s[%s,%s]' % (kind, n, where.split('/')[-1])
            bad, done, why, left = None, 0, '', 0
            for e in es:
                seen = done
                for s in range(1, 7 if ctx.thorough else 4):
                    M = R.model(s, opt)
                    try:
                        b = (opened if kind == 'open' else wavecar if kind == 'fromfile' else fortran)(M, e, n, code, opt, ns, r)
                    except (Undecided, ValueError, TypeError, ZeroDivisionError, OverflowError) as x:
                        why = str(x)
                        continue
                    done += 1
                    if b:
                        bad = bad or 'model %d: %s' % (s, b)
                left += done == seen
            rule = {'open': 'files of the calculation, with their names', 'fromfile': 'a whole record of the file: header, k-point header or one band', 'record': 'position and format of a record of the file'}[kind]
            ctx.ob(name, 'violated' if bad else 'undecided' if left else 'ok', bad or (why if left else '%d reads, %d models' % (len(es), done)), where, rule)


def fortran(M, e, n, code, opt, ns, r):
    pos, path, fmt = e.data['pos'], e.data['path'], e.data['fmt']
    if pos is None:
        raise Undecided('position')
    ls = path_forms(path) | path_forms(fmt)
    for env in cases(M, [pos], ls, e.pc):
        p = R.whole(M.ev(pos, env))
        f = text(M, fmt, env)
        t = text(M, path, env)
        if p is None:
            return 'position %s' % M.ev(pos, env)
        kind, idx, spin = which(n, t)
        if code == 'abinit':
            l = R.abinit(M, p, opt, ns)
            if p == 0 and not opt.get('old_abinit') and f == 'a6,2i4':
                continue            # the older header is tried first and the failure handled
        elif kind == 'wfc':
            l = R.espresso(M, p, opt, ns, spin)
        elif kind == 'unk':
            l = R.wannier90(M, p, opt, ns)
        else:
            raise Undecided('file ' + t)
        if not fits(l, R.parse_format(f)):
            return 'record %d of %s is read as %s, its layout is %s' % (p, t, f[:60], R.describe(l))


def wavecar(M, e, n, code, opt, ns, r):
    pos, cnt = e.data['pos'], e.data['count']
    if pos is None or cnt is None:
        raise Undecided('position or count')
    if pos == ZERO:
        c = M.ev(cnt, {})
        if e.data['cplx'] or complex(c).real < 3:
            return 'first record: %s items' % c
        return
    for env in cases(M, [pos, cnt], (), e.pc):
        p, c = R.whole(M.ev(pos, env)), M.ev(cnt, env)
        rl = M.sym('RL')
        if p is None or p % rl:
            return 'position %s is not the start of a record of length %s' % (M.ev(pos, env), rl)
        l = R.vasp(M, p // rl, opt, ns)
        if l is None:
            return 'there is no record %d' % (p // rl)
        if (l[0] == 'c') != bool(e.data['cplx']):
            return 'record %d holds %s numbers' % (p // rl, 'single precision complex' if l[0] == 'c' else 'double precision real')
        if complex(c).real < l[2]:
            return '%s numbers of record %d are read, there are %d' % (c, p // rl, l[2])


def opened(M, e, n, code, opt, ns, r):
    path = e.data['path']
    for env in cases(M, [], path_forms(path), e.pc):
        t = text(M, path, env)
        if code == 'vasp':
            ok = t in ('FPOS', 'FWAV')
        elif code == 'abinit':
            ok = t == 'FWFK'
        elif code == 'espresso':
            k = which(n, t)
            spin = {'espresso-up': 'up', 'espresso-dw': 'dw'}.get(n, '')
            ok = t == 'PREFIX.save/data-file-schema.xml' or (k[0] == 'wfc' and 1 <= k[1] <= M.sym('NK') and k[2] == spin and t in (
                'PREFIX.save/wfc%s%d.dat' % (spin, k[1]), 'PREFIX.save/WFC%s%d.dat' % (spin.upper(), k[1]), 'PREFIX.save/WFC%s%d.DAT' % (spin.upper(), k[1])))
        else:
            ok = t in ('PREFIX.win', 'PREFIX.eig') or any(t == 'UNK%05d.%s' % (k, 'NC' if ns == 2 else '1') for k in range(1, 1 + max(3, opt.get('nk', 3))))
        if not ok:
            return 'file %s' % t
