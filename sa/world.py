"""Model of the outside world: input files, spglib, command line, seeded with canonical physical symbols.

Canonical symbols (units: eV, Angstrom, radians; labels: k, b, s, ...)
  E[k,b]      band energy (eV)          EF        Fermi energy found in the files (eV)
  kp[k,i]     k-point, direct coords    L[i,c]    lattice vectors (rows), Angstrom
  psiF[k,b,g] plane-wave coefficients in file order (spinor: g in [0, 2*NPW))
  GF[k,g,i]   plane waves in file order
"""
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, declare, IDXLEN, atom_form)
from .values import *
from .arr import P, C, newax
from . import arr as A

RY = 13.605693
HA = 2 * RY
BOHR = 0.529177210903

for _n in ('NK', 'NB', 'NPW', 'NPW2', 'RL', 'NAT', 'NSYM', 'SGnum', 'NTYP', 'NATT', 'NSPEC', 'NPSP', 'NIRR', 'NTAB',
           'typ', 'ngx', 'ngy', 'ngz', 'NG', 'NBLK', 'NA', 'npwk', 'REC', 'NPSP', 'NSYMA', 'BANDTOT', 'styp', 'SPNAME', 'GFup', 'GFdw', 'ngwq', 'nbq', 'rot', 'symR', 'GF', 'ig', 'nbandk', 'NBUP', 'NBDW'):
    declare(_n, integer=True)
for _n in ('E', 'EF', 'kp', 'L', 'Ecut', 'Ecut0', 'pos', 't0', 't', 'Plib', 'plib', 'symt', 'kirr', 'alat', 'thr', 'occ',
           'EFcli', 'Bq', 'scalef', 'occa', 'tnons', 'zn', 'wtk', 'resid', 'etot', 'amu', 'refcli', 'shcli', 'ref', 'sh', 'fm', 'degthr', 'trthr'):
    declare(_n)
for _n in ['nonsense'] + ['uf#%d' % k for k in range(19)]:
    declare(_n)
for _n in ['uz#%d' % k for k in range(4)] + ['u#%d' % k for k in range(18)]:
    declare(_n, integer=True)
for _n in ('nonsensec', 'psiF', 'psi', 'psiFup', 'psiFdw', 'uR', 'S', 'symS', 'chirr'):
    declare(_n, real=False)

S_ = sym
NK, NB, NAT, NSYM, NTAB, NIRR = (sym(x) for x in ('NK', 'NB', 'NAT', 'NSYM', 'NTAB', 'NIRR'))
SPACE = ' '


def mk(name, *lens, dtype=None, pre=(), roots=(), taint=(), scale=1.0):
    """array of a canonical symbol: name[pre..., l0, l1, ...]"""
    axes = []
    for n in lens:
        l, n = newax(n if isinstance(n, Form) else const(n))
        axes.append((l, n))
    m = __import__('sa.forms', fromlist=['META']).META.get(name, {})
    dt = dtype or ('i' if m.get('int') else 'f' if m.get('real') else 'c')
    f = sym(name, *([p if isinstance(p, Form) else const(p) for p in pre] + [lab(l) for l, _ in axes]))
    return Arr(axes, f.scale(scale), dt, roots=frozenset(roots), taint=frozenset(taint))


def scal(form, dtype=None, taint=()):
    return num(form if isinstance(form, Form) else const(form), dtype, frozenset(taint))


def tok(v, spec=''):
    """text token whose numeric value is v"""
    return (v, spec)


def natoms():
    l = new_label()
    LABLEN[l] = const(2)
    from .forms import sum_over
    return sum_over(sym('NA', lab(l)), l, const(2))


class Obj:
    """marker for objects of external libraries (ObjRec.cls is a string)"""


class World:
    def __init__(self, code='vasp', spinor=False, **opt):
        self.code = code
        self.spinor = spinor
        self.opt = opt
        self.nspinor = 2 if spinor else 1
        self.handlers = {}
        self.lattice_file_scale = {'vasp': 1.0, 'abinit': 1 / BOHR, 'espresso': 1 / BOHR,
                                   'wannier90': 1 / BOHR if opt.get('bohr') else 1.0}[code]

    # ------------------------------------------------------------------ library calls
    def lib_call(self, I, lib, name, f, args, kw, node, st):
        h = self.handlers.get(name)
        if h is not None:
            return h(I, lib, f, args, kw, node, st)
        m = getattr(self, 'L_' + name.replace('.', '_'), None)
        if m is not None:
            return m(I, lib, f, args, kw, node, st)
        return None

    def arg(self, args, kw, i, name, default=None):
        if name in kw:
            return kw[name]
        return args[i] if i < len(args) else default

    def L_scipy___version___split(self, I, lib, f, args, kw, node, st):
        return I.newlist([Const('1'), Const('13'), Const('0')], st)

    # ---- WAVECAR
    def L_numpy_fromfile(self, I, lib, f, args, kw, node, st):
        fv = self.arg(args, kw, 0, 'file')
        dtype = self.arg(args, kw, 1, 'dtype')
        count = self.arg(args, kw, 2, 'count')
        r = I.rec(fv, st) if isinstance(fv, Ref) else None
        if not isinstance(r, FileRec):
            return None
        pos = r.state.get('pos')
        cf = scalar_form(count) if count is not None else None
        I.event('fromfile', node, dict(pos=pos, cplx=self.is_c8(dtype), dtype=dtype, count=cf), st)
        v = self.wavecar(I, pos, dtype, cf, node, st)
        if v is None:
            return self.wrong_wavecar(pos, self.is_c8(dtype), st) or Unknown(why='fromfile')
        return v

    def is_c8(self, dtype):
        return isinstance(dtype, Builtin) and 'complex64' in dtype.name or isinstance(dtype, Const) and 'c8' in str(dtype.v)

    def wrong_wavecar(self, pos, cplx, st):
        """what is read where there is certainly no such record: meaningless numbers"""
        if pos is None:
            return None
        from . import records

        def layout(M, n):
            if n % M.sym('RL'):
                return None
            f = records.vasp(M, n // M.sym('RL'), self.opt, self.nspinor)
            return f if f and (f[0] == 'c') == bool(cplx) else None
        if not records.nowhere(pos, st.pc, layout, self.opt):
            return None
        l, n = newax(sym('NPW') * const(self.nspinor) if cplx else sym('RL'))
        return Arr(((l, n),), sym('nonsensec' if cplx else 'nonsense', pos, lab(l)), 'c' if cplx else 'f')

    def wavecar(self, I, pos, dtype, count, node, st):
        if pos is None:
            return None
        RLs = sym('RL')
        cplx = self.is_c8(dtype)
        if pos == ZERO:
            vals = [RLs, ONE, const(45200)]
            l, n = newax(const(3))
            return Arr(((l, n),), P(lab(l), vals), 'f')
        # pos = irec * RL
        irec = pos * RLs.powr(-1)
        if any(a[0] == 'S' and a[1] == 'RL' for a in _top_atoms(irec)):
            I.event('filepos', node, dict(msg='WAVECAR position is not a whole number of records', pos=pos), st)
            return None
        if irec == ONE:
            nk = const(self.opt['nk']) if self.opt.get('nk') else NK
            segs = [(ONE, None, nk), (ONE, None, NB), (ONE, None, sym('Ecut0'))]
            head = [nk, NB, sym('Ecut0')]
            for i in range(3):
                for c in range(3):
                    head.append(sym('L', const(i), const(c)))
            return self.seqrec(head, sym('RL'))
        # irec = 2 + ik*(NB+1) [+ 1 + ib]
        d = irec - const(2)
        ik = coef_of(d, 'NB')
        if ik is None:
            I.event('filepos', node, dict(msg='WAVECAR record index is not 2 + ik*(NB+1) + ib', pos=irec), st)
            return None
        rho = d - ik * NB - ik
        if rho == ZERO and not cplx:
            npw = self.npw_file(ik)
            head = [npw] + [sym('kp', ik, const(i)) for i in range(3)]
            return self.bandrec(head, ik)
        if cplx:
            ib = rho - ONE
            n = count if count is not None else self.npw_file(ik)
            l, n = newax(n if n.atom() is None or n.atom()[1] != 'minimum' else self.npw_file(ik))
            I.event('wfread', node, dict(ik=ik, ib=ib, n=n), st)
            return Arr(((l, n),), sym('psiF', ik, ib, lab(l)), 'c')
        I.event('filepos', node, dict(msg='float record read at a coefficient record', pos=irec), st)
        return None

    def canon_ig(self):
        return mk('ig', const(6), sym('NG'))

    def npw_file(self, ik):
        n = sym('NPW')
        return n * const(2) if self.spinor else n

    def seqrec(self, head, total):
        k = len(head)
        l, n = newax(total)
        l1, n1 = newax(const(k))
        l2, n2 = newax(total - const(k))
        return Arr(((l, n),), C(lab(l), ((n1, l1, P(lab(l1), head)), (n2, l2, sym('rest', lab(l2))))), 'f')

    def bandrec(self, head, ik):
        l, n = newax(sym('RL'))
        l1, n1 = newax(const(len(head)))
        l2, n2 = newax(NB * const(3))
        l3, n3 = newax(sym('RL') - n1 - n2)
        b = fn('floordiv', lab(l2), const(3))
        j = fn('mod', lab(l2), const(3))
        e = P(j, [sym('E', ik, b), sym('Eimag', ik, b), sym('occ', ik, b)])
        return Arr(((l, n),), C(lab(l), ((n1, l1, P(lab(l1), head)), (n2, l2, e), (n3, l3, sym('rest', lab(l3))))), 'f')

    # ---- spglib
    def L_spglib_get_symmetry_dataset(self, I, lib, f, args, kw, node, st):
        I.event('spglib', node, dict(cell=args[0] if args else None, kw=kw), st)
        return I.alloc(ObjRec('spgdataset', {}), st)

    def spg_field(self, name):
        if name in ('international',):
            return StrT([(Unknown(why='sgname'), '')]) if not self.opt.get('sgname') else Const(self.opt['sgname'])
        if name == 'number':
            return scal(sym('SGnum'))
        if name == 'transformation_matrix':
            return mk('Plib', 3, 3)
        if name == 'origin_shift':
            return mk('plib', 3)
        if name == 'rotations':
            return mk('rot', NSYM, 3, 3)
        if name == 'translations':
            return mk('t0', NSYM, 3)
        return None

    def obj_attr(self, I, lib, v, rec, name, node, st):
        cls = rec.cls if isinstance(rec.cls, str) else None
        if cls == 'spgdataset':
            return self.spg_field(name)
        m = getattr(self, 'A_' + str(cls), None)
        if m is not None:
            return m(I, lib, v, rec, name, node, st)
        if cls is None and name in ('read_record', 'goto_record', 'read_ints', 'read_reals', 'close', 'read_record_unsafe') \
                and '%ff' in rec.attrs:
            return Builtin('ff.' + name, v)
        return None

    def obj_getitem(self, I, lib, v, rec, idx, node, st):
        m = getattr(self, 'G_' + str(rec.cls), None)
        if m is not None and idx:
            ok, k = pyconst(idx[0])
            if ok:
                return m(I, lib, v, rec, k, node, st)
        if rec.cls == 'spgdataset':
            ok, k = pyconst(idx[0]) if isinstance(idx, (list, tuple)) and idx else (False, None)
            if ok:
                return self.spg_field(k)
        return None

    def ext_init(self, I, lib, obj, cls, args, kw, node, st):
        if 'fortio.FortranFile' in [str(x) for x in cls.mro_names()]:
            r = st.heap[obj.addr]
            at = dict(r.attrs)
            path = args[0] if args else None
            at['%ff'] = I.alloc(FileRec(path, 'r', 'ff', {'pos': ZERO}), st)
            st.heap[obj.addr] = ObjRec(r.cls, at, r.meta)

    def file_method(self, I, lib, name, v, rec, args, kw, node, st):
        if name == 'seek':
            s = dict(rec.state)
            s['pos'] = scalar_form(args[0])
            st.heap[v.addr] = FileRec(rec.path, rec.mode, rec.kind, s, rec.closed)
            return NONE
        if rec.kind == 'ff':
            return self.ff_method(I, lib, name, v, rec, args, kw, node, st)
        return None

    def text_lines(self, I, lib, r, st):
        ok, p = pyconst(r.path) if r.path is not None else (False, None)
        if not ok:
            return None
        if self.opt.get('text', {}).get(p) is not None:
            return self.opt['text'][p](self)
        for suffix, fnc in (('FPOS', self.poscar), ('.win', self.win), ('FSYM', self.symfile), ('.dat', None)):
            if p.endswith(suffix) and fnc is not None:
                return fnc(I, st)
        return None

    # ---- text files as lists of token lines
    def line(self, toks):
        parts = []
        for i, t in enumerate(toks):
            if i:
                parts.append(' ')
            if isinstance(t, str):
                parts.append(t)
            elif isinstance(t, Form):
                parts.append((scal(t), ''))
            else:
                parts.append(t)
        parts.append('\n')
        return StrT(parts)

    def poscar(self, I, st):
        o = self.opt
        L = lambda i: [sym('L', const(i), const(c)) * self.SC.powr(-1) for c in range(3)]
        ls = [StrT(['title\n']), self.line([self.SC]), self.line(L(0)), self.line(L(1)), self.line(L(2))]
        if o.get('names', True):
            ls.append(StrT(['Bi Se\n']))
        ls.append(self.line([sym('NA', ZERO), sym('NA', ONE)]))
        if o.get('selective'):
            ls.append(StrT(['Selective dynamics\n']))
        cart = o.get('cartesian')
        ls.append(StrT(['Cartesian\n' if cart else 'Direct\n']))
        l = new_label()
        nat = natoms()
        LABLEN[l] = nat
        p = [sym('pos', lab(l), const(c)) for c in range(3)]
        if cart:
            d = new_label()
            from .forms import sum_over
            p = [sum_over(sym('pos', lab(l), lab(d)) * sym('L', lab(d), const(c)), d, const(3)) * self.SC.powr(-1) for c in range(3)]
        ls.append(('gen', l, nat, self.line(p)))
        return ls

    SC = sym(declare('SC'))

    def win(self, I, st):
        o = self.opt
        from .forms import sum_over
        T = lambda t: StrT([t + '\n'])
        nk = o.get('nk', 3)
        ls = [T('! comment'), StrT(['num_bands = ', (scal(NB), ''), '\n']), T('spinors = ' + ('true' if self.spinor else 'false'))]
        if o.get('ef', True):
            ls.append(StrT(['fermi_energy = ', (scal(sym('EF')), ''), '\n']))
        ls.append(T('mp_grid = 1 1 %d' % nk))
        cell = [T('begin unit_cell_cart')]
        if o.get('units'):
            cell.append(T(o['units']))
        sc = const(1 / BOHR) if o.get('units') == 'bohr' else ONE
        cell += [self.line([sym('L', const(i), const(c)) * sc for c in range(3)]) for i in range(3)] + [T('end unit_cell_cart')]
        kind = 'cart' if o.get('cartesian') else 'frac'
        at = [T('begin atoms_' + kind)]
        asc = ONE
        if o.get('cartesian') and o.get('aunits'):
            at.append(T(o['aunits']))
            asc = const(1 / BOHR) if o['aunits'] == 'bohr' else ONE
        for j, nm in enumerate(('Bi', 'Se', 'Bi')):
            p = [sym('pos', const(j), const(c)) for c in range(3)]
            if o.get('cartesian'):
                d = new_label()
                LABLEN[d] = const(3)
                p = [sum_over(sym('pos', const(j), lab(d)) * sym('L', lab(d), const(c)), d, const(3)) * asc for c in range(3)]
            at.append(self.line([nm] + p))
        at.append(T('end atoms_' + kind))
        kp = [T('begin kpoints')] + [self.line([sym('kp', const(k), const(c)) for c in range(3)]) for k in range(nk)] + [T('end kpoints')]
        for part in ((at, cell, kp) if o.get('atoms_first') else (cell, at, kp) if not o.get('kp_first') else (kp, cell, at)):
            ls += part
        return ls

    def L_numpy_loadtxt(self, I, lib, f, args, kw, node, st):
        p = args[0] if args else None
        I.event('open', node, dict(path=p, mode='r'), st)
        ok, t = pyconst(p)
        if ok and str(t).endswith('.eig'):
            nk = const(self.opt.get('nk', 3))
            l, n = newax(NB * nk)
            c, cn = newax(3)
            b, k = fn('mod', lab(l), NB), fn('floordiv', lab(l), NB)
            return Arr(((l, n), (c, cn)), P(lab(c), [b + ONE, k + ONE, sym('E', k, b)]), 'f')
        return None

    def symfile(self, I, st):
        n = self.opt.get('nsymfile', 3)
        blank = StrT(['\n'])
        ls = [self.line([const(n)])]
        for k in range(n):
            ls.append(blank)
            for i in range(3):
                ls.append(self.line([sym('Rfile', const(k), const(i), const(j)) for j in range(3)]))
            ls.append(self.line([sym('tfile', const(k), const(j)) for j in range(3)]))
        return ls

    # ---- Fortran records
    def L_scipy_io_FortranFile(self, I, lib, f, args, kw, node, st):
        I.event('open', node, dict(path=args[0], mode='r'), st)
        return I.alloc(FileRec(args[0], 'r', 'ff', {'pos': ZERO}), st)

    def ff_method(self, I, lib, name, v, rec, args, kw, node, st):
        if name == 'close':
            st.heap[v.addr] = FileRec(rec.path, rec.mode, rec.kind, rec.state, True)
            return NONE
        pos = rec.state.get('pos')
        if name == 'goto_record':
            s = dict(rec.state)
            s['pos'] = scalar_form(args[0])
            st.heap[v.addr] = FileRec(rec.path, rec.mode, rec.kind, s, rec.closed)
            return NONE
        if name.startswith('read'):
            s = dict(rec.state)
            s['pos'] = pos + ONE if pos is not None else None
            st.heap[v.addr] = FileRec(rec.path, rec.mode, rec.kind, s, rec.closed)
            if pos is None:
                return Unknown(why='record')
            return self.record(I, rec, pos, args, node, st)
        return None

    # ---- record contents per file type
    def L_ff_read_record(self, I, lib, f, args, kw, node, st):
        return self._ffm('read_record', I, lib, f, args, kw, node, st)

    def L_ff_read_ints(self, I, lib, f, args, kw, node, st):
        return self._ffm('read_ints', I, lib, f, args, kw, node, st)

    def L_ff_read_reals(self, I, lib, f, args, kw, node, st):
        return self._ffm('read_reals', I, lib, f, args, kw, node, st)

    def L_ff_goto_record(self, I, lib, f, args, kw, node, st):
        return self._ffm('goto_record', I, lib, f, args, kw, node, st)

    def L_ff_close(self, I, lib, f, args, kw, node, st):
        return self._ffm('close', I, lib, f, args, kw, node, st)

    def _ffm(self, name, I, lib, f, args, kw, node, st):
        h = I.rec(f.recv, st).attrs['%ff']
        return self.ff_method(I, lib, name, h, I.rec(h, st), args, kw, node, st)

    def record(self, I, rec, pos, args, node, st):
        I.event('record', node, dict(path=rec.path, pos=pos, fmt=args[0] if args else None), st)
        if self.code == 'abinit':
            return self.rec_abinit(I, pos, args, node, st)
        fid = self.file_id(rec.path)
        if fid is None:
            return Unknown(why='record of an unknown file')
        kind, ik, spin = fid
        if kind == 'wfc':
            return self.rec_qe(I, ik, spin, pos, node, st)
        if kind == 'unk':
            return self.rec_unk(I, ik, spin, pos, node, st)
        return Unknown(why='record')

    def file_id(self, path):
        """(kind, 0-based k index, spin) from the name of a wave-function file"""
        import re
        parts = path.parts if isinstance(path, StrT) else [path.v] if isinstance(path, Const) and isinstance(path.v, str) else None
        if parts is None:
            return None
        txt, nums = '', []
        for p in parts:
            if isinstance(p, str):
                txt += p
            elif isinstance(p[0], Arr) and p[0].form is not None:
                txt += '<%d>' % len(nums)
                nums.append((p[0].form, p[1]))
            elif isinstance(p[0], StrT) or isinstance(p[0], Const):
                txt += '<s>'
            else:
                return None
        m = re.search(r'wfc(up|dw)?<(\d)>\.dat$', txt, re.I)
        if m:
            return 'wfc', nums[int(m.group(2))][0] - ONE, (m.group(1) or '').lower()
        m = re.search(r'UNK<(\d)>\.(NC|1|2)$', txt)
        if m:
            return 'unk', nums[int(m.group(1))][0] - ONE, m.group(2)
        return None

    def cplx_record(self, n, form_of):
        """file record of n complex numbers as 2n reals"""
        l, nn = newax(n * const(2))
        g = fn('floordiv', lab(l), const(2))
        f = form_of(g)
        return Arr(((l, nn),), P(fn('mod', lab(l), const(2)), [fn('real', f), fn('imag', f)]), 'f')

    def rec_abinit(self, I, pos, args, node, st):
        c = pos.int_const()
        NKs, NATs = const(self.opt['nk']) if self.opt.get('nk') else sym('NK'), const(self.opt['nat']) if self.opt.get('nat') else sym('NAT')
        if c == 0:
            if not self.opt.get('old_abinit') and args and isinstance(args[0], Const) and 'a6' in str(args[0].v):
                from .interp import PyRaise
                raise PyRaise('ValueError', Const('record size'))
            vers = Const(self.opt.get('codvsn', b'9.6.2   '))
            return Tup([Tup([vers, Tup([scal(const(self.opt.get('headform', 80))), scal(const(2))])])])
        if c == 1:
            ints = [sym('u#%d' % k) for k in range(18)]
            vals = {0: sym('BANDTOT'), 4: NATs, 8: NKs, 12: sym('NSYMA'), 13: sym('NPSP'), 11: const(self.opt.get('nsppol', 1)),
                    14: NTYP_, 17: const(self.opt.get('usepaw', 0)), 10: const(self.opt.get('nspinor', self.nspinor)),
                    15: const(self.opt.get('occopt', 1))}
            for k, x in vals.items():
                ints[k] = x
            fl = [sym('Ecut0') * const(1 / HA)] + [sym('uf#%d' % k) for k in range(1, 7)] + \
                 [sym('L', const(i), const(j)) * const(1 / BOHR) for i in range(3) for j in range(3)] + [sym('uf#%d' % k) for k in range(16, 19)]
            l1, l2, l3 = newax(18), newax(19), newax(4)
            return Tup([Tup([Arr((l1,), P(lab(l1[0]), ints), 'i'), Arr((l2,), P(lab(l2[0]), fl), 'f'),
                             Arr((l3,), P(lab(l3[0]), [sym('uz#%d' % k) for k in range(4)]), 'i')])])
        if c == 2:
            l = newax(NKs)
            ist = Arr((l,), const(self.opt.get('istwfk', 1)), 'i')
            fs = [ist, mk('nbandk', NKs), mk('npwk', NKs), mk('so', sym('NPSP')), mk('afm', sym('NSYMA')),
                  mk('symrel', sym('NSYMA'), 3, 3), mk('typ', NATs), mk('kp', NKs, 3), mk('occa', sym('BANDTOT')),
                  mk('tnons', sym('NSYMA'), 3), mk('zn', NTYP_), mk('wtk', NKs)]
            return Tup([Tup([self.field(args, i, f) for i, f in enumerate(fs)])])
        if c == 3:
            return Tup([Tup([scal(sym('resid')), mk('pos', NATs, 3), scal(sym('etot')),
                             scal(sym('EF') * const(1 / HA)), mk('amu', NTYP_)])])
        blk = self.abinit_block(pos)
        if blk is None or blk == 'bad':
            self.misread(I, pos, args, node, st)
            return Unknown(why='abinit record')
        ik, off = blk
        npw, nb = sym('npwk', ik), sym('nbandk', ik)
        if off == ZERO:
            return Tup([scal(npw), scal(const(self.nspinor)), scal(nb)]) if False else self.vec([npw, const(self.nspinor), nb])
        if off == ONE:
            l, n = newax(npw * const(3))
            return Arr(((l, n),), sym('GF', ik, fn('floordiv', lab(l), const(3)), fn('mod', lab(l), const(3))), 'i')
        if off == const(2):
            l, n = newax(nb * const(2))
            return Arr(((l, n),), C(lab(l), ((nb, *_l(nb, lambda x: sym('E', ik, x) * const(1 / HA))),
                                             (nb, *_l(nb, lambda x: sym('occ', ik, x))))), 'f')
        ib = off - const(3)
        c = ib.int_const()
        if ib.label() is None and (c is None or c < 0):
            self.misread(I, pos, args, node, st)
            return Unknown(why='abinit record')
        I.event('wfread', node, dict(ik=ik, ib=ib), st)
        return self.cplx_record(npw * const(self.nspinor), lambda g: sym('psiF', ik, ib, g))

    def field(self, args, i, v):
        """numpy takes a field '1i4' of a structured type as a number, not as an array of one number"""
        from .records import split_fields
        t = args[0] if args else None
        txt = t.v if isinstance(t, Const) and isinstance(t.v, str) else None
        if txt is None and isinstance(t, StrT):
            txt = ''
            for p in t.parts:
                if isinstance(p, str):
                    txt += p
                else:
                    c = p[0].form.int_const() if isinstance(p[0], Arr) and p[0].form is not None and not p[0].axes else p[0].v if isinstance(p[0], Const) else None
                    txt += '?' if c is None else str(c)
        if txt is None or v.ndim != 1 or v.axes[0][1].int_const() != 1:
            return v
        fs = split_fields(txt)
        if i < len(fs) and not fs[i].startswith('('):
            return scal(v.form.subst({v.axes[0][0]: ZERO}), v.dtype)
        return v

    def misread(self, I, pos, args, node, st):
        """an error if the record at this position certainly does not have this format"""
        from . import records
        ok, fmt = pyconst(args[0]) if args else (False, None)
        f = records.parse_format(fmt) if ok and isinstance(fmt, str) else None
        if f is None:
            return

        def layout(M, n):
            l = records.abinit(M, n, self.opt, self.nspinor)
            return l if l == records.OPAQUE or l and (l == f[0] or f[1] and len(l) == 1 and l[0][:2] == f[0][0][:2]) else None
        if records.nowhere(pos, st.pc, layout, self.opt):
            I.error('ValueError', 'the record read does not have the format %s' % fmt, node, st)

    def abinit_block(self, pos):
        """record position -> (k-point of the block, record within the block); None inside or before the header"""
        d = pos - const(5 + (2 if self.opt.get('usepaw') else 0)) - sym('NPSP')
        if any(a[0] == 'S' and a[1] == 'NPSP' for a in _top_atoms(d)):
            return None
        full = {}
        rest = ZERO
        for t in d.items():
            c, dm, fa = t
            if not dm and len(fa) == 1 and fa[0][1] == 1 and fa[0][0][0] == 'S' and fa[0][0][1] == 'nbandk' \
                    and fa[0][0][2][0].int_const() is not None:
                full[fa[0][0][2][0].int_const()] = c
            else:
                rest = rest + Form.build([t])
        n = len(full)
        if any(c != 1 for c in full.values()) or set(full) != set(range(n)):
            return 'bad'
        return const(n), rest - const(3 * n)

    def vec(self, forms, dtype='i'):
        l, n = newax(len(forms))
        return Arr(((l, n),), P(lab(l), forms), dtype)

    def rec_qe(self, I, ik, spin, pos, node, st):
        c = pos.int_const()
        psi = {'': 'psiF', 'up': 'psiFup', 'dw': 'psiFdw'}[spin]
        G = {'': 'GF', 'up': 'GFup', 'dw': 'GFdw'}[spin]
        n = sym('NPW')
        if c == 0:
            l, ln = newax(3)
            d = new_label()
            LABLEN[d] = const(3)
            from .forms import sum_over
            k = sum_over(sym('kp', ik, lab(d)) * sym('Bq', lab(d), lab(l)), d, const(3))
            return Tup([Tup([scal(ik + ONE), Arr(((l, ln),), k, 'f'), scal(ONE), scal(ZERO), scal(sym('scalef'))])])
        if c == 1:
            return self.vec([sym('ngwq'), n, const(self.nspinor), sym('nbq')])
        if c == 2:
            return mk('Bq', 3, 3)
        if c == 3:
            return mk(G, n, 3, pre=(ik,))
        ib = pos - const(4)
        I.event('wfread', node, dict(ik=ik, ib=ib, spin=spin), st)
        return self.cplx_record(n * const(self.nspinor), lambda g: sym(psi, ik, ib, g))

    def rec_unk(self, I, ik, spin, pos, node, st):
        if pos == ZERO:
            return Tup([Tup([scal(x) for x in (sym('ngx'), sym('ngy'), sym('ngz'), ik + ONE, sym('NB'))])])
        q = pos - ONE
        n = sym('ngx') * sym('ngy') * sym('ngz')
        ns = const(self.nspinor)
        ib, s = (fn('floordiv', q, ns), fn('mod', q, ns)) if self.spinor else (q, ZERO)
        I.event('wfread', node, dict(ik=ik, ib=ib, s=s), st)
        return self.cplx_record(n, lambda g: sym('uR', ik, ib, s, g))

    # ---- Quantum Espresso XML
    def L_xml_etree_ElementTree_parse(self, I, lib, f, args, kw, node, st):
        I.event('open', node, dict(path=args[0] if args else None, mode='r'), st)
        return I.alloc(ObjRec('xmldoc', {}), st)

    def A_xmldoc(self, I, lib, v, rec, name, node, st):
        return Builtin('xml.' + name, v)

    def A_xml(self, I, lib, v, rec, name, node, st):
        if name in ('find', 'findall', 'iter', 'get'):
            return Builtin('xml.' + name, v)
        p, i = self.xml_pos(v, rec)
        if name == 'text':
            t = self.xml_text(p, i, I, st)
            return t if t is not None else Unknown(why='xml text ' + p)
        if name == 'attrib':
            return I.alloc(ObjRec('xmlattr', dict(rec.attrs)), st) if not v.sub else Ref(I.alloc(ObjRec('xmlattr', dict(rec.attrs)), st).addr, v.sub)
        return None

    def xml_pos(self, v, rec):
        from .lib import val_subst
        p = rec.attrs['p'].v
        i = rec.attrs.get('i')
        if i is not None:
            i = val_subst(i, dict(v.sub)).form if v.sub else i.form
        return p, i

    def L_xml_getroot(self, I, lib, f, args, kw, node, st):
        return I.alloc(ObjRec('xml', {'p': Const('')}), st)

    def xml_child(self, I, st, p, i, tag):
        at = {'p': Const((p + '/' + tag).strip('/'))}
        if i is not None:
            at['i'] = scal(i)
        return I.alloc(ObjRec('xml', at), st)

    XMLTAGS = {'': ['input', 'output'], 'output': ['band_structure', 'atomic_structure', 'basis_set'],
               'input': ['basis', 'atomic_species', 'atomic_structure', 'control_variables'],
               'input/basis': ['ecutwfc', 'ecutrho'],
               'input/atomic_structure': ['cell', 'atomic_positions'],
               'input/atomic_structure/cell': ['a1', 'a2', 'a3'],
               'output/band_structure/ks_energies': ['k_point', 'npw', 'eigenvalues', 'occupations']}

    def L_xml_find(self, I, lib, f, args, kw, node, st):
        rec = I.rec(f.recv, st)
        p, i = self.xml_pos(f.recv, rec)
        if not args or not isinstance(args[0], (Const, StrT)):
            return Unknown(why='find')
        tag = args[0].v if isinstance(args[0], Const) else lib_text(args[0])
        if tag is None:
            return Unknown(why='find')
        for t in tag.strip('/').split('/'):
            tags = self.XMLTAGS.get(p)
            if p == 'output/band_structure':
                tags = ['noncolin', 'lsda', 'spinorbit', 'nelec', 'ks_energies'] + \
                    (['nbnd_up', 'nbnd_dw', 'nbnd'] if self.opt.get('spinpol') else ['nbnd']) + \
                    (['fermi_energy'] if self.opt.get('ef', True) else [])
            if tags is not None and t not in tags:
                return NONE
            p = (p + '/' + t).strip('/')
        at = {'p': Const(p)}
        if i is not None:
            at['i'] = scal(i)
        return I.alloc(ObjRec('xml', at), st)

    def L_xml_findall(self, I, lib, f, args, kw, node, st):
        rec = I.rec(f.recv, st)
        p, i = self.xml_pos(f.recv, rec)
        if not args or not isinstance(args[0], Const):
            return Unknown(why='findall')
        n = {'ks_energies': const(self.opt['nk']) if self.opt.get('nk') else NK, 'atom': NAT, 'species': NSPEC_}.get(args[0].v)
        if n is None:
            return Unknown(why='findall')
        if self.opt.get('species') and args[0].v in ('atom', 'species'):
            k = len(self.opt['species' if args[0].v == 'species' else 'atoms'])
            return I.alloc(ListRec([self.xml_child(I, st, p, const(q), args[0].v) for q in range(k)]), st)
        l = new_label()
        LABLEN[l] = n
        return I.alloc(ListRec([('gen', l, n, self.xml_child(I, st, p, lab(l), args[0].v))]), st)

    def xml_text(self, p, i, I, st):
        t = p.split('/')[-1]
        if t == 'noncolin':
            return Const('true' if self.spinor else 'false')
        if t == 'ecutwfc':
            return StrT([(scal(sym('Ecut0') * const(1 / HA)), '')])
        if t == 'nbnd_up':
            return StrT([(scal(sym('NBUP')), '')])
        if t == 'nbnd_dw':
            return StrT([(scal(sym('NBDW')), '')])
        if t == 'nbnd':
            return StrT([(scal(sym('NBUP') + sym('NBDW') if self.opt.get('spinpol') else NB), '')])
        if t == 'fermi_energy':
            return StrT([(scal(sym('EF') * const(1 / HA)), '')])
        if t in ('a1', 'a2', 'a3') and p.startswith('input'):
            k = const(int(t[1]) - 1)
            return self.line([sym('L', k, const(c)) * const(1 / BOHR) for c in range(3)])
        if t == 'atom':
            from .forms import sum_over
            d = new_label()
            LABLEN[d] = const(3)
            return self.line([sum_over(sym('pos', i, lab(d)) * sym('L', lab(d), const(c)), d, const(3)) * const(1 / BOHR) for c in range(3)])
        if t == 'npw':
            return StrT([(scal(sym('NPW')), '')])
        if t == 'eigenvalues':
            n = sym('NBUP') + sym('NBDW') if self.opt.get('spinpol') else NB
            l = new_label()
            LABLEN[l] = n
            return StrT([('rep', l, n, [(scal(sym('E', i, lab(l)) * const(1 / HA)), ''), ' '])])
        return None

    def G_xmlattr(self, I, lib, v, rec, key, node, st):
        p, i = self.xml_pos(v, rec)
        t = p.split('/')[-1]
        if self.opt.get('species') and t in ('species', 'atom') and key == 'name' and i.int_const() is not None:
            return Const(self.opt['species' if t == 'species' else 'atoms'][i.int_const()])
        if self.opt.get('species') and key in ('ntyp', 'nat'):
            return Const(str(len(self.opt['species' if key == 'ntyp' else 'atoms'])))
        if key == 'name' and t == 'species':
            return StrT([('sname', (i,)), ]) if False else StrT([(scal(sym('SPNAME', i)), 'name')])
        if key == 'name' and t == 'atom':
            return StrT([(scal(sym('SPNAME', sym('styp', i))), 'name')])
        if key == 'ntyp':
            return StrT([(scal(NSPEC_), '')])
        if key == 'nat':
            return StrT([(scal(NAT), '')])
        if key == 'alat':
            return StrT([(scal(sym('alat')), '')])
        return None


def lib_text(v):
    """constant text of a template whose pieces are constant integers"""
    out = ''
    for p in v.parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p[0], Arr) and p[0].form is not None and p[0].form.int_const() is not None:
            out += str(p[0].form.int_const())
        elif isinstance(p[0], Const):
            out += str(p[0].v)
        else:
            return None
    return out


def _l(n, f):
    l = new_label()
    LABLEN[l] = n
    return l, f(lab(l))


NTYP_, NSPEC_ = sym('NTYP'), sym('NSPEC')


def _top_atoms(form):
    out = []
    for c, dm, fa in form.items():
        for a, e in fa:
            out.append(a)
    return out


def coef_of(form, name):
    """coefficient (a form) of the symbol `name` occurring linearly; None if it occurs otherwise"""
    out = []
    for c, dm, fa in form.items():
        hit = [(a, e) for a, e in fa if a[0] == 'S' and a[1] == name]
        if not hit:
            continue
        if len(hit) != 1 or hit[0][1] != 1:
            return None
        out.append((c, dm, tuple((a, e) for a, e in fa if not (a[0] == 'S' and a[1] == name))))
    return Form.build(out)


def w_arr(vals, dtype='i'):
    """concrete numpy array"""
    l, n = newax(len(vals))
    return Arr(((l, n),), P(lab(l), [const(x) for x in vals]), dtype)


def w_arr2(rows, dtype='f'):
    l, n = newax(len(rows))
    k, m = newax(len(rows[0]))
    return Arr(((l, n), (k, m)), P(lab(l), [P(lab(k), [const(x) for x in r]) for r in rows]), dtype)
