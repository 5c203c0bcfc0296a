"""Models of numpy / scipy functions."""
import math
from fractions import Fraction
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, lift, sum_over, Top, binder, delta,
                    conj, is_real, is_int, META)
from .values import *
from . import arr as A
from .evalform import closed
from .arr import P, C, ShapeError, elementwise, updt, newax

PHYS = {'Bohr radius': 5.29177210903e-11, 'Hartree energy in eV': 27.211386245988,
        'Rydberg constant times hc in eV': 13.605693122994, 'elementary charge': 1.602176634e-19,
        'electron mass': 9.1093837015e-31, 'reduced Planck constant': 1.054571817e-34,
        'Planck constant': 6.62607015e-34, 'Hartree energy': 4.3597447222071e-18}
SCIPY_CONST = {'angstrom': 1e-10, 'hbar': 1.054571817e-34, 'h': 6.62607015e-34, 'm_e': 9.1093837015e-31,
               'e': 1.602176634e-19, 'elementary_charge': 1.602176634e-19, 'electron_mass': 9.1093837015e-31,
               'pi': math.pi, 'eV': 1.602176634e-19, 'electron_volt': 1.602176634e-19}

# positional parameter names of the functions whose arguments may come as keywords
SIG = {
    'zeros': ['shape', 'dtype'], 'ones': ['shape', 'dtype'], 'full': ['shape', 'fill_value', 'dtype'],
    'empty': ['shape', 'dtype'], 'eye': ['N', 'M', 'k', 'dtype'], 'identity': ['N', 'dtype'],
    'array': ['object', 'dtype'], 'asarray': ['object', 'dtype'], 'copy': ['object'],
    'sum': ['a', 'axis', 'dtype', 'out', 'keepdims'], 'mean': ['a', 'axis', 'dtype', 'out', 'keepdims'],
    'max': ['a', 'axis'], 'min': ['a', 'axis'],
    'amax': ['a', 'axis'], 'amin': ['a', 'axis'], 'prod': ['a', 'axis'], 'all': ['a', 'axis'], 'any': ['a', 'axis'],
    'argmin': ['a', 'axis'], 'argmax': ['a', 'axis'], 'argsort': ['a', 'axis', 'kind'], 'sort': ['a', 'axis'],
    'cumsum': ['a', 'axis'], 'norm': ['a', 'ord', 'axis'], 'roll': ['a', 'shift', 'axis'],
    'stack': ['arrays', 'axis'], 'concatenate': ['arrays', 'axis'], 'linspace': ['start', 'stop', 'num', 'endpoint'],
    'arange': ['start', 'stop', 'step', 'dtype'], 'round': ['a', 'decimals'], 'around': ['a', 'decimals'],
    'transpose': ['a', 'axes'], 'allclose': ['a', 'b', 'rtol', 'atol'], 'isclose': ['a', 'b', 'rtol', 'atol'],
    'trace': ['a', 'offset', 'axis1', 'axis2'], 'diagonal': ['a', 'offset', 'axis1', 'axis2'],
    'diag': ['a', 'k'], 'where': ['cond', 'x', 'y'], 'clip': ['a', 'a_min', 'a_max'],
    'expand_dims': ['a', 'axis'], 'squeeze': ['a', 'axis'], 'swapaxes': ['a', 'axis1', 'axis2'],
    'moveaxis': ['a', 'source', 'destination'],
    'unique': ['a'], 'flip': ['a', 'axis'], 'append': ['arr', 'values', 'axis'], 'outer': ['a', 'b'],
    'astype': ['a', 'dtype'], 'conj': ['a'], 'hstack': ['arrays'], 'vstack': ['arrays'], 'tensordot': ['a', 'b', 'axes'],
    'repeat': ['a', 'repeats', 'axis'], 'fftn': ['a', 's', 'axes', 'norm'], 'ifftn': ['a', 's', 'axes', 'norm'],
    'svd': ['a', 'full_matrices', 'compute_uv'], 'take': ['a', 'indices', 'axis'],
}

UFUNC = {
    'abs': ('abs', None), 'absolute': ('abs', None), 'fabs': ('abs', None), 'sin': ('sin', 'f'), 'cos': ('cos', 'f'),
    'tan': ('tan', 'f'), 'log': ('log', 'f'), 'angle': ('angle', 'f'), 'floor': ('floor', 'f'), 'ceil': ('ceil', 'f'),
    'isnan': ('isnan', 'b'), 'arccos': ('arccos', 'f'), 'arcsin': ('arcsin', 'f'), 'arctan': ('arctan', 'f'),
    'rint': ('round', 'f'), 'sign': ('sign', None), 'isfinite': ('isfinite', 'b'), 'acos': ('arccos', 'f'),
    'degrees': ('degrees', 'f'), 'fix': ('int', 'f'), 'trunc': ('int', 'f'),
}


def reduce_mul(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


class NumpyMixin:
    # ------------------------------------------------------------ attributes
    def arr_attr(self, v, name, node, st):
        I = self.I
        if name == 'T':
            r = A.transpose(v)
            return self.view(v, r)
        if name == 'shape':
            return Tup([num(n) for _, n in v.axes])
        if name == 'ndim':
            return num(v.ndim)
        if name == 'size':
            n = ONE
            for _, x in v.axes:
                n = n * x
            return num(n)
        if name == 'real':
            return elementwise(lambda x: self.freal(x), 'f' if v.dtype == 'c' else v.dtype, v)
        if name == 'imag':
            return elementwise(lambda x: self.fimag(x), 'f', v)
        if name == 'dtype':
            return Const('dtype:' + v.dtype)
        if name == 'flat':
            return self.np_ravel([v], {}, node, st)
        ARRM = ('sum', 'mean', 'max', 'min', 'prod', 'all', 'any', 'argmin', 'argmax', 'argsort', 'sort', 'cumsum',
                'reshape', 'ravel', 'flatten', 'transpose', 'conj', 'conjugate', 'dot', 'copy', 'astype', 'tolist',
                'round', 'diagonal', 'trace', 'swapaxes', 'squeeze', 'item', 'fill', 'clip', 'nonzero', 'repeat',
                'take', 'view', 'is_integer', 'tobytes', 'std', 'var', 'min', 'setflags', 'flags', 'byteswap', 'newbyteorder')
        if name in ARRM:
            return Builtin('arr.' + name, v)
        if name.startswith('__'):
            return Unknown(v.taint, name)
        if v.dtype == 'o':
            return Unknown(v.taint, name)
        I.error('AttributeError', "numeric value has no attribute '%s'" % name, node, st)

    def view(self, base, r):
        roots = base.roots
        if base.cell is not None:
            roots = roots | frozenset([('cell', base.cell)])
        return r.with_(roots=roots, py=False if r.axes else r.py)

    @staticmethod
    def freal(x):
        if is_real(x):
            return x
        return (x + conj(x)).scale(0.5)

    @staticmethod
    def fimag(x):
        if is_real(x):
            return ZERO
        return (x - conj(x)).scale(-0.5j)

    # ------------------------------------------------------------ dispatch
    def np_call(self, name, args, kw, node, st):
        """name without module prefix; returns a value or None when not modelled"""
        I = self.I
        kw = dict(kw)
        out = kw.get('out')
        if isinstance(out, Arr):
            r = self.np_call(name, args, {k: v for k, v in kw.items() if k != 'out'}, node, st)
            if not out.axes and out.py:
                I.error('TypeError', "'out' must be an array", node, st)
            return self.into(out, r, node, st)
        if name in SIG:
            for i, p in enumerate(SIG[name]):
                if p in kw and i == len(args):
                    args = list(args) + [kw.pop(p)]
                elif i == 0 and len(args) == 0:
                    for alt in ('a', 'x', 'tup', 'object', 'arrays', 'shape', 'p_object'):
                        if alt in kw:
                            args = [kw.pop(alt)]
                            break
        m = getattr(self, 'np_' + name, None)
        if m is not None:
            try:
                return m(list(args), kw, node, st)
            except ShapeError as e:
                I.error('ValueError', str(e), node, st)
            except Top:
                return Unknown(union_taint(*args))
        if name in UFUNC:
            f, dt = UFUNC[name]
            a = self.as_arr(args[0], st) if args else None
            if a is None:
                return self.unk(args, kw)
            d = dt or ('f' if a.dtype == 'c' and f == 'abs' else a.dtype)
            if f == 'angle':
                return elementwise(lambda x: fn('angle', x), d, a)
            return elementwise(lambda x: fn(f, x), d, a)
        return None

    def into(self, out, r, node, st):
        """the argument out= of numpy functions: the result is stored in an existing array"""
        I = self.I
        I.inplace(out, node, st)
        new = out.with_(form=None)
        if isinstance(r, Arr) and len(r.axes) == len(out.axes) and all(a[1] == b[1] for a, b in zip(r.axes, out.axes)):
            new = r.with_(roots=out.roots, dtype=out.dtype, py=False, taint=r.taint | out.taint)
        if out.cell is not None:
            new.cell = out.cell
            st.heap[out.cell] = new
        return new

    def unk(self, args, kw=None, why='np'):
        t = union_taint(*args)
        if kw:
            t = t | union_taint(*kw.values())
        return Unknown(t, why)

    def arg(self, args, kw, i, name, default=None):
        if i < len(args):
            return args[i]
        return kw.get(name, default)

    def axis_of(self, v, nd):
        """list of axis numbers, or None = not understood"""
        if v is None or isinstance(v, Const) and v.v is None:
            return list(range(nd))
        ok, p = pyconst(v)
        if not ok:
            if isinstance(v, Tup):
                return None
            return None
        if isinstance(p, tuple):
            return [int(x) % nd for x in p]
        if not -nd <= p < nd:
            raise ShapeError('axis %d is out of bounds for array of dimension %d' % (p, nd))
        return [int(p) % nd]

    def shape_arg(self, v, st):
        if isinstance(v, Arr) and not v.axes:
            return [v.form] if v.form is not None else None
        items = self.I.conc_items(v, st)
        if items is None:
            return None
        out = []
        for x in items:
            if not isinstance(x, Arr) or x.axes or x.form is None:
                return None
            out.append(x.form)
        return out

    # ------------------------------------------------------------ constructors
    def filled(self, args, kw, value, st, dtype):
        dims = self.shape_arg(args[0], st) if args else None
        t = union_taint(*args)
        if dims is None:
            return Unknown(t, 'shape')
        return Arr([newax(d) for d in dims], value, dtype, taint=t)

    def np_zeros(self, args, kw, node, st):
        return self.filled(args[:1], kw, ZERO, st, self.dtype_of(self.arg(args, kw, 1, 'dtype')) or 'f')

    def np_ones(self, args, kw, node, st):
        return self.filled(args[:1], kw, ONE, st, self.dtype_of(self.arg(args, kw, 1, 'dtype')) or 'f')

    def np_empty(self, args, kw, node, st):
        return self.filled(args[:1], kw, sym('undef'), st, self.dtype_of(self.arg(args, kw, 1, 'dtype')) or 'f')

    def np_full(self, args, kw, node, st):
        v = args[1]
        a = self.as_arr(v, st)
        if a is None or a.axes:
            return self.filled(args[:1], kw, None, st, 'o')
        dt = self.dtype_of(self.arg(args, kw, 2, 'dtype')) or a.dtype
        return self.filled(args[:1], kw, a.form, st, dt)

    def like(self, args, kw, value, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        dt = self.dtype_of(self.arg(args, kw, 1, 'dtype')) or a.dtype
        return Arr([newax(n) for _, n in a.axes], value, dt)

    def np_zeros_like(self, args, kw, node, st):
        return self.like(args, kw, ZERO, st)

    def np_ones_like(self, args, kw, node, st):
        return self.like(args, kw, ONE, st)

    def np_empty_like(self, args, kw, node, st):
        return self.like(args, kw, sym('undef'), st)

    def np_eye(self, args, kw, node, st):
        n = args[0]
        if not isinstance(n, Arr) or n.form is None or len(args) > 1 and not (isinstance(args[1], Const)):
            if len(args) > 1 and isinstance(args[1], Arr) and args[1].form == n.form:
                pass
            else:
                return self.unk(args)
        a, b = newax(n.form), newax(n.form)
        return Arr((a, b), delta(lab(a[0]), lab(b[0])), self.dtype_of(kw.get('dtype')) or 'f')

    np_identity = np_eye

    def np_array(self, args, kw, node, st):
        v = args[0]
        dt = self.dtype_of(self.arg(args, kw, 1, 'dtype'))
        a = self.as_arr(v, st, dt)
        if a is None:
            if isinstance(v, (Builtin,)):
                return Unknown(why='array')
            if dt is None and isinstance(v, Ref):
                r = self.I.rec(v, st)
                if isinstance(r, (ListRec, IterRec)) and not r.unk and r.segs and not v.sub and \
                        all(isinstance(x, (Const, StrT)) and self.is_str(x) for x in r.segs) and self.nonnumeric(v, st):
                    return self.I.alloc(ObjRec('strarr', {'items': Tup(list(r.segs))}), st)
                a = self.as_arr(v, st, 'f')
                if a is not None:
                    return a.with_(py=False, roots=NOTAINT, dtype='U')
            if dt in ('i', 'f') and self.nonnumeric(v, st):
                self.I.error('ValueError', 'text that is not a number', node, st)
            return Unknown(taint_of(v), 'np.array')
        r = a.with_(py=False, roots=NOTAINT)
        if dt and dt != 'o':
            r = self.cast(r, dt)
        return r

    def nonnumeric(self, v, st):
        if isinstance(v, Ref):
            r = self.I.rec(v, st)
            segs = r.segs if isinstance(r, (ListRec, IterRec)) and not r.unk else []
        elif isinstance(v, Seq) and v.conc is not None:
            segs = list(v.conc)
        elif isinstance(v, Tup):
            segs = v.items
        else:
            segs = [v]
        for x in segs:
            if isinstance(x, Const) and isinstance(x.v, str):
                try:
                    float(x.v)
                except ValueError:
                    return True
        return False

    def np_asarray(self, args, kw, node, st):
        a = self.as_arr(args[0], st, self.dtype_of(self.arg(args, kw, 1, 'dtype')))
        if a is None:
            return self.unk(args)
        if isinstance(args[0], Arr) and args[0].axes and len(args) == 1 and not kw:
            return args[0]
        r = a.with_(py=False)
        dt = self.dtype_of(self.arg(args, kw, 1, 'dtype'))
        return self.cast(r, dt) if dt else r

    np_ascontiguousarray = np_asarray

    def np_copy(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        return a.with_(roots=NOTAINT, py=False)

    def cast(self, a, dt):
        if a.form is not None and dt == 'i' and a.dtype in ('f', 'c'):
            return a.with_(form=fn('int', a.form), dtype='i', roots=NOTAINT)
        if a.form is not None and dt == 'b' and a.dtype != 'b':
            return a.with_(form=fn('ne', a.form, ZERO), dtype='b', roots=NOTAINT)
        return a.with_(dtype=dt, roots=NOTAINT)

    def np_astype(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        dt = self.dtype_of(self.arg(args, kw, 1, 'dtype'))
        return self.cast(a, dt) if dt and dt != 'o' else a.with_(form=None, roots=NOTAINT)

    def np_arange(self, args, kw, node, st):
        fs = []
        for x in args[:3]:
            if not isinstance(x, Arr) or x.axes or x.form is None:
                return self.unk(args)
            fs.append(x.form)
        dt = updt(*[x.dtype for x in args[:3]])
        if len(fs) == 1:
            lo, hi, stp = ZERO, fs[0], ONE
        elif len(fs) == 2:
            lo, hi, stp = fs[0], fs[1], ONE
        else:
            lo, hi, stp = fs
        s = stp.real_const()
        if s is None:
            return self.unk(args)
        n = (hi - lo).scale(1 / s)
        c = n.real_const()
        if c is not None:
            n = const(max(0, math.ceil(c - 1e-12)))
        elif s != 1:
            return self.unk(args)
        l, n = newax(n)
        return Arr(((l, n),), lo + lab(l).scale(s), dt, taint=union_taint(*args))

    def np_linspace(self, args, kw, node, st):
        if len(args) < 3 or any(not isinstance(x, Arr) or x.form is None for x in args[:3]):
            return self.unk(args)
        lo, hi, n = [x.form for x in args[:3]]
        ok, ep = pyconst(self.arg(args, kw, 3, 'endpoint', boolv(True)))
        l, n = newax(n)
        d = n - ONE if (not ok or ep) else n
        return Arr(((l, n),), lo + (hi - lo) * lab(l) * (d.powr(-1) or ONE), 'f', taint=union_taint(*args))

    # ------------------------------------------------------------ algebra
    def np_dot(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st) if len(args) > 1 else None
        if a is None or b is None:
            return self.unk(args)
        out = args[2] if len(args) > 2 else kw.get('out')
        if isinstance(out, Arr) and not out.axes and out.py:
            self.I.error('TypeError', "'out' must be an array", node, st)
        return A.dot(a, b)

    def np_matmul(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        return A.matmul(a, b)

    def np_inner(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        if not a.axes or not b.axes:
            return A.dot(a, b)
        return A.contract(a, b, a.ndim - 1, b.ndim - 1)

    def np_vdot(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None or a.ndim > 1:
            return self.unk(args)
        return A.dot(elementwise(conj, a.dtype, a), b)

    def np_outer(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None or a.ndim != 1 or b.ndim != 1:
            return self.unk(args)
        a, b = A.relabel(a), A.relabel(b)
        f = None if a.form is None or b.form is None else a.form * b.form
        return Arr(a.axes + b.axes, f, updt(a.dtype, b.dtype), taint=a.taint | b.taint)

    def np_tensordot(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        ok, ax = pyconst(args[2]) if len(args) > 2 else (True, 2)
        if not ok and len(args) > 2:
            it = self.I.conc_items(args[2], st)
            if it is not None and len(it) == 2:
                sub = []
                for x in it:
                    y = self.I.conc_items(x, st)
                    y = [x] if y is None else y
                    cs = [pyconst(z) for z in y]
                    if not all(c[0] for c in cs):
                        return self.unk(args)
                    sub.append([int(c[1]) for c in cs])
                ax, ok = tuple(sub), True
        if a is None or b is None or not ok:
            return self.unk(args)
        if isinstance(ax, int):
            xa = list(range(a.ndim - ax, a.ndim))
            xb = list(range(ax))
        else:
            xa = [ax[0]] if isinstance(ax[0], int) else list(ax[0])
            xb = [ax[1]] if isinstance(ax[1], int) else list(ax[1])
        import string
        la = list(string.ascii_lowercase[:a.ndim])
        lb = list(string.ascii_lowercase[a.ndim:a.ndim + b.ndim])
        for p, q in zip(xa, xb):
            lb[q % b.ndim] = la[p % a.ndim]
        out = [c for i, c in enumerate(la) if i not in [p % a.ndim for p in xa]] + \
              [c for i, c in enumerate(lb) if i not in [q % b.ndim for q in xb]]
        return A.einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), [a, b])

    def np_einsum(self, args, kw, node, st):
        ok, spec = pyconst(args[0])
        arrs = [self.as_arr(x, st) for x in args[1:]]
        if not ok or not isinstance(spec, str) or any(x is None for x in arrs):
            return self.unk(args)
        r = A.einsum(spec, arrs)
        return r if r is not None else self.unk(args)

    def np_cross(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None or a.ndim != 1 or b.ndim != 1:
            return self.unk(args)
        a, b = A.relabel(a), A.relabel(b)
        l, n = newax(3)
        if a.form is None or b.form is None:
            return Arr(((l, n),), None, updt(a.dtype, b.dtype), taint=a.taint | b.taint)

        def x(i):
            return a.form.subst({a.axes[0][0]: const(i)})

        def y(i):
            return b.form.subst({b.axes[0][0]: const(i)})
        comps = [x((i + 1) % 3) * y((i + 2) % 3) - x((i + 2) % 3) * y((i + 1) % 3) for i in range(3)]
        return Arr(((l, n),), P(lab(l), comps), updt(a.dtype, b.dtype), taint=a.taint | b.taint)

    def sq(self, args, node, st, what):
        a = self.as_arr(args[0], st)
        if a is None:
            return None
        if a.ndim < 2:
            self.I.error('LinAlgError', '%s: %d-dimensional array given' % (what, a.ndim), node, st)
        if A.lens_conflict(a.axes[-1][1], a.axes[-2][1]):
            self.I.error('LinAlgError', '%s: last 2 dimensions must be square' % what, node, st)
        return a

    def np_inv(self, args, kw, node, st):
        if isinstance(args[0], Const) and args[0].v is None:
            self.I.error('LinAlgError', 'inv of None', node, st)
        a = self.sq(args, node, st, 'inv')
        return self.unk(args) if a is None else A.inverse(a)

    def np_det(self, args, kw, node, st):
        a = self.sq(args, node, st, 'det')
        if a is None:
            return self.unk(args)
        n = a.axes[-1][1].int_const()
        if a.form is not None and n in (2, 3):
            s = a.form.single()
            r = A.det(a)
            if r.form is not None:
                return r
        return A.det(a)

    def np_solve(self, args, kw, node, st):
        a = self.sq(args, node, st, 'solve')
        b = self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        return A.dot(A.inverse(a), b)

    def np_eig(self, args, kw, node, st):
        a = self.sq(args, node, st, 'eig')
        if a is None:
            return Tup([self.unk(args), self.unk(args)])
        return Tup([self.eigs(a, 'eigvals', 1), self.eigs(a, 'eigvecs', 2)])

    def np_eigvals(self, args, kw, node, st):
        a = self.sq(args, node, st, 'eigvals')
        return self.unk(args) if a is None else self.eigs(a, 'eigvals', 1)

    def np_eigh(self, args, kw, node, st):
        a = self.sq(args, node, st, 'eigh')
        if a is None:
            return Tup([self.unk(args), self.unk(args)])
        return Tup([self.eigs(a, 'eigvalsh', 1), self.eigs(a, 'eigvecsh', 2)])

    def np_eigvalsh(self, args, kw, node, st):
        a = self.sq(args, node, st, 'eigvalsh')
        return self.unk(args) if a is None else self.eigs(a, 'eigvalsh', 1)

    def eigs(self, a, name, nd):
        a = A.relabel(a)
        n = a.axes[-1][1]
        rest = a.axes[:-2]
        out = [newax(n) for _ in range(nd)]
        dt = 'f' if name == 'eigvalsh' else 'c'
        if a.form is None:
            return Arr(rest + tuple(out), None, dt, taint=a.taint)
        i, j = new_label(), new_label()
        LABLEN[i] = LABLEN[j] = n
        f = a.form.subst({a.axes[-2][0]: lab(i), a.axes[-1][0]: lab(j)})
        return Arr(rest + tuple(out), binder(name, (i, j), f, tuple(lab(l) for l, _ in out)), dt, taint=a.taint)

    def np_svd(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 2:
            return Tup([self.unk(args)] * 3)
        a = A.relabel(a)
        (i, n), (j, m) = a.axes
        okf, full = pyconst(self.arg(args, kw, 1, 'full_matrices') or boolv(True))
        cn, cm = n.int_const(), m.int_const()
        k = n if n == m else const(min(cn, cm)) if cn is not None and cm is not None else None
        if k is None or not okf:
            return Tup([self.unk(args)] * 3)
        u1, u2 = newax(n), newax(n if full else k)
        v1, v2 = newax(m if full else k), newax(m)
        s1 = newax(k)

        def b(name, slots):
            if a.form is None:
                return None
            x, y = new_label(), new_label()
            LABLEN[x], LABLEN[y] = n, m
            return binder(name, (x, y), a.form.subst({i: lab(x), j: lab(y)}), slots)
        U = Arr((u1, u2), b('svdU' if full else 'svdu', (lab(u1[0]), lab(u2[0]))), a.dtype, taint=a.taint)
        S = Arr((s1,), b('svdS', (lab(s1[0]),)), 'f', taint=a.taint)
        V = Arr((v1, v2), b('svdV' if full else 'svdv', (lab(v1[0]), lab(v2[0]))), a.dtype, taint=a.taint)
        ok, cu = pyconst(kw.get('compute_uv', boolv(True)))
        if ok and not cu:
            return S
        return Tup([U, S, V])

    def np_expm(self, args, kw, node, st):
        a = self.sq(args, node, st, 'expm')
        if a is None:
            return self.unk(args)
        a = A.relabel(a)
        o1, o2 = newax(a.axes[0][1]), newax(a.axes[0][1])
        if a.form is None or a.ndim != 2:
            return Arr((o1, o2), None, 'c', taint=a.taint)
        i, j = new_label(), new_label()
        LABLEN[i] = LABLEN[j] = a.axes[0][1]
        f = binder('expm', (i, j), a.form.subst({a.axes[0][0]: lab(i), a.axes[1][0]: lab(j)}), (lab(o1[0]), lab(o2[0])))
        return Arr((o1, o2), f, 'c', taint=a.taint)

    def np_norm(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or len(args) > 1 and not (isinstance(args[1], Const) and args[1].v is None):
            return self.unk(args)
        ax = self.axis_of(self.arg(args, kw, 2, 'axis'), a.ndim)
        if ax is None:
            return self.unk(args)
        s = elementwise(lambda x: x * conj(x), 'f', a)
        r = A.reduce_sum(s, ax)
        return elementwise(lambda x: self.fpow_half(x), 'f', r)

    @staticmethod
    def fpow_half(x):
        r = x.powr(Fraction(1, 2))
        if r is None:
            raise Top()
        return r

    def np_sqrt(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(self.fpow_half, 'c' if a.dtype == 'c' else 'f', a)

    def np_square(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(lambda x: x * x, a.dtype, a)

    def np_exp(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(lambda x: fn('exp', x), 'c' if a.dtype == 'c' else 'f', a)

    def np_conj(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(conj, a.dtype, a)

    np_conjugate = np_conj

    def np_real(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(self.freal, 'f' if a.dtype == 'c' else a.dtype, a)

    def np_imag(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(self.fimag, 'f', a)

    def np_round(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        ok, d = pyconst(self.arg(args, kw, 1, 'decimals', num(0)))
        if not ok:
            return a.with_(form=None)
        if not d:
            return elementwise(lambda x: fn('round', x), a.dtype, a)
        return elementwise(lambda x: self.froundd(x, d), a.dtype, a)

    @staticmethod
    def froundd(x, d):
        c = x.real_const()
        if c is not None:
            return const(round(c, d))
        if is_int(x):
            return x
        return fn('roundto', x, const(d))

    np_around = np_round
    np_round_ = np_round

    def np_mod(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        return self.arrop('Mod', a, b, node, st)

    np_remainder = np_mod

    def two(op):
        def f(self, args, kw, node, st):
            a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
            if a is None or b is None:
                return self.unk(args)
            return self.arrop(op, a, b, node, st)
        return f
    np_add = two('Add')
    np_subtract = two('Sub')
    np_multiply = two('Mult')
    np_divide = two('Div')
    np_true_divide = two('Div')
    np_floor_divide = two('FloorDiv')
    np_power = two('Pow')
    np_logical_and = two('BitAnd')
    np_logical_or = two('BitOr')

    def np_logical_not(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else elementwise(lambda x: fn('not', fn('bool', x)), 'b', a)

    def np_negative(self, args, kw, node, st):
        return self.unop('USub', self.as_arr(args[0], st) or self.unk(args), node, st)

    def np_maximum(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        return elementwise(lambda x, y: fn('max', x, y), updt(a.dtype, b.dtype), a, b)

    def np_minimum(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return self.unk(args)
        return elementwise(lambda x, y: fn('min', x, y), updt(a.dtype, b.dtype), a, b)

    def np_clip(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else a.with_(form=None)

    # ------------------------------------------------------------ reductions
    def red(self, args, kw, name, st, dtype=None):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        ax = self.axis_of(self.arg(args, kw, 1, 'axis'), a.ndim)
        if ax is None:
            return self.unk(args)
        if name == 'sum':
            return A.reduce_sum(a, ax)
        if name == 'mean':
            r = A.reduce_sum(a, ax)
            n = ONE
            for i in ax:
                n = n * a.axes[i][1]
            if r.form is None or n.const() == 0:
                return r.with_(form=None, dtype='c' if a.dtype == 'c' else 'f')
            return r.with_(form=r.form * n.powr(-1), dtype='c' if a.dtype == 'c' else 'f')
        return A.reduce_bind(name, a, ax, dtype)

    def np_sum(self, args, kw, node, st):
        if isinstance(args[0], Ref) and isinstance(self.I.rec(args[0], st), IterRec):
            self.I.event('error', node, dict(exc='DeprecationWarning', msg='np.sum of a generator', soft=True), st)
        r = self.red(args, kw, 'sum', st)
        ok, kd = pyconst(kw.get('keepdims', boolv(False)))
        if ok and kd:
            return r.with_(form=None) if isinstance(r, Arr) else r
        return r

    def np_mean(self, args, kw, node, st):
        return self.red(args, kw, 'mean', st)

    np_average = np_mean

    def np_max(self, args, kw, node, st):
        return self.red(args, kw, 'max', st)

    def np_min(self, args, kw, node, st):
        return self.red(args, kw, 'min', st)

    np_amax, np_amin = np_max, np_min

    def np_prod(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is not None and a.ndim == 1 and a.form is not None and a.axes[0][1].int_const() is not None and a.axes[0][1].int_const() <= 24:
            f = ONE
            for i in range(a.axes[0][1].int_const()):
                f = f * a.form.subst({a.axes[0][0]: const(i)})
            return Arr((), f, a.dtype, taint=a.taint, py=True)
        return self.red(args, kw, 'prod', st)

    def np_all(self, args, kw, node, st):
        return self.red(args, kw, 'all', st, 'b')

    def np_any(self, args, kw, node, st):
        return self.red(args, kw, 'any', st, 'b')

    def np_argmin(self, args, kw, node, st):
        return self.argm(args, kw, 'argmin', st)

    def np_argmax(self, args, kw, node, st):
        return self.argm(args, kw, 'argmax', st)

    def argm(self, args, kw, name, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        if a.ndim != 1:
            return self.unk(args)
        a = A.relabel(a)
        if a.form is None:
            return Arr((), None, 'i', taint=a.taint, py=True)
        k = new_label()
        LABLEN[k] = a.axes[0][1]
        f = binder(name, (k,), a.form.subst({a.axes[0][0]: lab(k)}), ())
        c = closed(f) if a.axes[0][1].int_const() is not None else None
        if c is not None:
            f = const(int(c))
        return Arr((), f, 'i', taint=a.taint, py=True)

    def np_argsort(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1:
            return self.unk(args)
        a = A.relabel(a)
        l, n = newax(a.axes[0][1])
        if a.form is None:
            return Arr(((l, n),), None, 'i', taint=a.taint)
        c = n.int_const()
        if c is not None and c <= 24:      # constants are sorted at once
            xs = [closed(a.form.subst({a.axes[0][0]: const(i)})) for i in range(c)]
            if all(x is not None and abs(complex(x).imag) < 1e-12 for x in xs):
                order = sorted(range(c), key=lambda i: complex(xs[i]).real)
                if c:
                    return Arr(((l, n),), A.P(lab(l), [const(i) for i in order]), 'i', taint=a.taint)
        k = new_label()
        LABLEN[k] = n
        return Arr(((l, n),), binder('argsort', (k,), a.form.subst({a.axes[0][0]: lab(k)}), (lab(l),)), 'i', taint=a.taint)

    def np_sort(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1:
            return self.unk(args)
        ix = self.np_argsort([a], {}, node, st)
        if ix.form is None or a.form is None:
            return a.with_(form=None)
        return A.take_axis(A.relabel(a), 0, ix.form, ix.axes)

    def np_cumsum(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1:
            return self.unk(args)
        a = A.relabel(a)
        l, n = newax(a.axes[0][1])
        if a.form is None:
            return Arr(((l, n),), None, a.dtype, taint=a.taint)
        c = n.int_const()
        if c is not None and c <= 24:
            comps = []
            acc = ZERO
            for i in range(c):
                acc = acc + a.form.subst({a.axes[0][0]: const(i)})
                comps.append(acc)
            return Arr(((l, n),), P(lab(l), comps) if comps else ZERO, a.dtype, taint=a.taint)
        k = new_label()
        LABLEN[k] = n
        return Arr(((l, n),), binder('cumsum', (k,), a.form.subst({a.axes[0][0]: lab(k)}), (lab(l),)), a.dtype, taint=a.taint)

    def np_diff(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1 or len(args) > 1 or kw:
            return self.unk(args)
        l, n = newax(a.axes[0][1] - ONE)
        if a.form is None:
            return Arr(((l, n),), None, a.dtype, taint=a.taint)
        f = a.form.subst({a.axes[0][0]: lab(l) + ONE}) - a.form.subst({a.axes[0][0]: lab(l)})
        return Arr(((l, n),), f, a.dtype, taint=a.taint)

    def np_trace(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim < 2:
            return self.unk(args)
        d = self.np_diagonal([a], kw, node, st)
        return A.reduce_sum(d, [d.ndim - 1]) if isinstance(d, Arr) else self.unk(args)

    def np_diagonal(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim < 2 or len(args) > 1 and pyconst(args[1]) != (True, 0):
            return self.unk(args)
        x1 = pyconst(kw.get('axis1', self.arg(args, kw, 2, 'axis1', num(0))))
        x2 = pyconst(kw.get('axis2', self.arg(args, kw, 3, 'axis2', num(1))))
        if not x1[0] or not x2[0]:
            return self.unk(args)
        i, j = int(x1[1]) % a.ndim, int(x2[1]) % a.ndim
        a = A.relabel(a)
        l, n = a.axes[i]
        rest = tuple(ax for k, ax in enumerate(a.axes) if k not in (i, j))
        f = None if a.form is None else a.form.subst({a.axes[j][0]: lab(l)})
        return Arr(rest + ((l, n),), f, a.dtype, taint=a.taint)

    def np_diag(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or len(args) > 1:
            return self.unk(args)
        if a.ndim == 2:
            return self.np_diagonal([a], {}, node, st)
        a = A.relabel(a)
        l, n = a.axes[0]
        l2, _ = newax(n)
        return Arr(((l, n), (l2, n)), None if a.form is None else a.form * delta(lab(l), lab(l2)), a.dtype, taint=a.taint)

    # ------------------------------------------------------------ tests
    def np_isclose(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        t = union_taint(*args) | union_taint(*kw.values())
        if a is None or b is None:
            return Unknown(t, 'isclose')
        self.record_compare('Close', a, b, node, st)
        tol = []
        for k, i, d in (('rtol', 2, 1e-5), ('atol', 3, 1e-8)):
            v = kw.get(k, args[i] if len(args) > i else None)
            f = const(d) if v is None else v.form if isinstance(v, Arr) and not v.axes else scalar_form(v) if v is not None else None
            if f is None:
                return Arr(tuple(elementwise(lambda x, y: ZERO, 'b', a, b).axes), None, 'b', taint=t)
            tol.append(f)
        if tol == [const(1e-5), const(1e-8)]:
            r = elementwise(lambda x, y: self.fclose(x, y), 'b', a, b)
        else:
            r = elementwise(lambda x, y: fn('isclose', x - y, tol[1] + tol[0] * fn('abs', y) if tol[0].const() != 0 and y.const() != 0 else tol[1]), 'b', a, b)
        return r.with_(taint=t | r.taint)

    @staticmethod
    def fclose(x, y):
        d = x - y
        c = d.const()
        if c is not None:
            return ONE if abs(c) < 1e-8 else ZERO
        n = -d
        return fn('isclose', d if d.key() <= n.key() else n)

    def np_allclose(self, args, kw, node, st):
        r = self.np_isclose(args, kw, node, st)
        if not isinstance(r, Arr):
            return Arr((), None, 'b', taint=taint_of(r), py=True)
        x = A.reduce_bind('all', r, list(range(r.ndim)), 'b') if r.axes else r
        return x

    def np_array_equal(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None:
            return Arr((), None, 'b', taint=union_taint(*args), py=True)
        r = elementwise(lambda x, y: fn('eq', x, y), 'b', a, b)
        return A.reduce_bind('all', r, list(range(r.ndim)), 'b') if r.axes else r

    def np_where(self, args, kw, node, st):
        c = self.as_arr(args[0], st)
        if c is None or len(args) == 1 and not c.ndim:
            return self.unk(args)
        if len(args) == 3:
            x, y = self.as_arr(args[1], st), self.as_arr(args[2], st)
            if x is None or y is None:
                return self.unk(args)
            return elementwise(lambda p, q, r: fn('ite', p, q, r), updt(x.dtype, y.dtype), c, x, y)
        if c.ndim == 1:
            if c.dtype != 'b':
                c = elementwise(lambda x: fn('ne', x, ZERO), 'b', c)
            ix = self.mask_index(c, c.axes[0][1])
            if ix is None:
                return Tup([Arr((newax(sym('nmask?%d' % self.I.nfresh())),), None, 'i', taint=c.taint)])
            return Tup([ix])
        n = newax(sym('nmask?%d' % self.I.nfresh()))
        return Tup([Arr((n,), None, 'i', taint=c.taint) for _ in range(c.ndim)])

    def np_nonzero(self, args, kw, node, st):
        return self.np_where(args[:1], {}, node, st)

    def np_flatnonzero(self, args, kw, node, st):
        r = self.np_where(args[:1], {}, node, st)
        return r.items[0] if isinstance(r, Tup) else r

    def np_count_nonzero(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        return self.unk(args) if a is None else A.reduce_sum(a, list(range(a.ndim)))

    # ------------------------------------------------------------ shape
    def np_reshape(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        rest = args[1:] or [kw.get('shape', kw.get('newshape'))]
        if len(rest) == 1 and not isinstance(rest[0], Arr) or (len(rest) == 1 and isinstance(rest[0], Arr) and rest[0].axes):
            dims = self.shape_arg(rest[0], st)
        else:
            dims = []
            for x in rest:
                if isinstance(x, Arr) and not x.axes and x.form is not None:
                    dims.append(x.form)
                else:
                    dims = None
                    break
        if dims is None:
            return Unknown(union_taint(*args), 'reshape')
        ok, order = pyconst(kw.get('order', Const('C')))
        if order in ('F', 'f') or order == 'F':
            r = A.reshape(A.transpose(a), dims[::-1])
            r = A.transpose(r)
        else:
            r = A.reshape(a, dims)
        return self.view(a, r)

    def np_ravel(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        r = A.reshape(a, [const(-1)])
        return self.view(a, r)

    def np_flatten(self, args, kw, node, st):
        r = self.np_ravel(args, kw, node, st)
        return r.with_(roots=NOTAINT) if isinstance(r, Arr) else r

    def np_transpose(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        perm = None
        rest = args[1:]
        if rest and not (len(rest) == 1 and isinstance(rest[0], Const) and rest[0].v is None):
            if len(rest) == 1:
                it = self.I.conc_items(rest[0], st)
            else:
                it = rest
            if it is None:
                return self.unk(args)
            ps = [pyconst(x) for x in it]
            if not all(p[0] for p in ps) or len(ps) != a.ndim:
                if all(p[0] for p in ps):
                    raise ShapeError("axes don't match array")
                return self.unk(args)
            perm = [int(p[1]) % a.ndim for p in ps]
        return self.view(a, A.transpose(a, perm))

    def np_swapaxes(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        ps = [pyconst(x) for x in args[1:3]]
        if a is None or len(ps) != 2 or not all(p[0] for p in ps):
            return self.unk(args)
        perm = list(range(a.ndim))
        i, j = int(ps[0][1]) % a.ndim, int(ps[1][1]) % a.ndim
        perm[i], perm[j] = perm[j], perm[i]
        return self.view(a, A.transpose(a, perm))

    def np_moveaxis(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        ps = [pyconst(x) for x in args[1:3]]
        if a is None or len(ps) != 2 or not all(p[0] and isinstance(p[1], int) for p in ps):
            return self.unk(args)
        i, j = int(ps[0][1]) % a.ndim, int(ps[1][1]) % a.ndim
        perm = [k for k in range(a.ndim) if k != i]
        perm.insert(j, i)
        return self.view(a, A.transpose(a, perm))

    def np_squeeze(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        f = a.form
        axes = []
        for l, n in a.axes:
            if n.int_const() == 1:
                f = f.subst({l: ZERO}) if f is not None else None
            else:
                axes.append((l, n))
        return a.with_(axes=tuple(axes), form=f, py=not axes)

    def np_expand_dims(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        ok, p = pyconst(args[1]) if len(args) > 1 else (False, None)
        if a is None or not ok or not isinstance(p, int):
            return self.unk(args)
        axes = list(a.axes)
        axes.insert(p % (a.ndim + 1), newax(1))
        return a.with_(axes=tuple(axes), py=False)

    def np_atleast_1d(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        return a if a.axes else a.with_(axes=(newax(1),), py=False)

    def arrs_of(self, v, st):
        items = self.I.conc_items(v, st)
        if items is not None and not isinstance(v, Arr):
            xs = [self.as_arr(x, st) for x in items]
            return None if any(x is None for x in xs) else xs
        if isinstance(v, Arr) and v.axes and v.axes[0][1].int_const() is not None:
            return [A.take_axis(v, 0, const(i)) for i in range(v.axes[0][1].int_const())]
        return None

    def gen_concat(self, v, axis, st):
        """concatenation of a list with generic segments"""
        if not isinstance(v, Ref):
            return None
        r = self.I.rec(v, st)
        if not isinstance(r, (ListRec, IterRec)) or r.unk:
            return None
        segs = self.segs_of(v, st) if isinstance(r, ListRec) else [s if not isinstance(s, tuple) else s for s in r.segs]
        parts = []
        for s in segs:
            if isinstance(s, tuple) and s[0] == 'gen':
                x = self.as_arr(self.I.loadv(s[3], st), st)
                if x is None or x.form is None:
                    return None
                x = A.relabel(x)
                if axis >= x.ndim:
                    return None
                l, n = x.axes[axis]
                if s[1] in n.labels():
                    return None
                nl, nn = newax(s[2] * n)
                nc = n.int_const()
                if nc == 1:
                    f = x.form.subst({s[1]: lab(nl), l: ZERO})
                else:
                    f = x.form.subst({s[1]: fn('floordiv', lab(nl), n), l: fn('mod', lab(nl), n)})
                axes = list(x.axes)
                axes[axis] = (nl, nn)
                parts.append(x.with_(axes=tuple(axes), form=f))
            elif isinstance(s, tuple):
                return None
            else:
                x = self.as_arr(s, st)
                if x is None:
                    return None
                parts.append(x)
        if not parts:
            return None
        return A.concat_vals(parts, axis)

    def np_concatenate(self, args, kw, node, st):
        ok, ax = pyconst(self.arg(args, kw, 1, 'axis', num(0)))
        xs = self.arrs_of(args[0], st)
        if xs is None:
            r = self.gen_concat(args[0], ax, st) if ok and isinstance(ax, int) and ax >= 0 else None
            return r if r is not None else self.unk(args)
        if not ok or not isinstance(ax, int):
            return self.unk(args)
        return A.concat_vals(xs, ax % xs[0].ndim)

    def np_hstack(self, args, kw, node, st):
        xs = self.arrs_of(args[0], st)
        if xs is None:
            r = self.gen_concat(args[0], 0, st)
            if r is not None and r.ndim == 1:
                return r
            r = self.gen_concat(args[0], 1, st)
            return r if r is not None else self.unk(args)
        xs = [x if x.axes else x.with_(axes=(newax(1),), py=False) for x in xs]
        return A.concat_vals(xs, 0 if xs[0].ndim == 1 else 1)

    def np_vstack(self, args, kw, node, st):
        xs = self.arrs_of(args[0], st)
        if xs is None:
            a = self.as_arr(args[0], st)
            if a is not None and a.ndim == 2:
                return a
            r = self.gen_concat(args[0], 0, st)
            return r if r is not None and r.ndim > 1 else self.unk(args)
        out = []
        for x in xs:
            if x.ndim == 0:
                x = x.with_(axes=(newax(1), newax(1)), py=False)
            elif x.ndim == 1:
                x = A.relabel(x).with_(axes=(newax(1),) + x.axes) if False else x.with_(axes=(newax(1),) + x.axes)
            out.append(x)
        return A.concat_vals(out, 0)

    def np_append(self, args, kw, node, st):
        a, b = self.as_arr(args[0], st), self.as_arr(args[1], st)
        if a is None or b is None or len(args) > 2 or kw:
            return self.unk(args)
        a = self.np_ravel([a], {}, node, st) if a.ndim != 1 else a
        b = self.np_ravel([b], {}, node, st) if b.ndim > 1 else b if b.ndim else b.with_(axes=(newax(1),), py=False)
        return A.concat_vals([a, b], 0)

    def np_stack(self, args, kw, node, st):
        ok, ax = pyconst(self.arg(args, kw, 1, 'axis', num(0)))
        xs = self.arrs_of(args[0], st)
        if not ok or not isinstance(ax, int):
            return self.unk(args)
        if xs is None:
            a = self.as_arr(args[0], st)
            if a is None:
                return self.unk(args)
            perm = list(range(1, a.ndim))
            perm.insert(ax % a.ndim, 0)
            return A.transpose(a, perm)
        r = A.stack_vals(xs, ax % (xs[0].ndim + 1))
        return r if r is not None else self.unk(args)

    def np_column_stack(self, args, kw, node, st):
        return self.np_stack(args, dict(axis=num(1)), node, st)

    def np_roll(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        sh = args[1] if len(args) > 1 else None
        ax = self.arg(args, kw, 2, 'axis')
        if a is None or not isinstance(sh, Arr) or sh.form is None or sh.axes:
            return self.unk(args)
        if ax is None or isinstance(ax, Const):
            if a.ndim != 1:
                return a.with_(form=None)
            k = 0
        else:
            ok, k = pyconst(ax)
            if not ok or not isinstance(k, int):
                return self.unk(args)
            k %= a.ndim
        a = A.relabel(a)
        l, n = a.axes[k]
        nl, nn = newax(n)
        s = sh.form.int_const()
        if a.form is None:
            return a
        if n.int_const() is not None and s is not None and n.int_const() <= 24:
            N = n.int_const()
            f = P(lab(nl), [a.form.subst({l: const((p - s) % N)}) for p in range(N)])
        else:
            f = a.form.subst({l: fn('mod', lab(nl) - sh.form, n)})
        axes = list(a.axes)
        axes[k] = (nl, nn)
        return a.with_(axes=tuple(axes), form=f)

    def np_flip(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1:
            return self.unk(args)
        return self.index(a, [Slice(None, None, num(-1))], node, st)

    def np_repeat(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        if a is None or a.ndim != 1 or not isinstance(args[1], Arr) or args[1].axes or args[1].form is None:
            return self.unk(args)
        n = args[1].form
        l, nn = newax(a.axes[0][1] * n)
        return a.with_(axes=((l, nn),), form=None if a.form is None else a.form.subst({a.axes[0][0]: fn('floordiv', lab(l), n)}))

    def np_take(self, args, kw, node, st):
        a = self.as_arr(args[0], st)
        ok, ax = pyconst(self.arg(args, kw, 2, 'axis', Const(None)))
        if a is None or not ok or not isinstance(ax, int):
            return self.unk(args)
        idx = [Slice(None, None, None)] * (ax % a.ndim) + [args[1]]
        return self.index(a, idx, node, st)

    def np_item(self, args, kw, node, st):
        a = args[0]
        if isinstance(a, Arr) and not a.axes:
            return a.with_(py=True)
        return self.unk(args)

    def np_tolist(self, args, kw, node, st):
        a = args[0]
        if not isinstance(a, Arr):
            return self.unk(args)
        return self.to_nested_list(a, st)

    def to_nested_list(self, a, st):
        if not a.axes:
            return a.with_(py=True)
        l, n = a.axes[0]
        c = n.int_const()
        if c is not None and c <= 24:
            return self.I.newlist([self.to_nested_list(A.take_axis(a, 0, const(i)), st) for i in range(c)], st)
        a = A.relabel(a)
        l, n = a.axes[0]
        e = self.to_nested_list(A.take_axis(a, 0, lab(l)), st)
        return self.I.alloc(ListRec([('gen', l, n, self.I.bindv(e, st))]), st)

    def np_fill(self, args, kw, node, st):
        return NONE

    def np_is_integer(self, args, kw, node, st):
        a = args[0]
        return Arr((), None if a.form is None else fn('eq', a.form, fn('round', a.form)), 'b', taint=a.taint, py=True)

    def np_unique(self, args, kw, node, st):
        if kw or len(args) != 1:
            return self.unk(args)
        a = self.as_arr(args[0], st)
        if a is None or a.form is None:
            return self.unk(args)
        if a.ndim > 1:
            a = A.reshape(a, [reduce_mul(n for _, n in a.axes)])
        if a is None or a.form is None or a.ndim != 1:
            return self.unk(args)
        s = self.np_sort([a], {}, node, st)
        if not isinstance(s, Arr) or s.form is None:
            return self.unk(args)
        n = s.axes[0][1]
        if n.int_const() == 0:
            return s
        l, m = newax(n - ONE)
        x = s.form.subst({s.axes[0][0]: lab(l) + ONE})
        y = s.form.subst({s.axes[0][0]: lab(l)})
        w = self.np_where([Arr(((l, m),), fn('ne', x, y), 'b')], {}, node, st)
        w = w.items[0] if isinstance(w, Tup) else None
        if not isinstance(w, Arr) or w.form is None:
            return self.unk(args)
        w = elementwise(lambda q: q + ONE, 'i', w)
        ix = A.concat_vals([Arr((newax(1),), ZERO, 'i'), w], 0)
        if ix is None or ix.form is None:
            return self.unk(args)
        s = A.relabel(s)
        return A.take_axis(s, 0, ix.form, ix.axes)

    def np_fftn(self, args, kw, node, st, name='fftn'):
        a = self.as_arr(args[0], st)
        if a is None:
            return self.unk(args)
        ax = self.axis_of(self.arg(args, kw, 2, 'axes'), a.ndim)
        if ax is None:
            return self.unk(args)
        a = A.relabel(a)
        if a.form is None:
            return a.with_(dtype='c')
        f = a.form
        bl, slots = [], []
        axes = list(a.axes)
        for k in ax:
            l, n = axes[k]
            nl, nn = newax(n)
            b = new_label()
            LABLEN[b] = n
            f = f.subst({l: lab(b)})
            bl.append(b)
            slots.append(lab(nl))
            axes[k] = (nl, nn)
        return Arr(axes, binder(name, tuple(bl), f, tuple(slots)), 'c', taint=a.taint)

    def np_ifftn(self, args, kw, node, st):
        return self.np_fftn(args, kw, node, st, 'ifftn')

    def np_random(self, args, kw, node, st):
        dims = self.shape_arg(args[0], st) if args else []
        return Arr([newax(d) for d in dims or []], sym('rand%d' % self.I.nfresh(), *[]), 'f', taint=frozenset(['random']))

    def np_setflags(self, args, kw, node, st):
        return NONE

    def np_allclose_(self, *a):
        return None
