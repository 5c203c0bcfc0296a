"""Models of Python builtins, strings, containers, files and small library modules."""
import math
import re
import string as _string
from fractions import Fraction
from .forms import (Form, ZERO, ONE, const, lab, fn, sym, new_label, LABLEN, lift, sum_over, Top, binder, conj,
                    is_real, is_int, META)
from .values import *
from . import arr as A
from .arr import P, C, ShapeError, elementwise, updt, newax

BUILTINS = set('''len range enumerate zip print int float complex str bool abs sum min max round sorted list tuple set
dict open isinstance hasattr getattr setattr iter next any all map filter reversed exit quit type repr super object
ord chr id input format divmod pow frozenset bytes slice callable vars dir hash'''.split())
EXCS = set('''Exception BaseException ValueError TypeError RuntimeError KeyError IndexError AttributeError AssertionError
NameError FileNotFoundError OSError IOError StopIteration ZeroDivisionError NotImplementedError ImportError SystemExit
UserWarning DeprecationWarning Warning LookupError ArithmeticError KeyboardInterrupt UnicodeDecodeError RuntimeWarning
UnboundLocalError'''.split())


class PyMixin:
    def builtin(self, n):
        if n in BUILTINS or n in EXCS:
            return Builtin(n)
        if n == 'NotImplemented':
            return Const('NotImplemented')
        if n in ('__file__', '__name__'):
            return StrT(['<file>'])
        return None

    def attr_of_module(self, mod, name, node=None, st=None):
        I = self.I
        if mod.split('.')[0] in ('irrep', 'irreptables'):
            m = I.load(mod)
            if m is not None:
                if name in m['env']:
                    return m['env'][name]
                if I.modfile(mod + '.' + name):
                    I.load(mod + '.' + name)
                    return Module(mod + '.' + name)
                if st is not None:
                    I.error('AttributeError', "module '%s' has no attribute '%s'" % (mod, name), node, st)
            return Unknown(why='module attr')
        top = mod.split('.')[0]
        if top in ('numpy', 'math', 'cmath', 'np'):
            if name == 'pi':
                return num(math.pi)
            if name == 'e':
                return num(math.e)
            if name in ('inf', 'Inf', 'infty'):
                return num(float('inf'))
            if name in ('nan', 'NaN'):
                return num(sym('nan'), 'f')
            if name == 'newaxis':
                return NONE
        if mod == 'scipy.constants':
            from .lib_np import SCIPY_CONST
            if name in SCIPY_CONST:
                return num(SCIPY_CONST[name])
        if mod == 'sys' and name in ('stdout', 'stderr'):
            return Builtin('sys.' + name)
        if mod == 'sys' and name == 'argv':
            return Unknown(why='argv')
        if mod == 'spglib' and name == '__version__':
            return StrT([('spglib_version', '')]) if False else Unknown(why='version')
        if name in ('linalg', 'random', 'fft', 'constants', 'io', 'optimize', 'path', 'environ', 'etree', 'ElementTree',
                    'special', 'version', 'testing'):
            return Module(mod + '.' + name)
        return Builtin(mod + '.' + name)

    # ------------------------------------------------------------ strings
    def mkstr(self, parts):
        s = StrT(parts)
        if all(isinstance(p, str) for p in s.parts):
            return Const(''.join(s.parts))
        return s

    def fmt_parts(self, x, spec, st, node, conv=''):
        I = self.I
        if self.is_str(x):
            p = self.sparts(x)
            ok, s = pyconst(x)
            if ok and conv != 'r':
                try:
                    return [format(s, spec)] if spec not in ('', '?') else [s]
                except ValueError:
                    I.error('ValueError', 'format spec %r for a string' % spec, node, st)
            if spec:
                return [('fmt', spec, p)] if False else p
            return p
        if isinstance(x, Const):
            if x.v is None and spec not in ('', '?'):
                I.error('TypeError', 'unsupported format string passed to NoneType.__format__', node, st)
            return [str(x.v)]
        if isinstance(x, Arr):
            if x.axes:
                if spec not in ('', '?') and x.axes:
                    n = ONE
                    for _, k in x.axes:
                        n = n * k
                    I.error('TypeError', 'unsupported format string passed to numpy.ndarray.__format__', node, st)
                return [(x, spec)]
            if spec and spec[-1] in 'd' and x.dtype in ('f', 'c') and x.form is not None and x.py and not is_int(x.form):
                I.error('ValueError', "format code 'd' for a float", node, st)
            return [(x, spec)]
        if isinstance(x, Ref) and spec not in ('', '?') and isinstance(I.rec(x, st), (ListRec, DictRec)):
            I.error('TypeError', 'unsupported format string passed to list.__format__', node, st)
        return [(x, spec)]

    def template(self, fmt):
        ok, s = pyconst(fmt)
        if ok or not isinstance(fmt, StrT):
            return ok, s
        out = ''
        for p in fmt.parts:
            if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], Arr) and not p[0].axes and p[0].form is not None and p[0].dtype == 'i' and p[1] != '?':
                k = p[0].form.int_const()
                if k is None:
                    return False, None
                try:
                    p = format(int(k), p[1])
                except ValueError:
                    return False, None
            if not isinstance(p, str):
                return False, None
            out += p
        return True, out

    def percent_format(self, fmt, args, st, node):
        I = self.I
        ok, s = self.template(fmt)
        if not ok:
            return StrT([(Unknown(union_taint(fmt, args), 'format'), '')], union_taint(fmt, args))
        vals = list(args.items) if isinstance(args, Tup) else [args]
        parts = []
        pos = 0
        n = 0
        for m in re.finditer(r'%(\((\w+)\))?([#0\- +]*)(\d+|\*)?(\.(\d+|\*))?([hlL])?([a-zA-Z%])', s):
            parts.append(s[pos:m.start()])
            pos = m.end()
            if m.group(8) == '%':
                parts.append('%')
                continue
            if m.group(2):
                parts.append((Unknown(taint_of(args)), ''))
                n = None
                continue
            if n is None:
                continue
            if n >= len(vals):
                if isinstance(args, (Unknown,)):
                    parts.append((Unknown(taint_of(args)), ''))
                    continue
                I.error('TypeError', 'not enough arguments for format string', node, st)
            v = vals[n]
            n += 1
            c = m.group(8)
            spec = (m.group(3) or '') + (m.group(4) or '') + (m.group(5) or '') + ('' if c in 's' else 'd' if c == 'i' else c)
            if c in 'dfeEgGi':
                if self.is_str(v) or isinstance(v, Const) or isinstance(v, Ref) and isinstance(I.rec(v, st), (ListRec, DictRec)):
                    I.error('TypeError', '%%%s format: a number is required' % c, node, st)
                if isinstance(v, Arr) and v.axes:
                    k = ONE
                    for _, q in v.axes:
                        k = k * q
                    if k.int_const() != 1:
                        I.error('TypeError', 'only size-1 arrays can be formatted with %%%s' % c, node, st)
                parts.append((v, spec))
            else:
                parts += self.fmt_parts(v, '', st, node)
        if n is not None and n < len(vals) and isinstance(args, Tup):
            I.error('TypeError', 'not all arguments converted during string formatting', node, st)
        parts.append(s[pos:])
        return self.mkstr(parts)

    def str_format(self, fmt, args, kw, st, node, auto=None):
        I = self.I
        auto = auto or [0]
        ok, s = self.template(fmt)
        if not ok:
            return StrT([(Unknown(union_taint(fmt, *args), 'format'), '')], union_taint(fmt, *args))
        parts = []
        try:
            toks = list(_string.Formatter().parse(s))
        except ValueError as e:
            I.error('ValueError', str(e), node, st)
        for lit, field, spec, conv in toks:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            m = re.match(r'^(\w*)(.*)$', field)
            name, tail = m.group(1), m.group(2)
            if name == '':
                i = auto[0]
                auto[0] += 1
                if i >= len(args):
                    I.error('IndexError', 'Replacement index %d out of range for positional args' % i, node, st)
                v = args[i]
            elif name.isdigit():
                i = int(name)
                if i >= len(args):
                    I.error('IndexError', 'Replacement index %d out of range for positional args' % i, node, st)
                v = args[i]
            else:
                if name not in kw:
                    if '**' in kw:
                        v = Unknown()
                    else:
                        I.error('KeyError', 'format key %r' % name, node, st)
                else:
                    v = kw[name]
            for acc in re.findall(r'\.(\w+)|\[(\w+)\]', tail):
                if acc[0]:
                    v = I.getattr(v, acc[0], node, st)
                else:
                    v = self.getitem(v, [num(int(acc[1])) if acc[1].isdigit() else Const(acc[1])], node, st)
            if spec and '{' in spec:
                okk, sp = pyconst(self.str_format(Const(spec), args, kw, st, node, auto))
                spec = sp if okk else '?'
            parts += self.fmt_parts(v, spec or '', st, node, conv or '')
        return self.mkstr(parts)

    def str_attr(self, v, name, node, st):
        METHODS = set('''split strip lstrip rstrip lower upper format join find startswith endswith replace index count
 splitlines title isdigit encode decode partition rfind zfill ljust rjust center capitalize isalpha rsplit isspace
 expandtabs swapcase isnumeric casefold removeprefix removesuffix translate rpartition isidentifier isupper islower'''.split())
        if name not in METHODS and not name.startswith('__'):
            self.I.error('AttributeError', "'str' object has no attribute '%s'" % name, node, st)
        return Builtin('str.' + name, v)

    def str_index(self, v, i, node, st):
        ok, p = pyconst(v)
        if isinstance(i, Slice):
            lo, hi, sp = [(True, None) if x is None else pyconst(x) for x in (i.lo, i.hi, i.step)]
            if ok and lo[0] and hi[0] and sp[0]:
                return Const(p[lo[1]:hi[1]:sp[1]])
            if isinstance(v, StrT) and lo == (True, None) and hi[0] and isinstance(hi[1], int) and hi[1] < 0 and sp == (True, None):
                last = v.parts[-1] if v.parts else ''
                if isinstance(last, str) and len(last) >= -hi[1]:
                    return self.mkstr(v.parts[:-1] + [last[:hi[1]]])
            return StrT([('slice', repr(v), lo, hi, sp)], taint_of(v)) if False else Unknown(taint_of(v), 'str slice')
        okk, k = pyconst(i)
        if ok and okk and isinstance(k, int):
            if -len(p) <= k < len(p):
                return Const(p[k]) if isinstance(p, str) else num(p[k])
            self.I.error('IndexError', 'string index out of range', node, st)
        if okk and isinstance(k, str):
            self.I.error('TypeError', 'string indices must be integers', node, st)
        if isinstance(v, StrT) and okk and k == 0 and v.parts and isinstance(v.parts[0], str):
            return Const(v.parts[0][0])
        if isinstance(v, StrT) and okk and k == 0 and v.parts and isinstance(v.parts[0][0], Arr):
            return Const('1')        # a number starts with a digit, a sign or a point
        return Unknown(taint_of(v), 'str index')

    def split_parts(self, v):
        """tokens (list of part lists) of a text line split at whitespace; None if not decidable.
        A ('rep', ...) part becomes a generic segment."""
        toks = [[]]
        for p in (v.parts if isinstance(v, StrT) else [v.v]):
            if isinstance(p, str):
                bits = re.split(r'(\s+)', p)
                for b in bits:
                    if b == '':
                        continue
                    if b.isspace():
                        if toks[-1]:
                            toks.append([])
                    else:
                        toks[-1].append(b)
            elif p[0] == 'rep':
                if toks[-1]:
                    toks.append([])
                inner = self.split_parts(StrT(p[3]))
                if inner is None or len(inner) != 1:
                    return None
                toks[-1] = ('gen', p[1], p[2], self.mkstr(inner[0]))
                toks.append([])
            elif p[0] in ('phi', 'prev'):
                return None
            else:
                toks[-1].append(p)
        if toks and toks[-1] == []:
            toks.pop()
        return toks

    def str_method(self, name, v, args, kw, node, st):
        I = self.I
        ok, s = pyconst(v)
        pa = [pyconst(a) for a in args]
        t = union_taint(v, *args)
        if name == 'format':
            return self.str_format(v, args, kw, st, node)
        if name == 'join':
            return self.str_join(v, args[0], node, st)
        if ok and all(a[0] for a in pa) and not kw and isinstance(s, str):
            try:
                r = getattr(s, name)(*[a[1] for a in pa])
            except (ValueError, IndexError) as e:
                I.error(type(e).__name__, str(e), node, st)
            except TypeError as e:
                I.error('TypeError', str(e), node, st)
            if isinstance(r, list):
                return I.newlist([Const(x) for x in r], st)
            if isinstance(r, tuple):
                return Tup([Const(x) for x in r])
            if isinstance(r, bytes):
                return Const(r)
            return from_py(r)
        if name == 'split' and isinstance(v, StrT):
            if not args:
                toks = self.split_parts(v)
                if toks is not None:
                    segs = []
                    for x in toks:
                        if isinstance(x, tuple):
                            segs.append(x)
                        else:
                            segs.append(self.mkstr(x))
                    return I.alloc(ListRec(segs), st)
            elif pa[0][0] and isinstance(pa[0][1], str):
                sep = pa[0][1]
                mx = pa[1][1] if len(pa) > 1 and pa[1][0] else -1
                if not any(not isinstance(p, str) and p[0] in ('rep', 'phi', 'prev') for p in v.parts):
                    out = [[]]
                    for p in v.parts:
                        if isinstance(p, str):
                            bits = p.split(sep)
                            for q, b in enumerate(bits):
                                if q:
                                    if mx >= 0 and len(out) > mx:
                                        out[-1].append(sep + b)
                                        continue
                                    out.append([])
                                if b:
                                    out[-1].append(b)
                        else:
                            out[-1].append(p)
                    return I.newlist([self.mkstr(x) for x in out], st)
            return I.alloc(ListRec([], True), st)
        if name in ('strip', 'lstrip', 'rstrip') and isinstance(v, StrT):
            parts = list(v.parts)
            ch = pa[0][1] if pa and pa[0][0] else None
            if name != 'rstrip' and parts and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(ch)
            if name != 'lstrip' and parts and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(ch)
            return self.mkstr(parts)
        if name in ('lower', 'upper') and isinstance(v, StrT):
            return StrT([getattr(p, name)() if isinstance(p, str) else p for p in v.parts], v.taint)
        if name in ('startswith', 'endswith') and isinstance(v, StrT) and pa and pa[0][0] and isinstance(pa[0][1], str):
            e = v.parts[0] if name == 'startswith' else v.parts[-1]
            if isinstance(e, str) and len(e) >= len(pa[0][1]):
                return boolv(getattr(e, name)(pa[0][1]))
            return Arr((), None, 'b', taint=t, py=True)
        if name == 'replace' and isinstance(v, StrT) and len(pa) == 2 and pa[0][0] and pa[1][0]:
            return StrT([p.replace(pa[0][1], pa[1][1]) if isinstance(p, str) else p for p in v.parts], t)
        if name in ('find', 'index', 'count', 'rfind'):
            return Arr((), None, 'i', taint=t, py=True)
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isnumeric'):
            return Arr((), None, 'b', taint=t, py=True)
        if name in ('ljust', 'rjust', 'center', 'zfill', 'title', 'capitalize', 'decode', 'encode', 'expandtabs'):
            return v
        if name in ('splitlines', 'rsplit'):
            return I.alloc(ListRec([], True), st)
        return Unknown(t, 'str.' + name)

    def str_join(self, sep, lst, node, st):
        I = self.I
        if True:
            I.setorder(lst, node, st, 'join')
        items = I.conc_items(lst, st)
        t = union_taint(sep, lst)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts += self.sparts(sep)
                if self.is_str(x):
                    parts += self.sparts(x)
                elif isinstance(x, Arr) or isinstance(x, Const):
                    I.error('TypeError', 'sequence item %d: expected str instance' % i, node, st)
                else:
                    parts.append((x, ''))
            return self.mkstr(parts)
        segs = None
        if isinstance(lst, Ref):
            r = I.rec(lst, st)
            if isinstance(r, ListRec) and not r.unk:
                segs = self.segs_of(lst, st)
            elif isinstance(r, IterRec) and not r.unk and r.pos is None:
                m = dict(lst.sub)
                segs = []
                for s in r.segs:
                    if isinstance(s, tuple) and s[0] == 'gen':
                        segs.append(('gen', s[1], s[2].subst(m), val_subst(s[3], m)))
                    elif isinstance(s, tuple):
                        segs.append((s[0], s[1], val_subst(s[2], m)))
                    else:
                        segs.append(val_subst(s, m))
        elif isinstance(lst, (Seq, Arr)):
            seq = self.to_seq(lst, st, node)
            if seq is not None and seq.get is not None:
                l, n = newax(seq.length)
                segs = [('gen', l, n, seq.get(lab(l)))]
        if segs is None:
            return Unknown(t, 'join')
        parts = []
        first = True
        for s in segs:
            if isinstance(s, tuple) and s[0] == 'gen':
                x = I.loadv(s[3], st)
                if isinstance(x, Arr):
                    I.error('TypeError', 'join: expected str instance, number found', node, st)
                p = self.sparts(x) if self.is_str(x) else [(x, '')]
                if not first:
                    parts += self.sparts(sep)
                sp = self.sparts(sep)
                sp = sp if sp != [''] else []
                parts.append(('rep', s[1], s[2], p + sp, len(sp)))
            elif isinstance(s, tuple):
                x = s[2]
                p = self.sparts(x) if self.is_str(x) else [(x, '')]
                parts.append(('cond', s[1], p))
            else:
                if not first:
                    parts += self.sparts(sep)
                parts += self.sparts(s) if self.is_str(s) else [(s, '')]
            first = False
        return StrT(parts, t)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node, st):
        I = self.I
        name = f.name
        short = name.split('.')[-1]
        pre = name.rsplit('.', 1)[0] if '.' in name else ''
        w = I.world
        if w is not None:
            r = w.lib_call(I, self, name, f, args, kw, node, st)
            if r is not None:
                return r
        if pre == 'super':
            me = st.env.get('self')
            rec = I.rec(me, st) if isinstance(me, Ref) else None
            if isinstance(rec, ObjRec) and isinstance(rec.cls, Class):
                here = getattr(getattr(I.ctx, 'func', None), 'cls', None) or rec.cls
                for b in here.bases:
                    if isinstance(b, Class):
                        m = b.lookup(short)
                        if m is not None:
                            return I.call(Bound(m, me), args, kw, node, st)
                if short == '__init__':
                    self.ext_init(me, rec.cls, args, kw, node, st)
                    return NONE
            I.event('supercall', node, dict(name=short, args=args), st)
            return Unknown(why='super')
        if isinstance(f, FileMethod):
            return self.file_call(f.meth, f.recv, I.rec(f.recv, st), args, kw, node, st)
        if pre == 'str' and f.recv is not None:
            return self.str_method(short, f.recv, args, kw, node, st)
        if pre == 'arr':
            a = I.loadv(f.recv, st)
            if short in ('sort', 'fill'):
                r = a.with_(form=None)
                if short == 'sort' and not args and not kw:
                    r = self.np_sort([a], {}, node, st)
                if short == 'fill' and args and isinstance(args[0], Arr) and not args[0].axes:
                    r = a.with_(form=args[0].form)
                I.inplace(a, node, st)
                if a.cell is not None and isinstance(r, Arr):
                    r = r.with_(roots=a.roots)
                    r.cell = a.cell
                    st.heap[a.cell] = r
                return NONE
            r = self.np_call(short, [a] + list(args), kw, node, st)
            return r if r is not None else Unknown(union_taint(a, *args), 'arr.' + short)
        if pre in ('list', 'set'):
            return self.list_method(short, f.recv, args, kw, node, st)
        if pre == 'dict':
            if f.recv is None:
                if short == 'fromkeys' and args:
                    its = I.conc_items(args[0], st)
                    if its is None:
                        sq = self.to_seq(args[0], st, node)
                        its = sq.conc if sq is not None else None
                    if its is not None and all(pyconst(x)[0] for x in its):
                        d = {}
                        for x in its:
                            d.setdefault(I.keyrepr(x), x)
                        return I.alloc(DictRec([(x, args[1] if len(args) > 1 else NONE) for x in d.values()]), st)
                return Unknown(union_taint(*args))
            return self.dict_method(short, f.recv, args, kw, node, st)
        if pre == 'tuple':
            return self.list_method(short, f.recv, args, kw, node, st) if short in ('index', 'count') else Unknown()
        if pre == 'iter':
            if short == '__next__':
                return I.next_iter(f.recv, st, node)
            return Unknown()
        if name in ('numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.seed', 'random.Random', 'random.seed'):
            if not args or pyconst(args[0]) == (True, None) or not (isinstance(args[0], (Const, Arr)) and not taint_of(args[0])):
                I.event('random', node, dict(name=name), st)
            elif name.endswith('seed'):
                I.seeded = True
            return NONE if name.endswith('seed') else Unknown(frozenset(['rng']), 'rng')
        if name.startswith('numpy.random'):
            if not getattr(I, 'seeded', False):
                I.event('random', node, dict(name=name), st)
            if short in ('seed', 'default_rng'):
                return NONE if short == 'seed' else Unknown(why='rng')
            return self.np_random(args, kw, node, st)
        if pre.startswith('random') or name.startswith('random.'):
            I.event('random', node, dict(name=name), st)
            return Unknown(frozenset(['random']), 'random')
        if pre in ('numpy', 'numpy.linalg', 'numpy.fft', 'scipy.linalg', 'scipy.fft', 'math', 'cmath', 'scipy.fftpack', 'numpy.core'):
            if short in ('int', 'float', 'complex', 'bool') or re.match(r'(int|uint|float|complex)\d+$', short):
                return self.py_call({'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex', 'b': 'bool'}[short[0]], args, kw, node, st)
            if pre == 'math' and short in ('gcd',):
                return Unknown(union_taint(*args))
            if pre == 'numpy' and short in ('fromfile', 'loadtxt', 'load', 'genfromtxt', 'savetxt', 'save'):
                I.event('io', node, dict(name=short, args=args), st)
                return Unknown(union_taint(*args), short)
            h = I.call_hooks.get('ext:' + name)
            r = h(I, args, kw, st, node) if h is not None else None
            if r is None:
                r = self.np_call(short, args, kw, node, st)
            if r is not None:
                return r
            I.event('unmodelled', node, dict(name=name), st)
            return Unknown(union_taint(*args) | union_taint(*kw.values()), name)
        if not pre and (name in BUILTINS or name in EXCS):
            return self.py_call(name, args, kw, node, st)
        return self.lib_misc(name, short, pre, f, args, kw, node, st)

    def lib_misc(self, name, short, pre, f, args, kw, node, st):
        I = self.I
        h = I.call_hooks.get('ext:' + name)
        if h is not None:
            return h(I, args, kw, st, node)
        if name in ('copy.deepcopy', 'copy.copy'):
            return self.deepcopy(args[0], st, deep=short == 'deepcopy')
        if name == 'functools.reduce':
            items = I.conc_items(args[1], st)
            if items is not None:
                acc = args[2] if len(args) > 2 else None
                for x in items:
                    acc = x if acc is None else I.call(args[0], [acc, x], {}, node, st)
                return acc if acc is not None else Unknown()
            return Unknown(union_taint(*args), 'reduce')
        if name in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'functools.partial'):
            if short == 'partial':
                return Partial(args[0], args[1:], kw)
            return Builtin('identity')
        if name == 'identity':
            return args[0] if args else NONE
        if name in ('sys.exit', 'os._exit'):
            return self.py_call('exit', args, kw, node, st)
        if name in ('sys.stdout.write', 'sys.stderr.write'):
            I.event('print', node, dict(parts=[self.sparts(a) if self.is_str(a) else [(a, '')] for a in args], file=short), st)
            return NONE
        if name in ('sys.stdout.flush', 'sys.stderr.flush'):
            return NONE
        if name.startswith('os.path.') or name in ('os.getcwd',):
            if short == 'join':
                parts = []
                for i, a in enumerate(args):
                    if i:
                        parts.append('/')
                    parts += self.sparts(a) if self.is_str(a) else [(a, '')]
                return self.mkstr(parts)
            if short in ('exists', 'isfile', 'isdir'):
                return Arr((), None, 'b', taint=union_taint(*args), py=True)
            if short in ('dirname', 'realpath', 'abspath', 'basename'):
                return args[0] if short != 'dirname' else StrT(['<dir>'])
            return Unknown(union_taint(*args))
        if name.startswith('warnings.') or name.startswith('logging.'):
            I.event('warn', node, dict(args=args), st)
            return Unknown(why='logging')
        if short in ('dumpfn', 'dump', 'dumps'):
            I.event('dumpfn', node, dict(args=args, kw=kw), st)
            return NONE
        if name == 'itertools.product' or name.startswith('itertools.'):
            return self.itertools(short, args, kw, node, st)
        I.event('unmodelled', node, dict(name=name), st)
        return Unknown(union_taint(*args) | union_taint(*kw.values()), name)

    def itertools(self, short, args, kw, node, st):
        I = self.I
        if short == 'product':
            its = [I.conc_items(a, st) for a in args]
            ok, rep = pyconst(kw.get('repeat', num(1)))
            if all(x is not None for x in its) and ok:
                import itertools
                its = its * rep
                n = 1
                for x in its:
                    n *= len(x)
                if n <= 256:
                    return Seq(conc=[Tup(list(c)) for c in itertools.product(*its)])
        if short == 'chain':
            its = [I.conc_items(a, st) for a in args]
            if all(x is not None for x in its):
                return Seq(conc=[y for x in its for y in x])
        return Unknown(union_taint(*args), 'itertools')

    def deepcopy(self, v, st, deep=True):
        I = self.I
        if isinstance(v, Arr):
            return v.with_(roots=NOTAINT)
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, ObjRec):
                at = {k: (I.bindv(self.deepcopy(x, st), st) if deep else x) for k, x in r.attrs.items()}
                if deep:
                    at = {k: val_subst(x, dict(v.sub)) for k, x in at.items()} if v.sub else at
                return I.alloc(ObjRec(r.cls, at, {k: x for k, x in r.meta.items() if k != 'root'}), st)
            if isinstance(r, ListRec):
                segs = []
                for s in self.segs_of(v, st):
                    if isinstance(s, tuple):
                        segs.append(s[:-1] + (self.deepcopy(I.loadv(s[-1], st), st) if deep else s[-1],))
                    else:
                        segs.append(I.bindv(self.deepcopy(s, st), st) if deep else s)
                return I.alloc(ListRec(segs, r.unk, r.kind), st)
            if isinstance(r, DictRec):
                return I.alloc(DictRec([(k, I.bindv(self.deepcopy(I.loadv(x, st), st), st) if deep else x) for k, x in r.items], r.gen, r.unk), st)
            return v
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, st, deep) for x in v.items], v.taint)
        return v

    # ------------------------------------------------------------ builtins
    def py_call(self, name, args, kw, node, st):
        m = getattr(self, 'py_' + name, None)
        if m is not None:
            try:
                return m(list(args), dict(kw), node, st)
            except ShapeError as e:
                self.I.error('ValueError', str(e), node, st)
        if name in EXCS:
            return self.I.alloc(ObjRec(name, {'args': Tup(args)}), st)
        return Unknown(union_taint(*args), name)

    def py_len(self, args, kw, node, st):
        I = self.I
        v = args[0]
        t = taint_of(v)
        if isinstance(v, Arr):
            if not v.axes:
                if v.py:
                    I.error('TypeError', 'object of a number has no len()', node, st)
                I.error('TypeError', 'len() of unsized object', node, st)
            return num(v.axes[0][1], 'i', v.taint)
        if isinstance(v, Tup):
            return num(len(v.items))
        ok, p = pyconst(v)
        if ok and isinstance(p, (str, bytes)):
            return num(len(p))
        if isinstance(v, Const) and v.v is None:
            I.error('TypeError', 'object of type NoneType has no len()', node, st)
        if isinstance(v, StrT) and any(isinstance(p, str) or isinstance(p[0], Arr) for p in v.parts):
            n = 'strlen#%d' % I.nfresh()
            META[n] = dict(real=True, int=True, pos=True)
            return num(sym(n), 'i', t)
        if isinstance(v, Seq) and v.length is not None:
            return num(v.length, 'i')
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, ListRec):
                n = self.list_len(v, st)
                if n is not None:
                    return num(n, 'i', t)
            if isinstance(r, DictRec) and not r.unk and not r.gen:
                return num(len(r.items))
            if isinstance(r, DictRec) and not r.unk and len(r.gen) == 1 and not r.items:
                return num(r.gen[0][1], 'i')
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                m = r.cls.lookup('__len__')
                if m is not None:
                    return I.call(Bound(m, v), [], {}, node, st)
                if r.cls.closed():
                    I.error('TypeError', "object of type '%s' has no len()" % r.cls.name, node, st)
        return Arr((), None, 'i', taint=t, py=True)

    def py_range(self, args, kw, node, st):
        fs = []
        for a in args:
            if not isinstance(a, Arr) or a.axes:
                if isinstance(a, Const) and a.v is None:
                    self.I.error('TypeError', 'NoneType cannot be interpreted as an integer', node, st)
                if isinstance(a, Tup) or isinstance(a, Ref) and isinstance(self.I.rec(a, st), ListRec):
                    self.I.error('TypeError', 'list cannot be interpreted as an integer', node, st)
                fs.append(None)
            else:
                if a.dtype == 'f' and a.py and a.form is not None and (a.form.const() is not None):
                    self.I.error('TypeError', "'float' object cannot be interpreted as an integer", node, st)
                fs.append(a.form)
        t = union_taint(*args)
        if any(f is None for f in fs):
            return Seq(length=sym('len?%d' % self.I.nfresh()), get=lambda f: Arr((), None, 'i', taint=t, py=True), taint=t)
        lo, hi, stp = ZERO, None, ONE
        if len(fs) == 1:
            hi = fs[0]
        elif len(fs) == 2:
            lo, hi = fs
        else:
            lo, hi, stp = fs
        s = stp.int_const()
        if s is None or s == 0:
            return Seq(length=sym('len?%d' % self.I.nfresh()), get=lambda f: Arr((), None, 'i', taint=t, py=True), taint=t)
        n = hi - lo
        c = n.int_const()
        if c is not None:
            n = const(max(0, -(-c // s)))
        elif s == -1:
            n = -n
        elif s != 1:
            q = n.scale(1.0 / s)
            n = q if is_int(q) else fn('floordiv', n + const(s - (1 if s > 0 else -1)), const(s))
        return Seq(length=n, get=lambda f: Arr((), lo + f.scale(s), 'i', taint=t, py=True), taint=t)

    def py_enumerate(self, args, kw, node, st):
        I = self.I
        if args:
            I.setorder(args[0], node, st, 'enumerate')
        start = args[1] if len(args) > 1 else kw.get('start', num(0))
        sf = scalar_form(start) if isinstance(start, Arr) else ZERO
        items = I.conc_items(args[0], st)
        if items is not None:
            return Seq(conc=[Tup([num(const(i) + sf, 'i'), x]) for i, x in enumerate(items)])
        seq = self.to_seq(args[0], st, node)
        if seq is None:
            t = taint_of(args[0])
            if isinstance(args[0], Const) and args[0].v is None:
                I.error('TypeError', "'NoneType' object is not iterable", node, st)
            return Seq(length=sym('len?%d' % I.nfresh()), get=lambda f: Tup([num(f + sf, 'i'), Unknown(t)]), taint=t)
        if seq.conc is not None:
            return Seq(conc=[Tup([num(const(i) + sf, 'i'), x]) for i, x in enumerate(seq.conc)], itref=seq.itref)
        return Seq(length=seq.length, get=lambda f: Tup([num(f + sf, 'i'), seq.get(f)]), taint=seq.taint, itref=seq.itref)

    def py_zip(self, args, kw, node, st):
        I = self.I
        for a in args:
            I.setorder(a, node, st, 'zip')
        concs = [I.conc_items(a, st) for a in args]
        if args and all(c is not None for c in concs):
            n = min(len(c) for c in concs)
            if len({len(c) for c in concs}) > 1:
                I.event('zipmismatch', node, dict(lens=[len(c) for c in concs]), st)
            return Seq(conc=[Tup([c[i] for c in concs]) for i in range(n)])
        seqs = [self.to_seq(a, st, node) for a in args]
        if any(s is None for s in seqs):
            known = [s for s in seqs if s is not None and s.length is not None]
            ln = known[0].length if known else sym('len?%d' % I.nfresh())

            def get(f):
                return Tup([Unknown(taint_of(a)) if s is None else I.seq_get(s, f, st) for s, a in zip(seqs, args)])
            cn = ln.int_const()
            if cn is not None and cn <= 24:
                return Seq(conc=[get(const(i)) for i in range(cn)])
            return Seq(length=ln, get=get)
        lens = [s.length for s in seqs]
        consts = [l.int_const() for l in lens]
        ln = lens[0]
        best = [c for c in consts if c is not None]
        if best:
            ln = const(min(best))
        if len({l.key() for l in lens}) > 1:
            I.event('zipmismatch', node, dict(lens=lens), st)
            if not best:
                for l in lens[1:]:          # the shortest, where the difference is a constant
                    d = (l - ln).const()
                    if d is not None and d.real < 0:
                        ln = l
        if best and min(best) <= 24:
            return Seq(conc=[Tup([I.seq_get(s, const(i), st) for s in seqs]) for i in range(min(best))])
        return Seq(length=ln, get=lambda f: Tup([I.seq_get(s, f, st) for s in seqs]), taint=union_taint(*args))

    def py_print(self, args, kw, node, st):
        parts = [self.sparts(a) if self.is_str(a) else [(a, '')] for a in args]
        fl = kw.get('file')
        if fl is not None and isinstance(fl, Ref) and isinstance(self.I.rec(fl, st), FileRec):
            r = self.I.rec(fl, st)
            flat = []
            for p in parts:
                flat += p
            self.I.event('write', node, dict(path=r.path, parts=flat + ['\n'], kind=r.kind, closed=r.closed), st)
        else:
            self.I.event('print', node, dict(parts=parts, file=None), st)
        return NONE

    def py_int(self, args, kw, node, st):
        if not args:
            return num(0)
        v = args[0]
        if self.is_str(v):
            ok, p = pyconst(v)
            if ok:
                try:
                    return num(int(p))
                except ValueError:
                    self.I.error('ValueError', 'invalid literal for int(): %r' % p, node, st)
            r = self.tonum(v, 'i')
            return r if r is not None else Arr((), None, 'i', taint=taint_of(v), py=True)
        if isinstance(v, Arr):
            if v.axes:
                v = self.scalarise(v, node, st)
                if v is None:
                    return Arr((), None, 'i', py=True)
            if v.dtype == 'c' and v.py:
                pass
            return Arr((), None if v.form is None else fn('int', v.form), 'i', taint=v.taint, py=True)
        if isinstance(v, Const) and v.v is None:
            self.I.error('TypeError', 'int() argument must be a string or a number, not NoneType', node, st)
        if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(self.I.rec(v, st), (ListRec, DictRec)):
            self.I.error('TypeError', 'int() argument must be a string or a number, not list', node, st)
        return Arr((), None, 'i', taint=taint_of(v), py=True)

    def scalarise(self, v, node, st):
        n = ONE
        for _, k in v.axes:
            n = n * k
        c = n.int_const()
        if c is not None and c != 1:
            self.I.error('TypeError', 'only length-1 arrays can be converted to Python scalars', node, st)
        f = v.form
        for l, k in v.axes:
            if f is not None:
                f = f.subst({l: ZERO})
        return Arr((), f if c == 1 else None, v.dtype, taint=v.taint, py=True)

    def py_float(self, args, kw, node, st):
        if not args:
            return num(0.0)
        v = args[0]
        if self.is_str(v):
            ok, p = pyconst(v)
            if ok:
                try:
                    return num(float(p))
                except ValueError:
                    self.I.error('ValueError', 'could not convert string to float: %r' % p, node, st)
            r = self.tonum(v, 'f')
            return r if r is not None else Arr((), None, 'f', taint=taint_of(v), py=True)
        if isinstance(v, Arr):
            if v.axes:
                v = self.scalarise(v, node, st)
            return v.with_(dtype='f', py=True)
        if isinstance(v, Const) and v.v is None:
            self.I.error('TypeError', 'float() argument must be a string or a number, not NoneType', node, st)
        if isinstance(v, Ref) and isinstance(self.I.rec(v, st), (ListRec, DictRec)):
            self.I.error('TypeError', 'float() argument must be a string or a number, not list', node, st)
        return Arr((), None, 'f', taint=taint_of(v), py=True)

    def py_complex(self, args, kw, node, st):
        v = [self.as_arr(a, st, 'f') for a in args]
        if any(x is None for x in v) or not v:
            return Arr((), None, 'c', taint=union_taint(*args), py=True)
        if len(v) == 1:
            return v[0].with_(dtype='c', py=True)
        return elementwise(lambda x, y: x + y.scale(1j), 'c', v[0], v[1]).with_(py=True)

    def py_str(self, args, kw, node, st):
        if not args:
            return Const('')
        v = args[0]
        if self.is_str(v):
            return v
        if isinstance(v, Const):
            return Const(str(v.v))
        ok, p = pyconst(v)
        if ok and isinstance(p, int):
            return Const(str(p))
        if isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                m = r.cls.lookup('__str__')
                if m is not None:
                    return self.I.call(Bound(m, v), [], {}, node, st)
        return StrT([(v, '')], taint_of(v))

    py_repr = py_str

    def py_bool(self, args, kw, node, st):
        t, f = self.I.truth(args[0], st, node) if args else (False, None)
        if t is not None:
            return boolv(t).with_(taint=taint_of(args[0]) if args else NOTAINT)
        return Arr((), None if f is None else fn('bool', f), 'b', taint=taint_of(args[0]), py=True)

    def py_abs(self, args, kw, node, st):
        a = self.as_arr(args[0], st) if isinstance(args[0], Arr) else None
        if a is None:
            return self.unk(args)
        return elementwise(lambda x: fn('abs', x), 'f' if a.dtype == 'c' else a.dtype, a)

    def py_sum(self, args, kw, node, st):
        I = self.I
        v = args[0]
        start = args[1] if len(args) > 1 else kw.get('start', num(0))
        items = I.conc_items(v, st)
        if items is None and isinstance(v, Ref) and isinstance(I.rec(v, st), IterRec) and not I.rec(v, st).unk and \
                all(not isinstance(s, tuple) for s in I.rec(v, st).segs):
            items = [val_subst(s, dict(v.sub)) for s in I.rec(v, st).segs]
        if items is not None:
            acc = start
            for x in items:
                acc = self.binop('Add', acc, x, node, st)
            return acc
        # generic
        segs = None
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, (ListRec, IterRec)) and not r.unk and getattr(r, 'pos', None) is None:
                m = dict(v.sub)
                segs = self.segs_of(v, st) if isinstance(r, ListRec) else \
                    [(s[:-1] + (val_subst(s[-1], m),)) if isinstance(s, tuple) else val_subst(s, m) for s in r.segs]
        else:
            seq = self.to_seq(v, st, node)
            if seq is not None and seq.get is not None:
                l, n = newax(seq.length)
                segs = [('gen', l, n, seq.get(lab(l)))]
        if segs is None:
            return self.unk(args)
        acc = start
        for s in segs:
            if isinstance(s, tuple) and s[0] == 'gen':
                x = I.loadv(s[3], st)
                if isinstance(x, Arr):
                    if x.form is None:
                        acc = self.binop('Add', acc, x, node, st)
                        continue
                    nl = new_label()
                    LABLEN[nl] = s[2]
                    try:
                        f = sum_over(x.form.subst({s[1]: lab(nl)}), nl, s[2])
                    except Top:
                        f = None
                    acc = self.binop('Add', acc, x.with_(form=f, dtype='i' if x.dtype == 'b' else x.dtype), node, st)
                elif isinstance(x, Ref) and isinstance(I.rec(x, st), ListRec) or isinstance(x, Tup):
                    # concatenation of lists
                    inner = self.segs_of(x, st)
                    if isinstance(acc, Ref) and all(not isinstance(q, tuple) for q in inner):
                        return I.alloc(ListRec([('gen2', s[1], s[2], inner)], True), st)
                    return I.alloc(ListRec([], True), st)
                else:
                    return self.unk(args)
            elif isinstance(s, tuple):
                x = s[2]
                if isinstance(x, Arr) and x.form is not None:
                    acc = self.binop('Add', acc, x.with_(form=x.form * fn('bool', s[1])), node, st)
                else:
                    return self.unk(args)
            else:
                acc = self.binop('Add', acc, s, node, st)
        return acc

    def minmax(self, name, args, kw, node, st):
        I = self.I
        if len(args) == 1:
            items = I.conc_items(args[0], st)
            if 'key' in kw:
                return items[0] if items and len(items) == 1 else self.unk(args)
            if items is not None:
                if not items:
                    if 'default' in kw:
                        return kw['default']
                    I.error('ValueError', '%s() arg is an empty sequence' % name, node, st)
                args = items
            else:
                a = self.as_arr(args[0], st)
                if a is None or a.ndim != 1:
                    return self.unk(args)
                return A.reduce_bind(name, a, [0]).with_(py=True)
        xs = [self.as_arr(a, st) if isinstance(a, Arr) else None for a in args]
        if any(x is None or x.axes for x in xs):
            return self.unk(args)
        if any(x.form is None for x in xs):
            return Arr((), None, updt(*[x.dtype for x in xs]), taint=union_taint(*args), py=True)
        return Arr((), fn(name, *[x.form for x in xs]), updt(*[x.dtype for x in xs]), taint=union_taint(*args), py=True)

    def py_min(self, args, kw, node, st):
        return self.minmax('min', args, kw, node, st)

    def py_max(self, args, kw, node, st):
        return self.minmax('max', args, kw, node, st)

    def py_round(self, args, kw, node, st):
        a = args[0]
        if not isinstance(a, Arr):
            return self.unk(args)
        return self.np_round([a] + args[1:], {}, node, st).with_(py=not a.axes, dtype='i' if len(args) == 1 and not a.axes else a.dtype)

    def py_divmod(self, args, kw, node, st):
        return Tup([self.binop('FloorDiv', args[0], args[1], node, st), self.binop('Mod', args[0], args[1], node, st)])

    def py_pow(self, args, kw, node, st):
        return self.binop('Pow', args[0], args[1], node, st)

    def py_sorted(self, args, kw, node, st):
        I = self.I
        items = I.conc_items(args[0], st)
        if items is not None and 'key' not in kw:
            cs = [pyconst(x) for x in items]
            if all(c[0] for c in cs):
                try:
                    ok, rv = pyconst(kw.get('reverse', boolv(False)))
                    order = sorted(range(len(cs)), key=lambda i: cs[i][1], reverse=bool(rv))
                    return I.newlist([items[i] for i in order], st)
                except TypeError:
                    pass
            if len(items) <= 1:
                return I.newlist(items, st)
        if not kw:
            a = self.as_arr(args[0], st)
            if a is not None and a.ndim == 1:
                r = self.np_sort([a], {}, node, st)
                if isinstance(r, Arr) and r.form is not None:
                    l, n = r.axes[0]
                    return I.alloc(ListRec([('gen', l, n, Arr((), r.form, r.dtype, taint=r.taint, py=True))]), st)
        if items is not None:
            return I.alloc(ListRec(items, True), st)
        return I.alloc(ListRec([], True), st)

    def py_list(self, args, kw, node, st):
        I = self.I
        if args:
            I.setorder(args[0], node, st, 'list')
        if not args:
            return I.newlist([], st)
        v = args[0]
        items = I.conc_items(v, st)
        if isinstance(v, Ref) and isinstance(I.rec(v, st), ListRec):
            r = I.rec(v, st)
            return I.alloc(ListRec(self.segs_of(v, st), r.unk), st)
        if items is not None:
            return I.newlist(items, st)
        if isinstance(v, Ref) and isinstance(I.rec(v, st), IterRec):
            r = I.rec(v, st)
            if r.unk or r.pos is not None:
                return I.alloc(ListRec([], True), st)
            segs = [(s[:-1] + (val_subst(s[-1], dict(v.sub)),)) if isinstance(s, tuple) else val_subst(s, dict(v.sub)) for s in r.segs]
            st.heap[v.addr] = IterRec([], None)
            return I.alloc(ListRec(segs), st)
        if isinstance(v, Ref) and isinstance(I.rec(v, st), FileRec):
            r = self.file_lines(v, I.rec(v, st), st)
            return r if r is not None else I.alloc(ListRec([], True), st)
        seq = self.to_seq(v, st, node)
        if seq is not None:
            if seq.conc is not None:
                return I.newlist(seq.conc, st)
            if seq.get is not None:
                l, n = newax(seq.length)
                return I.alloc(ListRec([('gen', l, n, I.bindv(seq.get(lab(l)), st))]), st)
        if isinstance(v, Const) and v.v is None or isinstance(v, Arr) and not v.axes:
            I.error('TypeError', 'object is not iterable', node, st)
        r = I.alloc(ListRec([], True), st)
        return Ref(r.addr, (), taint_of(v))

    def py_tuple(self, args, kw, node, st):
        if args:
            self.I.setorder(args[0], node, st, 'tuple')
        if not args:
            return Tup([])
        items = self.I.conc_items(args[0], st)
        if items is not None:
            return Tup(items)
        seq = self.to_seq(args[0], st, node)
        if seq is not None and seq.conc is not None:
            return Tup(seq.conc)
        if isinstance(args[0], Ref) and isinstance(self.I.rec(args[0], st), IterRec):
            r = self.I.rec(args[0], st)
            if not r.unk and r.pos is None and all(not isinstance(s, tuple) for s in r.segs):
                return Tup([val_subst(s, dict(args[0].sub)) for s in r.segs])
        return self.py_list(args, kw, node, st)

    def py_set(self, args, kw, node, st):
        I = self.I
        if not args:
            return I.alloc(ListRec([], False, 'set'), st)
        items = I.conc_items(args[0], st)
        if items is not None:
            return self.make_set(items, st)
        seq = self.to_seq(args[0], st, node)
        l = self.py_list(args, kw, node, st)
        if isinstance(l, Ref):
            r = I.rec(l, st)
            if not r.unk and len(r.segs) == 1 and isinstance(r.segs[0], tuple) and r.segs[0][0] == 'gen':
                _, m, n, e = r.segs[0]
                e = I.loadv(e, st)
                if isinstance(e, Arr) and not e.axes and e.form is not None:
                    k = new_label()
                    if m not in e.form.labels():
                        LABLEN[k] = fn('ite', fn('lt', ZERO, n), ONE, ZERO)
                        return I.alloc(ListRec([('gen', k, LABLEN[k], e)], False, 'set'), st)
                    j = new_label()
                    LABLEN[j] = n
                    LABLEN[k] = binder('distinct', (j,), e.form.subst({m: lab(j)}), ())
                    return I.alloc(ListRec([('gen', k, LABLEN[k], Unknown(why='set'))], False, 'set'), st)
            return I.alloc(ListRec(r.segs, True, 'set'), st)
        return Unknown(taint_of(args[0]), 'set')

    py_frozenset = py_set

    def py_dict(self, args, kw, node, st):
        I = self.I
        items = [(Const(k), I.bindv(v, st)) for k, v in kw.items() if k != '**']
        if args:
            src = args[0]
            if isinstance(src, Ref) and isinstance(I.rec(src, st), DictRec):
                r = I.rec(src, st)
                return I.alloc(DictRec(list(r.items) + items, r.gen, r.unk), st)
            its = I.conc_items(src, st)
            if its is None:
                sq = self.to_seq(src, st, node)
                its = sq.conc if sq is not None else None
            if its is not None:
                out = []
                for x in its:
                    p = I.conc_items(x, st)
                    if p is None or len(p) != 2:
                        return I.alloc(DictRec(items, (), True), st)
                    out.append((p[0], I.bindv(p[1], st)))
                return I.alloc(DictRec(out + items), st)
            return I.alloc(DictRec(items, (), True), st)
        return I.alloc(DictRec(items, (), '**' in kw), st)

    def py_isinstance(self, args, kw, node, st):
        v, c = args[0], args[1]
        names = []
        for x in (c.items if isinstance(c, Tup) else [c]):
            if isinstance(x, Builtin):
                names.append(x.name.split('.')[-1])
            elif isinstance(x, Class):
                names.append(x.name)
            else:
                return Arr((), None, 'b', taint=taint_of(v), py=True)
        kinds = None
        if self.is_str(v):
            kinds = {'str'}
        elif isinstance(v, Tup):
            kinds = {'tuple'}
        elif isinstance(v, Arr):
            if v.axes:
                kinds = {'ndarray'}
            elif v.py:
                kinds = {'b': {'bool', 'int'}, 'i': {'int'}, 'f': {'float'}, 'c': {'complex'}}.get(v.dtype)
                if any(n.startswith(('int', 'float', 'complex', 'number', 'integer', 'floating', 'Integral', 'Real', 'Number')) and n not in ('int', 'float', 'complex') for n in names):
                    kinds = None
        elif isinstance(v, Const) and v.v is None:
            kinds = {'NoneType'}
        elif isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, ListRec):
                kinds = {r.kind}
            elif isinstance(r, DictRec):
                kinds = {'dict'}
            elif isinstance(r, ObjRec):
                kinds = set(r.cls.mro_names()) if isinstance(r.cls, Class) else {str(r.cls)}
        if kinds is None:
            return Arr((), None, 'b', taint=taint_of(v), py=True)
        return boolv(bool(kinds & set(names)))

    def py_hasattr(self, args, kw, node, st):
        v = args[0]
        ok, n = pyconst(args[1])
        if ok and isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                if n in r.attrs or r.cls.lookup(n) is not None:
                    return boolv(True)
                if r.cls.closed():
                    return boolv(False)
        if isinstance(v, (Arr, Tup)) or isinstance(v, Ref) and isinstance(self.I.rec(v, st), ListRec):
            if ok and n in ('__len__', '__iter__'):
                return boolv(not isinstance(v, Arr) or bool(v.axes))
        return Arr((), None, 'b', taint=taint_of(v), py=True)

    def py_getattr(self, args, kw, node, st):
        from .interp import PyRaise
        ok, n = pyconst(args[1])
        if ok:
            if len(args) > 2:
                v = args[0]
                if isinstance(v, Ref):
                    r = self.I.rec(v, st)
                    if isinstance(r, ObjRec) and isinstance(r.cls, Class) and n not in r.attrs and r.cls.lookup(n) is None:
                        return args[2]
            return self.I.getattr(args[0], n, node, st)
        return Unknown(union_taint(*args), 'getattr')

    def py_setattr(self, args, kw, node, st):
        ok, n = pyconst(args[1])
        if ok:
            self.I.setattr(args[0], n, args[2], st, node)
        return NONE

    def py_iter(self, args, kw, node, st):
        I = self.I
        if args:
            I.setorder(args[0], node, st, 'iter')
        v = args[0]
        if isinstance(v, Ref):
            r = I.rec(v, st)
            if isinstance(r, IterRec):
                return v
            if isinstance(r, ListRec):
                return I.alloc(IterRec(self.segs_of(v, st), None, r.unk), st)
            if isinstance(r, FileRec):
                l = self.file_lines(v, r, st)
                if l is not None:
                    lr = I.rec(l, st)
                    return I.alloc(IterRec(lr.segs, None, lr.unk), st)
        items = I.conc_items(v, st)
        if items is not None:
            return I.alloc(IterRec(items), st)
        seq = self.to_seq(v, st, node)
        if seq is not None and seq.get is not None:
            l, n = newax(seq.length)
            return I.alloc(IterRec([('gen', l, n, seq.get(lab(l)))]), st)
        return I.alloc(IterRec([], None, True), st)

    def py_next(self, args, kw, node, st):
        v = args[0]
        if isinstance(v, Ref) and isinstance(self.I.rec(v, st), IterRec):
            return self.I.next_iter(v, st, node, args[1] if len(args) > 1 else None)
        if isinstance(v, Ref) and isinstance(self.I.rec(v, st), FileRec):
            return self.file_call('readline', v, self.I.rec(v, st), [], {}, node, st)
        return Unknown(taint_of(v), 'next')

    def boolred(self, name, args, node, st):
        I = self.I
        v = args[0]
        items = I.conc_items(v, st)
        if items is None and isinstance(v, Ref) and isinstance(I.rec(v, st), IterRec):
            r = I.rec(v, st)
            if not r.unk and r.pos is None:
                if all(not isinstance(s, tuple) for s in r.segs):
                    items = [val_subst(s, dict(v.sub)) for s in r.segs]
        if items is not None:
            fs = []
            unknown = False
            for x in items:
                t, f = I.truth(x, st, node)
                if t is not None:
                    if t == (name == 'any'):
                        return boolv(t)
                    continue
                if f is None:
                    unknown = True
                else:
                    fs.append(f)
            if unknown:
                return Arr((), None, 'b', taint=union_taint(*args), py=True)
            if not fs:
                return boolv(name == 'all')
            return Arr((), fn('or' if name == 'any' else 'and', *fs) if len(fs) > 1 else fs[0], 'b', taint=union_taint(*items), py=True)
        segs = None
        if isinstance(v, Ref) and isinstance(I.rec(v, st), (IterRec, ListRec)):
            r = I.rec(v, st)
            if not r.unk and getattr(r, 'pos', None) is None and len(r.segs) == 1 and r.segs[0][0] == 'gen':
                _, l, n, e = r.segs[0]
                e = val_subst(I.loadv(e, st), dict(v.sub))
                t, f = I.truth(e, st, node)
                if f is not None:
                    k = new_label()
                    LABLEN[k] = n
                    return Arr((), binder(name, (k,), f.subst({l: lab(k)}), ()) if l in f.labels() else f, 'b', taint=taint_of(e), py=True)
                return Arr((), None, 'b', taint=taint_of(e), py=True)
        a = self.as_arr(v, st)
        if a is not None and a.ndim == 1:
            return A.reduce_bind(name, a, [0], 'b')
        return Arr((), None, 'b', taint=union_taint(*args), py=True)

    def py_any(self, args, kw, node, st):
        return self.boolred('any', args, node, st)

    def py_all(self, args, kw, node, st):
        return self.boolred('all', args, node, st)

    def py_map(self, args, kw, node, st):
        I = self.I
        if len(args) == 2:
            items = I.conc_items(args[1], st)
            if items is not None:
                return Seq(conc=[I.call(args[0], [x], {}, node, st) for x in items])
            seq = self.to_seq(args[1], st, node)
            if seq is not None and seq.get is not None and seq.length is not None:
                l, n = newax(seq.length)
                e = I.call(args[0], [seq.get(lab(l))], {}, node, st)
                return Seq(length=n, get=lambda f: val_subst(e, {l: f}), taint=taint_of(e))
        return Unknown(union_taint(*args), 'map')

    def py_reversed(self, args, kw, node, st):
        items = self.I.conc_items(args[0], st)
        if items is not None:
            return Seq(conc=items[::-1])
        seq = self.to_seq(args[0], st, node)
        if seq is not None and seq.get is not None:
            return Seq(length=seq.length, get=lambda f: seq.get(seq.length - ONE - f))
        return Unknown(taint_of(args[0]))

    def py_exit(self, args, kw, node, st):
        from .interp import PyRaise
        self.I.event('exit', node, dict(args=args), st)
        raise PyRaise('SystemExit', args[0] if args else None, True)

    py_quit = py_exit

    def py_type(self, args, kw, node, st):
        v = args[0]
        if isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, ObjRec) and isinstance(r.cls, Class):
                return r.cls
        return Builtin('type?')

    def py_super(self, args, kw, node, st):
        return Builtin('super', None)

    def py_object(self, args, kw, node, st):
        return Unknown(why='object')

    def py_open(self, args, kw, node, st):
        path = args[0] if args else kw.get('file')
        ok, mode = pyconst(args[1] if len(args) > 1 else kw.get('mode', Const('r')))
        mode = mode if ok else '?'
        self.I.event('open', node, dict(path=path, mode=mode), st)
        return self.I.alloc(FileRec(path, mode, 'text' if 'b' not in mode else 'bin', {'n': 0}), st)

    # ------------------------------------------------------------ lists
    def list_method(self, name, v, args, kw, node, st):
        I = self.I
        if isinstance(v, Tup):
            return Unknown(taint_of(v))
        r = I.rec(v, st)
        if name in ('append', 'add', 'extend', 'update', 'insert', 'pop', 'sort', 'reverse', 'clear', 'remove', 'discard'):
            I.event('listmut', node, dict(addr=v.addr, how=name), st)
        if name in ('append', 'add'):
            if v.sub:
                return NONE
            st.heap[v.addr] = ListRec(r.segs + [I.bindv(args[0], st)], r.unk or (r.kind == 'set' and name == 'add' and bool(r.segs)), r.kind)
            return NONE
        if name in ('extend', 'update'):
            self.list_extend(v, args[0], node, st)
            return NONE
        if name == 'insert':
            ok, i = pyconst(args[0])
            segs = list(r.segs)
            if ok and isinstance(i, int) and 0 <= i <= len(segs) and not r.unk and not any(isinstance(s, tuple) for s in segs[:i]):
                segs.insert(i, I.bindv(args[1], st))
                st.heap[v.addr] = ListRec(segs, False, r.kind)
            else:
                st.heap[v.addr] = ListRec(segs, True, r.kind)
            return NONE
        if name == 'pop':
            I.setorder(v, node, st, 'pop')
            ok, i = pyconst(args[0]) if args else (True, -1)
            if ok and isinstance(i, int) and not r.unk and all(not isinstance(s, tuple) for s in r.segs):
                segs = list(r.segs)
                if not -len(segs) <= i < len(segs):
                    I.error('IndexError', 'pop index out of range', node, st)
                x = segs.pop(i)
                st.heap[v.addr] = ListRec(segs, False, r.kind)
                return I.loadv(x, st)
            st.heap[v.addr] = ListRec(r.segs, True, r.kind)
            return Unknown(v.taint)
        if name == 'index':
            items = I.conc_items(v, st)
            if items is not None:
                cs = [pyconst(x) for x in items]
                k = pyconst(args[0])
                if k[0] and all(c[0] for c in cs):
                    for i, c in enumerate(cs):
                        if c[1] == k[1]:
                            return num(i)
                    I.error('ValueError', '%r is not in list' % (k[1],), node, st)
            return Arr((), None, 'i', taint=union_taint(v, *args), py=True)
        if name == 'count':
            return Arr((), None, 'i', py=True)
        if name == 'copy':
            return I.alloc(ListRec(self.segs_of(v, st), r.unk, r.kind), st)
        if name in ('sort', 'reverse', 'clear', 'remove', 'discard'):
            if name == 'clear':
                st.heap[v.addr] = ListRec([], False, r.kind)
                return NONE
            items = I.conc_items(v, st)
            if name == 'reverse' and items is not None:
                st.heap[v.addr] = ListRec(r.segs[::-1], False, r.kind)
                return NONE
            if name == 'sort' and items is not None and not kw:
                cs = [pyconst(x) for x in items]
                if all(c[0] for c in cs):
                    order = sorted(range(len(cs)), key=lambda i: cs[i][1])
                    st.heap[v.addr] = ListRec([items[i] for i in order], False, r.kind)
                    return NONE
            st.heap[v.addr] = ListRec(r.segs, True, r.kind)
            return NONE
        if name in ('union', 'intersection', 'difference', 'issubset'):
            return Unknown(union_taint(v, *args))
        if name.startswith('__'):
            return Unknown()
        I.error('AttributeError', "'%s' object has no attribute '%s'" % (r.kind, name), node, st)

    def dict_method(self, name, v, args, kw, node, st):
        I = self.I
        r = I.rec(v, st)
        m = dict(v.sub)
        if name in ('pop', 'update', 'setdefault', 'popitem', 'clear'):
            I.event('listmut', node, dict(addr=v.addr, how=name), st)
        if name == 'keys':
            if not r.gen and not r.unk:
                return Seq(conc=[k for k, _ in r.items])
            s = self.to_seq(v, st, node)
            return s if s is not None else Unknown(v.taint, 'keys')
        if name == 'values':
            if not r.gen and not r.unk:
                return Seq(conc=[val_subst(I.loadv(x, st), m) for _, x in r.items])
            if len(r.gen) == 1 and not r.items and not r.unk:
                l, n, k, x = r.gen[0]
                return Seq(length=n, get=lambda f: val_subst(val_subst(I.loadv(x, st), {l: f}), m))
            return Unknown(v.taint, 'values')
        if name == 'items':
            if not r.gen and not r.unk:
                return Seq(conc=[Tup([k, val_subst(I.loadv(x, st), m)]) for k, x in r.items])
            if len(r.gen) == 1 and not r.items and not r.unk:
                l, n, k, x = r.gen[0]
                return Seq(length=n, get=lambda f: Tup([val_subst(k, {l: f}), val_subst(val_subst(I.loadv(x, st), {l: f}), m)]))
            return Unknown(v.taint, 'items')
        if name == 'get':
            return self.dict_get(v, r, args[0], node, st, args[1] if len(args) > 1 else NONE, True)
        if name == 'pop':
            x = self.dict_get(v, r, args[0], node, st, args[1] if len(args) > 1 else None, len(args) > 1)
            k = I.keyrepr(args[0])
            st.heap[v.addr] = DictRec([(a, b) for a, b in r.items if I.keyrepr(a) != k], r.gen, r.unk)
            return x
        if name == 'update':
            src = args[0] if args else None
            items = list(r.items)
            unk, gen = r.unk, list(r.gen)
            new = [(Const(k), x) for k, x in kw.items()]
            if src is not None:
                q = I.rec(src, st) if isinstance(src, Ref) else None
                if isinstance(q, DictRec):
                    new = list(q.items) + new
                    gen += list(q.gen)
                    unk = unk or q.unk
                else:
                    unk = True
            for k, x in new:
                kr = I.keyrepr(k)
                items = [(a, b) for a, b in items if I.keyrepr(a) != kr] + [(k, I.bindv(x, st))]
            st.heap[v.addr] = DictRec(items, gen, unk)
            return NONE
        if name == 'setdefault':
            k = I.keyrepr(args[0])
            for a, b in r.items:
                if I.keyrepr(a) == k:
                    return I.loadv(b, st)
            x = I.bindv(args[1] if len(args) > 1 else NONE, st)
            st.heap[v.addr] = DictRec(r.items + [(args[0], x)], r.gen, r.unk)
            return x
        if name == 'copy':
            return I.alloc(DictRec(r.items, r.gen, r.unk), st)
        if name == 'clear':
            st.heap[v.addr] = DictRec([])
            return NONE
        if name.startswith('__'):
            return Unknown()
        I.error('AttributeError', "'dict' object has no attribute '%s'" % name, node, st)

    # ------------------------------------------------------------ objects / files of the outside world
    def obj_attr(self, v, rec, name, node, st):
        w = self.I.world
        if w is not None:
            r = w.obj_attr(self.I, self, v, rec, name, node, st)
            if r is not None:
                return r
        return Unknown(v.taint, 'attr ' + name)

    def obj_getitem(self, v, rec, idx, node, st):
        w = self.I.world
        if w is not None:
            r = w.obj_getitem(self.I, self, v, rec, idx, node, st)
            if r is not None:
                return r
        return Unknown(union_taint(v, *idx), 'getitem')

    def ext_init(self, obj, cls, args, kw, node, st):
        w = self.I.world
        if w is not None:
            w.ext_init(self.I, self, obj, cls, args, kw, node, st)

    def file_attr(self, v, rec, name, node, st):
        if name == 'name':
            return rec.path
        return Builtin('file.' + name, v) if False else FileMethod(name, v)

    def close_file(self, v, st):
        if isinstance(v, Ref):
            r = self.I.rec(v, st)
            if isinstance(r, FileRec):
                st.heap[v.addr] = FileRec(r.path, r.mode, r.kind, r.state, True)

    def file_lines(self, v, r, st):
        w = self.I.world
        if w is not None:
            lines = w.text_lines(self.I, self, r, st)
            if lines is not None:
                return self.I.alloc(ListRec(lines), st)
        return None

    def file_seq(self, v, r, st):
        l = self.file_lines(v, r, st)
        if l is None:
            return None
        return self.to_seq(l, st)

    def file_call(self, name, v, r, args, kw, node, st):
        I = self.I
        if name == 'write':
            if r.closed:
                I.event('error', node, dict(exc='ValueError', msg='write to closed file'), st)
            I.event('write', node, dict(path=r.path, parts=self.sparts(args[0]) if self.is_str(args[0]) else [(args[0], '')],
                                        kind=r.kind, closed=r.closed), st)
            if isinstance(args[0], Arr) or isinstance(args[0], Const) and args[0].v is None:
                I.error('TypeError', 'write() argument must be str', node, st)
            return NONE
        if name == 'close':
            self.close_file(v, st)
            return NONE
        if name in ('flush',):
            return NONE
        w = I.world
        if w is not None:
            x = w.file_method(I, self, name, v, r, args, kw, node, st)
            if x is not None:
                return x
        if name in ('readlines',):
            l = self.file_lines(v, r, st)
            return l if l is not None else I.alloc(ListRec([], True), st)
        if name == 'read' and not args:
            l = self.file_lines(v, r, st)
            return Unknown(taint_of(v), 'read')
        if name in ('readline', 'read'):
            return Unknown(taint_of(v), name)
        return Unknown(taint_of(v), name)


class FileMethod(Builtin):
    def __init__(self, meth, recv):
        Builtin.__init__(self, 'file.' + meth, recv)
        self.meth = meth
