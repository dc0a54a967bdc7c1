"""Multipoles and window-convolution formulae through triumvirate.winconv."""
import warnings
from fractions import Fraction
warnings.simplefilter('ignore')
from sympy import Rational, sympify
from triumvirate import winconv as W
from dlib import serve


def pole(idx, how):
    if how == 'digits':
        return ''.join(map(str, idx))
    if how == 'commas':
        return ','.join(map(str, idx))
    if how == 'spaces':
        return ', '.join(map(str, idx))
    if how == 'strings':
        return tuple(map(str, idx))
    if how == 'list':
        return list(idx)
    if how == 'mixed':
        return tuple(x if k % 2 else str(x) for k, x in enumerate(idx))
    if how == 'pole':
        return W.Multipole(tuple(idx))
    if how == 'twice':
        return W.Multipole(W.Multipole(','.join(map(str, idx)) if len(idx) > 1 else idx[0]))
    if how == 'int':
        return idx[0]
    return tuple(idx)


def coef(c, how):
    n, d = c
    if how == 'str':
        return f'{n}/{d}' if d != 1 else str(n)
    if how == 'sympy':
        return Rational(n, d)
    if how == 'float' and d & (d - 1) == 0:
        return n/d
    if how == 'int' and d == 1:
        return n
    return Fraction(n, d)


def frac(c):
    c = sympify(c) if not isinstance(c, (int, Fraction)) else Fraction(c)
    c = Fraction(c) if isinstance(c, (int, Fraction)) else Fraction(str(Rational(c)))
    return [c.numerator, c.denominator]


def idx(z):
    return [-1] if z == 'ic' else list(z.index)


def terms(f, l):
    return [[list(x.multipole_Q.index), idx(x.multipole_Z), frac(x.coeff), list(x.index_Q), [-1] if x.index_Z == 'ic' else list(x.index_Z)] for x in f[l]]


def run(s):
    k = s['kind']
    if k == 'coeff':
        a = [pole(s['l'], s['how'][0]), pole(s['q'], s['how'][1]), 'ic' if s['z'] == [-1] else pole(s['z'], s['how'][2])]
        return dict(c=float(W.calc_threept_winconv_coeff(*a)), s=float(W.calc_threept_winconv_coeff(*a, symb=True)))
    if k == 'order':
        ms = [W.Multipole(pole(x, h)) for x, h in zip(s['m'], s['how'])]
        out = []
        for a in ms:
            row = []
            for b in ms:
                eq = a == b
                try:
                    r = [a < b, a == b, a > b, a <= b, a >= b, a != b]
                    row.append({(True, False, False, True, False, True): 'lt', (False, True, False, True, True, False): 'eq', (False, False, True, False, True, True): 'gt'}.get(tuple(map(bool, r)), str(r)))
                except ValueError:
                    row.append('no' if not eq else 'error')
                if eq and hash(a) != hash(b):
                    row[-1] = 'hash'
            out.append(row)
        return dict(cmp=out, n=len(set(ms)), text=[[str(m), m.abstr, list(m.index), m[-1], eval(repr(m), dict(Multipole=W.Multipole)) == m] for m in ms])
    if k == 'named':
        N = W.NAMED_FORMULAE[s['full']]
        f = W.WinConvFormulae(N)
        return dict(l=[list(x.index) for x in f.multipoles], terms=[terms(f, x) for x in f.multipoles], q=[list(x.index) for x in f.multipoles_Q], z=[idx(x) for x in f.multipoles_Z])
    d = {}
    for en in s['entries']:
        ts = []
        for x in en['terms']:
            a = (pole(x['q'], x['how'][0]), 'ic' if x['z'] == [-1] else pole(x['z'], x['how'][1]), coef(x['c'], x['how'][2]))
            ts.append(W.WinConvTerm(*a) if x['how'][3] else a)
        key = pole(en['l'], en['how'])
        d.pop(key, None)
        d[key] = ts
    f = W.WinConvFormulae(d)
    g = f.get_dict()
    ok = True
    for key in list(g):
        ok = ok and g[key] == f[key]
        g[key].append(None)
        del g[key][0]
    r = dict(l=[list(x.index) for x in f.multipoles], q=[list(x.index) for x in f.multipoles_Q], z=[idx(x) for x in f.multipoles_Z],
             terms=[terms(f, pole(list(x.index), h)) for x, h in zip(f.multipoles, s['ask'])], tex=[f.get_latex_expr(pole(list(x.index), h)) for x, h in zip(f.multipoles, s['ask'])], copy=ok)
    return r


if __name__ == "__main__":
    serve(run)
