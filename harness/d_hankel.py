"""Hankel-type transforms and resampling."""
import numpy as np
from triumvirate import transforms as T
from triumvirate._fftlog import HankelTransform
from dlib import serve

TWO = 2*np.pi


def rat(x):
    return x[0]/x[1]


def family(s, st, pts):
    w = rat(st['w'])
    c = np.array([[rat(x) for x in r] for r in st['c']])
    ax = [w*p for p in pts]
    pw = [np.array([a**(l + 2*j) for j in range(n)])*np.exp(-a*a/2)*p**float(o) for a, p, l, n, o in zip(ax, pts, s['ell'], c.shape[-len(pts):], st['o'])]
    v = c[0] @ pw[0] if len(pts) == 1 else pw[0].T @ c @ pw[1]
    return TWO**(st['p']/2)*1j**st['s']*v


def gauss(s):
    ell, dim = s['ell'], len(s['ell'])
    lo, hi, n = s['grid']
    pts = [np.geomspace(lo, hi, n)]*dim
    st = dict(c=s['c'], w=s['w'], p=0, s=0, o=s['o'])
    x = family(s, st, pts)
    x = x.real
    if s['asint'] == 'list':
        x = x.tolist()
    out = []
    for op, e in zip(s['ops'], s['exp']):
        if op['op'] == 'scale':
            x = np.asarray(x)*op['by']
        elif op['op'] == 'add':
            x = np.asarray(x) + family(s, dict(e, c=op['c']), pts)
        else:
            q = op['q']
            kw = dict(op['kw'])
            if dim == 1:
                t = T.SphericalBesselTransform(ell[0], q[0], pts[0], **kw)
            else:
                t = T.DoubleSphericalBesselTransform(tuple(ell), tuple(q), pts[0], **kw)
            f = {0: lambda v: t.transform(v)}.get(op['dir']) or (lambda v: t.transform_cosmo_multipoles(op['name'], v))
            x0 = np.array(x)
            p1, y = f(x)
            same = bool(np.array_equal(np.asarray(x), x0))
            y = np.array(y)
            f(np.asarray(x0)[::-1]*2 + 0) if op['again'] else None
            p2, y2 = f(x0.copy())
            again = bool(np.array_equal(y, y2)) and bool(np.array_equal(p1, p2))
            if dim == 2:
                mesh = [np.asarray(p) for p in p1]
                grid = all((m == m0).all() for m, m0 in zip(mesh, np.meshgrid(mesh[0][:, 0], mesh[1][0, :], indexing='ij')))
                new = [mesh[0][:, 0], mesh[1][0, :]]
                piv = list(t.pivot)
            else:
                grid, new, piv = True, [np.asarray(p1)], [t.pivot]
            dl = np.log(pts[0][-1]/pts[0][0])/(len(pts[0]) - 1)
            rec = max(float(np.max(np.abs(b*a[::-1]/(p*np.exp(-dl)) - 1))) if len(a) == len(b) else 9. for a, b, p in zip(pts, new, piv))
            want = kw.get('pivot', 1.)
            near = max(abs(float(np.log(p/want)))/dl for p in piv)
            out.append(dict(same=same, again=again, grid=grid, rec=rec, near=near, n=[len(p) for p in new]))
            pts, x = new, y
        ref = family(s, e, pts)
        x = np.asarray(x)
        o = out[-1] if op['op'] == 't' else (out.append({}) or out[-1])
        # rounding errors are uniform in the samples times x^(3/2)
        wt = pts[0]**1.5 if dim == 1 else np.outer(pts[0]**1.5, pts[1]**1.5)
        x_, ref = x*wt if x.shape == ref.shape else x, ref*wt
        m = np.max(np.abs(ref))
        # away from the ends of the range, where periodicity shows
        sl = tuple(slice(len(p)//8, len(p) - len(p)//8) for p in pts)
        o['err'] = float(np.max(np.abs(x_[sl] - ref[sl])/m)) if x.shape == ref.shape else 9.
        if m == 0:
            o['err'] = 0.  # nothing to compare rounding errors with
        o['mag'] = float(m)
    return dict(steps=out)


def disc(s):
    n = len(s['a'])
    r = np.exp(s['x0'] + s['dl']*np.arange(n))
    kw = dict(lowring=s['lowring'])
    if s['hankel']:
        A = HankelTransform(s['mu'], s['q'], r, s['pivot'], s['lowring'], threaded=s['threaded'])
        B = HankelTransform(s['mu'], -s['q'], np.array(A._post_sampts), A.pivot, s['lowring'])
        fw, bw = (lambda v: A.transform(v)), (lambda v: B.transform(v))
        ra, rb = np.array(A._post_sampts), np.array(B._post_sampts)
        piv = [A.pivot, B.pivot]
    elif s['dim'] == 1:
        A = T.SphericalBesselTransform(s['ell'][0], s['q'], r, pivot=s['pivot'], lowring=s['lowring'], threaded=s['threaded'])
        ra = A.transform(np.ones(n))[0]
        B = T.SphericalBesselTransform(s['ell'][0], -s['q'], ra, pivot=A.pivot, lowring=s['lowring'])
        rb = B.transform(np.ones(n))[0]
        fw, bw = (lambda v: A.transform_cosmo_multipoles(s['dir'], v)), (lambda v: B.transform_cosmo_multipoles(-s['dir'], v))
        piv = [A.pivot, B.pivot]
    else:
        A = T.DoubleSphericalBesselTransform(tuple(s['ell']), (s['q'],)*2, r, pivot=s['pivot'], lowring=s['lowring'])
        ra = A.transform(np.ones((n, n)))[0][0][:, 0]
        B = T.DoubleSphericalBesselTransform(tuple(s['ell']), (-s['q'],)*2, ra, pivot=A.pivot[0], lowring=s['lowring'])
        rb = B.transform(np.ones((n, n)))[0][0][:, 0]
        # a vector a stands for the outer product of a with a fixed vector
        row = np.array(s['row'], float)
        fw = lambda v: A.transform_cosmo_multipoles(s['dir'], v)
        bw = lambda v: B.transform_cosmo_multipoles(-s['dir'], v)
        piv = [A.pivot[0], B.pivot[0]]
    two = s['dim'] == 2 and not s['hankel']
    lift = (lambda v: np.outer(v, row)) if two else (lambda v: np.asarray(v, float))
    eye = np.eye(n)
    D = [np.array(fw(lift(eye[m]))[1]) for m in range(n)]
    c = D[0] if s['hankel'] else None
    # the numbers c are real, apart from the phase of the multipoles
    ph = 1. if s['hankel'] else (-1j*s['dir'])**sum(s['ell'])
    real = float(max(np.max(np.abs((d/ph).imag)) for d in D)/max(np.max(np.abs(d)) for d in D))
    x = lift(s['a'])
    out = []
    for op, e in zip(s['ops'], s['exp']):
        x0 = x.copy()
        if op['op'] == 't':
            y = np.array(fw(x)[1])
        elif op['op'] == 'inv':
            y = np.array(bw(x)[1])
        elif op['op'] == 'scale':
            y = x*op['by']
        elif op['op'] == 'shift':
            y = np.roll(x, op['by'])
        else:
            y = x + (lift(op['v']) if e['side'] == 0 else sum(v*d for v, d in zip(op['v'], D)))
        same = bool(np.array_equal(x, x0))
        if e['side'] == 0:
            ref = lift(e['a'])
        elif s['hankel']:
            ref = np.array(e['co'], float) @ c
        else:
            ref = sum(v*d for v, d in zip(e['a'], D))
        m = max(np.max(np.abs(ref)), 1e-300)
        # errors of rounding are relative to the largest weighted sample
        wt = (r if e['side'] == 0 else ra)**(0. if s['hankel'] else 1.5)
        W = np.outer(wt, wt) if two else wt
        err = float(np.max(np.abs((y - ref)*W))/max(np.max(np.abs(ref*W)), 1e-300)) if y.shape == ref.shape else 9.
        out.append(dict(err=err if np.max(np.abs(ref)) else float(np.max(np.abs(y))), same=same))
        x = ref.astype(complex) if op['op'] in ('t', 'inv') else y
        if op['op'] in ('t', 'inv') and s['chain']:
            x = y
    back = float(np.max(np.abs(rb/r - 1)))
    return dict(steps=out, piv=piv, real=real, rec=float(np.max(np.abs(ra*r[::-1]/(piv[0]*np.exp(-s['dl'])) - 1))), back=back)


def resample(s):
    f = T.resample_lin if s['rule'] == 'lin' else T.resample_lglin
    x = [np.array([rat(v) for v in p]) for p in s['x']]
    c = np.array(s['c'], float)
    if len(x) == 1:
        z = np.polynomial.polynomial.polyval(x[0], c[0])
        a = x[0]
    else:
        z = np.polynomial.polynomial.polygrid2d(x[0], x[1], c)
        a = {'pair': lambda: (x[0], x[1]), 'list': lambda: [list(x[0]), list(x[1])], 'one': lambda: x[0], 'array': lambda: np.array(x)}[s['form']]()
    z0, x0 = z.copy(), [p.copy() for p in x]
    n = s['size']
    n = tuple(n) if isinstance(n, list) else n
    p, m = f(a, z if s['form'] != 'list' else z.tolist(), size=n, spline=s['k'])
    return dict(x=[np.asarray(p).tolist()] if len(x) == 1 else [np.asarray(v).tolist() for v in p], m=np.atleast_2d(m).tolist(),
                same=bool((z == z0).all() and all((u == v).all() for u, v in zip(x, x0))))


def ext(s):
    n, e = s['n'], s['exp']
    r = np.exp(s['x0'] + s['dl']*np.arange(n))
    m = e['n']
    R = np.exp(s['x0'] + s['dl']*np.arange(-m, n + m))
    num = lambda v: np.array([x if isinstance(x, int) else x[0]*2.**x[1] for x in v], float)
    a, b = [num(v) for v in s['line']], [num(v) for v in e['line']]
    kw = dict(pivot=s['pivot'], lowring=s['lowring'])
    ex = dict(extrap=s['extrap'], extrap_exp=s['num']/s['den'])
    call = lambda t, v: t.transform(v) if not s['dir'] else t.transform_cosmo_multipoles(s['dir'], v)
    if s['dim'] == 1:
        t = T.SphericalBesselTransform(s['ell'][0], s['q'], r, extrap_layer=s['layer'], **ex, **kw)
        u = T.SphericalBesselTransform(s['ell'][0], s['q'], R, **kw)
        if s['layer'] == 'native':
            # extrapolation includes the factor of the transform
            x, y = a[0]/r**1.5, b[0]/R**1.5
        else:
            x, y = a[0], b[0]
    else:
        t = T.DoubleSphericalBesselTransform(tuple(s['ell']), (s['q'],)*2, r, extrap2d=s['layer'] == 'outer', **ex, **kw)
        u = T.DoubleSphericalBesselTransform(tuple(s['ell']), (s['q'],)*2, R, **kw)
        x, y = np.outer(*a), np.outer(*b)
    try:
        p, z = call(t, x)
    except (ValueError, RuntimeError) as err:
        return dict(ok=False, err=f'{type(err).__name__}: {err}'[:200])
    if not e['ok']:
        return dict(ok=True)
    P, Z = call(u, y)
    cut = slice(m, len(R) - m)
    if s['dim'] == 1:
        W = np.asarray(P)**1.5
        d = np.asarray(z)*W[cut] - np.asarray(Z)[cut]*W[cut]
        dp = np.asarray(p)/np.asarray(P)[cut] - 1
    else:
        W = (np.asarray(P[0])*np.asarray(P[1]))**1.5
        d = (np.asarray(z) - np.asarray(Z)[cut, cut])*W[cut, cut]
        dp = np.asarray(p)/np.asarray(P)[:, cut, cut] - 1
    return dict(ok=True, e=float(np.max(np.abs(d))/np.max(np.abs(Z*W))), p=float(np.max(np.abs(dp))))


def size(s):
    n = s['n']
    r = np.geomspace(.01, 100., n) if s['log'] else np.linspace(.01, 100., n)
    kw = dict(extrap=s['extrap'], extrap_exp=s['num']/s['den'], pivot=s['pivot'], lowring=s['lowring'])
    try:
        if s['dim'] == 1:
            t = T.SphericalBesselTransform(s['ell'], 0, r, extrap_layer=s['layer'], **kw)
        else:
            t = T.DoubleSphericalBesselTransform((s['ell'],)*2, (0, 0), r, extrap2d=s['layer'] == 'native', **kw)
        x = np.exp(-np.linspace(.1, 2, s['len']))
        x = x if s['dim'] == 1 else np.outer(x, x)
        p, y = t.transform_cosmo_multipoles(1 if s['dirok'] else 2, x)
        piv = np.atleast_1d(t.pivot).tolist()
        return dict(ok=True, size=t.size, len=[np.shape(y), np.shape(p)], piv=piv, fin=bool(np.isfinite(y).all()))
    except (ValueError, RuntimeError) as e:
        return dict(ok=False, err=f'{type(e).__name__}: {e}'[:200])


if __name__ == '__main__':
    serve(lambda s: globals()[s['kind']](s))
