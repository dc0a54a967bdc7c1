"""Extrapolation and reshaping through triumvirate._arrayops."""
import numpy as np
from triumvirate import _arrayops as A
from dlib import serve


def run(s):
    if s['kind'] == 'check':
        out, names = [], ['sorted', 'epsign', 'lin', 'loglin']
        for flags in range(16):
            v = np.array(s['a'], float)
            v = v.astype(int) if s['int'] else v
            if s['squeeze'] and s['dim'] == 1:
                v = v.squeeze()
            v0 = v.copy()
            try:
                r = (A._check_1d_array if s['dim'] == 1 else A._check_2d_array)(v, **{'check_' + k: True for j, k in enumerate(names) if flags >> j & 1})
                out.append('' if (r == v0.squeeze()).all() and (v == v0).all() else 'changed')
            except ValueError as e:
                out.append(type(e).__name__)
        return dict(out=out)
    try:
        if s['kind'] == 'table':
            c, f = np.array(s['coords'], float).reshape(-1, 2), np.array(s['flat'], float)
            c0, f0 = c.copy(), f.copy()
            x, m = A.reshape_threept_datatab(c, f, shape=s['shape'])
            return dict(x=np.asarray(x).tolist(), m=np.asarray(m).tolist(), same=bool((c == c0).all() and (f == f0).all()))
        v = np.array(s['val'], int if s['int'] else float)
        v0 = v.copy()
        n = s['next']
        if s['dim'] == 1:
            v = v[0]
            v0 = v.copy()
            if s['column']:
                v = v[:, None]
                v0 = v.copy()
        n = tuple(n) if isinstance(n, list) and s['seq'] == 'tuple' else n
        f = dict(lin=[A.extrap_lin, A.extrap2d_lin], loglin=[A.extrap_loglin, A.extrap2d_loglin], oscil=[A.extrap_loglin_oscil, A.extrap2d_loglin_oscil], pad=[A.extrap_pad, A.extrap2d_pad])[s['rule']][s['dim'] - 1]
        c = [[], []]
        if s['rule'] == 'pad':
            c = [s['left'][0], s['right'][0]] if s['dim'] == 1 else [x[0] if s['scalar'] and len(set(x)) == 1 else x for x in (s['left'], s['right'], s['up'], s['down'])]
        m = f(v, n, *c) if s['rule'] == 'pad' else f(v, n)
        return dict(m=np.atleast_2d(m).tolist(), same=bool((v == v0).all()))
    except ValueError as e:
        return dict(err=type(e).__name__)


serve(run)
