import numpy as np
from dlib import serve
from triumvirate.catalogue import ParticleCatalogue

AX = 'xyz'


def make(ps, u):
    arr = {a: np.array([p['pos'][i] / u for p in ps]) for i, a in enumerate(AX)}
    arr['nz'] = np.array([p['nz'][0] / p['nz'][1] for p in ps], float)
    arr['ws'] = np.array([p['ws'] for p in ps], float)
    arr['wc'] = np.array([p['wc'] for p in ps], float)
    return arr, ParticleCatalogue(**arr)


def diff(cat, ps, sm, u, who):
    n = len(ps)
    if len(cat) != n or cat.ntotal != sm['ntotal']:
        return f'{who}.ntotal: {len(cat)}, {cat.ntotal} expected {n}'
    for i, a in enumerate(AX):
        want = np.array([p['pos'][i] / u for p in ps])
        if not np.array_equal(np.asarray(cat[a]), want):
            return f'{who}.{a}: {list(cat[a])} expected {list(want)}'
        b = cat.bounds[a]
        if not (b[0] == sm['lo'][i] / u and b[1] == sm['hi'][i] / u):
            return f'{who}.bounds: {a} {b} expected {(sm["lo"][i] / u, sm["hi"][i] / u)}'
        if cat.spans[a] != sm['span'][i] / u:
            return f'{who}.spans: {a} {cat.spans[a]} expected {sm["span"][i] / u}'
    for k in ('ws', 'wc'):
        if not np.array_equal(np.asarray(cat[k]), np.array([p[k] for p in ps], float)):
            return f'{who}.{k}: {list(cat[k])}'
    nz = np.array([p['nz'][0] / p['nz'][1] for p in ps])
    if not np.allclose(np.asarray(cat['nz']), nz, rtol=1e-14, atol=0):
        return f'{who}.nz: {list(cat["nz"])} expected {list(nz)}'
    if cat.wtotal != sm['wtotal'] or cat.wstotal != sm['wstotal']:
        return f'{who}.wtotal: {(cat.wtotal, cat.wstotal)} expected {(sm["wtotal"], sm["wstotal"])}'
    los = cat.compute_los()
    for p, l in zip(ps, np.asarray(los)):
        v = np.array(p['pos'], float)
        r = np.sqrt((v * v).sum()) or 1.
        if not np.allclose(l, v / r, rtol=1e-13, atol=1e-15):
            return f'{who}.los: {list(l)} for position {list(v / u)}'
    return None


def apply(ev, cat, ref, u):
    op = ev['op']
    L = [x / u for x in ev['L']] if 'L' in ev else None
    if L and L[0] == L[1] == L[2]:
        L = L[0]            # scalar box size is documented as equivalent
    f = ev['f'][0] / ev['f'][1] if 'f' in ev else None
    if op == 'offset':
        cat.offset_coords([x / u for x in ev['o']])
    elif op == 'offset_ref':
        ref.offset_coords(np.array([x / u for x in ev['o']]))
    elif op == 'offset_scalar':
        cat.offset_coords(ev['o'] / u)
    elif op == 'centre':
        cat.centre(L)
    elif op == 'centre_ref':
        cat.centre(L, catalogue_ref=ref)
    elif op == 'pad_box':
        cat.pad(L, boxsize_pad=f)
    elif op == 'pad_box_ref':
        cat.pad(L, boxsize_pad=[f, f, f], catalogue_ref=ref)
    elif op == 'pad_grid':
        cat.pad(L, ngrid=ev['n'], ngrid_pad=f)
    elif op == 'pad_grid_ref':
        cat.pad(L, ngrid=[ev['n']] * 3, ngrid_pad=[f, f, f], catalogue_ref=ref)
    elif op == 'periodise':
        cat.periodise(L)
    elif op == 'periodise_ref':
        ref.periodise(L)
    elif op in ('setcol', 'setcol_ref', 'setcol_bad'):
        v = np.array([x / u if ev['col'] in AX else x for x in ev['val']], float)
        (ref if op == 'setcol_ref' else cat)[ev['col']] = v
    elif op == 'setcol_key':
        cat[0] = 1.
    elif op == 'mean_density':
        cat.compute_mean_density(volume=float(ev['v']))
    elif op == 'mean_density_box':
        LL = [x / u for x in ev['L']]
        cat.compute_mean_density(boxsize=L)
        cat['nz'] = np.asarray(cat['nz']) / u**3   # spec volume is in u^3
    elif op == 'read':
        len(cat), cat[['x', 'nz']], cat[0], cat[[0]], cat[0:1], str(cat)
        cat.write_attrs_as_header(), cat.write_attrs_as_header(catalogue_ref=ref)
    elif op == 'pad_conflict':
        cat.pad(L, ngrid=4, boxsize_pad=f, ngrid_pad=f, catalogue_ref=ref)
    elif op == 'pad_none':
        cat.pad(L, catalogue_ref=ref)
    else:
        raise RuntimeError(op)


MUST_RAISE = {'pad_conflict', 'setcol_bad', 'setcol_key'}


def scen(s):
    u, hist = s['u'], s['hist']
    a0, cat = make(hist[0]['cat'], u)
    r0, ref = make(hist[0]['ref'], u)
    keep = {k: v.copy() for k, v in a0.items()}
    keepr = {k: v.copy() for k, v in r0.items()}
    for k, h in enumerate(hist):
        op = h['ev']['op']
        raised = None
        if k:
            try:
                apply(h['ev'], cat, ref, u)
            except Exception as e:
                raised = repr(e)[:200]
        if op in MUST_RAISE and raised is None:
            return dict(bad=[[k, 'accepted: an invalid request was not rejected']])
        if op not in MUST_RAISE and raised is not None:
            return dict(bad=[[k, 'raised: ' + raised]])
        for c, ps, sm, who in ((cat, h['cat'], h['sum']['cat'], 'cat'),
                               (ref, h['ref'], h['sum']['ref'], 'ref')):
            d = diff(c, ps, sm, u, who)
            if d:
                return dict(bad=[[k, d]])
    for x, y in ((a0, keep), (r0, keepr)):
        for kk in x:
            if not np.array_equal(x[kk], y[kk]):
                return dict(bad=[[len(hist) - 1, f'inputs: array {kk} given at construction was modified']])
    return dict(bad=[])


serve(scen)
