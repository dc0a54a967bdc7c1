"""Window function objects."""
import os, random, tempfile, warnings
import numpy as np
from dlib import serve
import triumvirate.winconv as W


def rat(x):
    return x[0]/x[1]


class Keyer:
    """Multipoles in the notations accepted."""
    def __init__(self, seed, same=None):
        self.rng = random.Random(seed)
        self.same = same

    def __call__(self, l):
        w = self.same or self.rng.choice(['str', 'tuple', 'obj'])
        return ''.join(map(str, l)) if w == 'str' else tuple(l) if w == 'tuple' else W.Multipole(tuple(l))


def dump(w, names):
    return dict(ls=[list(x.index) for x in w.multipoles], src=[names.get(x, x) for x in w.sources], r=[np.asarray(w.r[x], float).tolist() for x in w.multipoles],
                q=[np.asarray(w.Q[x], float).tolist() for x in w.multipoles], d=[np.asarray(w.Q_diag[x], float).tolist() for x in w.multipoles])


def paired(e):
    r = [rat(x) for x in e['r']]
    sym = e['l'][0] == e['l'][1]
    p = [[x, y] for a, x in enumerate(r) for y in (r[a:] if sym else r)]
    return np.array(p[:e['rows']])


def create(s, op, key, d, names):
    loglin = {0: False, 1: True}.get(op['loglin'], op['loglin'])
    alpha = rat(op['alpha'])
    ms = list(op['ms'])
    key.rng.shuffle(ms)
    if op['via'] == 'array':
        ks = {tuple(e['l']): key(e['l']) for e in ms}
        flat = {ks[tuple(e['l'])]: np.array([rat(x) for x in e['flat']]) for e in ms}
        pr = paired(ms[0]) if op['common'] else {ks[tuple(e['l'])]: paired(e) for e in ms}
        keep = [(v, v.copy()) for v in list(flat.values()) + ([pr] if op['common'] else list(pr.values()))]
        kw = {} if op['alpha'] == [1, 1] and key.rng.random() < .5 else dict(alpha_contrast=alpha)
        if op['loglin'] != 1 or key.rng.random() < .5:
            kw['make_loglin'] = loglin
        w = W.ThreePointWindow(pr, flat, **kw)
        return w, all((a == b).all() for a, b in keep)
    fs = {}
    kk = Keyer(s['seed'], op['fkeys'])
    cols = [4, 1, 8, 6] if op['cols'] else [1, 4, 6, 8]
    if op['cols']:
        cols = [2, 5, 7, 9]
    for e in ms:
        f = os.path.join(d, e['src'])
        names[f] = e['src']
        p = paired(e)
        noise = e['noise'] if op['shot'] else [0]*len(e['flat'])
        rows = [[f'{key.rng.randint(1, 999):d}' for _ in range(11)] for _ in p]
        for row, (x, y), v, n in zip(rows, p, e['flat'], noise):
            row[cols[0]], row[cols[1]], row[cols[2]] = repr(float(x)), repr(float(y)), repr(rat(v) + n)
            row[cols[3]] = repr(float(n)) if op['shot'] else '77.0'
        with open(f, 'w') as fo:
            fo.write('# window\n# [0] r1\n' + '\n'.join('\t'.join(r) for r in rows) + '\n')
        fs[kk(e['l'])] = f
    kw = dict(alpha_contrast=alpha, make_loglin=loglin)
    if op['shot']:
        if op['cols'] or key.rng.random() < .5:
            kw['usecols'] = cols
    else:
        kw.update(subtract_shotnoise=False, usecols=cols[:3])
    if op['shot'] and key.rng.random() < .5:
        kw['subtract_shotnoise'] = True
    return W.ThreePointWindow.load_from_textfiles(fs, **kw), True


def span(x, fn):
    v = tuple(None if not e else fn(e[0]) for e in (x['lo'], x['hi']))
    return v


def objects(s):
    key = Keyer(s['seed'])
    objs, out, names = [], [], {}
    with tempfile.TemporaryDirectory() as d:
        for n, op in enumerate(s['ops']):
            ok, err, pure = True, '', True
            if op.get('h', 0) >= len(objs) and op['op'] != 'new':
                break       # an object was refused
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                try:
                    if op['op'] == 'new':
                        w, pure = create(s, op, key, d, names)
                        objs.append(w)
                    elif op['op'] == 'dict':
                        a = objs[op['h']]
                        ls = list(a.multipoles)
                        key.rng.shuffle(ls)
                        q = {key(l.index): a.Q[l].copy() for l in ls}
                        r = a.r[ls[0]].copy() if op['common'] else {key(l.index): a.r[l].copy() for l in ls}
                        obj = dict(Q=q, r=r)
                        if op['src']:
                            obj['sources'] = list(a.sources)
                        objs.append(W.ThreePointWindow.load_from_dict(obj))
                    elif op['op'] == 'io':
                        f = os.path.join(d, f'w{n}.npz')
                        objs[op['h']].save_to_file(f)
                        objs.append(W.ThreePointWindow.load_from_file(f))
                    elif op['op'] == 'sub':
                        kw = {}
                        if op['rmode'] == 'all':
                            kw['rrange'] = span(op['rr'][0], rat)
                        elif op['rmode'] == 'each':
                            kw['rrange'] = {key(x['l']): span(x, rat) for x in op['rr']}
                        if op['imode'] == 'all':
                            kw['idxrange'] = span(op['ir'][0], int)
                        elif op['imode'] == 'each':
                            kw['idxrange'] = {key(x['l']): span(x, int) for x in op['ir']}
                        before = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
                        if op['inplace'] or key.rng.random() < .5:
                            kw['inplace'] = op['inplace']
                        r = objs[op['h']].subselect(**kw)
                        pure = all(kw[k] == before[k] for k in before) and (r is None) == op['inplace']
                        if not op['inplace']:
                            objs.append(r)
                    elif op['op'] == 'res':
                        kw = {}
                        if not op.get('default'):
                            kw = dict(spacing=op['spacing'], spline=op['spline'])
                        if op['size']:
                            kw['size'] = (op['size'],)*2 if op['pair'] else op['size']
                        objs[op['h']].resample(**kw)
                except ValueError as e:
                    ok, err = False, f'{type(e).__name__}: {e}'[:200]
            out.append(dict(ok=ok, err=err, pure=pure, warn=any('logarithmically spaced' in str(x.message) for x in rec), objs=[dump(w, names) for w in objs]))
    return dict(h=out)


def measured(s):
    """Windows measured and saved, then loaded from the files."""
    from triumvirate import threept
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.dataobjs import Binning
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    key = Keyer(s['seed'], s['keys'])
    rng = np.random.default_rng(s['seed'])
    x = rng.uniform(5, 45, (s['np'], 3))
    los = x/np.linalg.norm(x, axis=1)[:, None]
    files, tabs = {}, {}
    with tempfile.TemporaryDirectory() as d:
        for l in s['ls']:
            p = fetch_paramset_template('dict')
            p.update(dict(boxsize=dict(x=60., y=60., z=60.), ngrid=dict(x=8, y=8, z=8), alignment='centre', assignment='ngp', interlace=False,
                          degrees=dict(zip(('ell1', 'ell2', 'ELL'), l)), catalogue_type='random', statistic_type='3pcf-win', form='full',
                          range=[4., 26.], num_bins=s['n'], binning='lin', norm_convention='particle', verbose=60, tags=dict(output='_' + ''.join(map(str, l)))))
            p['directories'] = dict(measurements=d, catalogues=None)
            b = Binning('config', 'lin', bin_min=4., bin_max=26., num_bins=s['n'])
            cat = ParticleCatalogue(*x.T.copy(), nz=np.full(s['np'], 1.))
            before = set(os.listdir(d))
            r = threept.compute_3pcf_window(cat, los_rand=los.copy(), binning=b, paramset=ParameterSet(param_dict=p), save='.txt')
            f, = set(os.listdir(d)) - before
            files[key(l)] = os.path.join(d, f)
            tabs[tuple(l)] = r
        w = W.ThreePointWindow.load_from_textfiles(files, subtract_shotnoise=s['shot'], usecols=(1, 4, 6, 8) if s['shot'] else (1, 4, 6), make_loglin=False, alpha_contrast=s['alpha'])
    out = dump(w, {v: str(list(k.index) if not isinstance(k, (str, tuple)) else list(W.Multipole(k).index)) for k, v in files.items()})
    out['rows'] = [len(tabs[tuple(l)]['r1_eff']) for l in out['ls']]
    out['val'] = [(s['alpha']**2*np.real(tabs[tuple(l)]['zeta_raw'] - (tabs[tuple(l)]['zeta_shot'] if s['shot'] else 0))).tolist() for l in out['ls']]
    out['r2'] = [tabs[tuple(l)]['r2_eff'].tolist() for l in out['ls']]
    return out


if __name__ == '__main__':
    serve(lambda s: globals()[s['kind']](s))
