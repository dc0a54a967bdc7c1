"""Runs clustering measurements through the Python interface."""
from dlib import serve
import numpy as np
from triumvirate import twopt, threept
from triumvirate.catalogue import ParticleCatalogue
from triumvirate.dataobjs import Binning
from triumvirate.parameters import ParameterSet, fetch_paramset_template

STAT = {'fourier': 'powspec', 'config': '2pcf'}


def cat(ps):
    col = lambda f: np.array([f(p) for p in ps], dtype=float)
    return ParticleCatalogue(col(lambda p: p['x'][0]), col(lambda p: p['x'][1]), col(lambda p: p['x'][2]),
                             nz=col(lambda p: p['nz']), ws=col(lambda p: p['ws']), wc=col(lambda p: p['wc']))


def los(ps):
    return np.array([p['l'] for p in ps], dtype=float)


def paramset(s, **kw):
    d = fetch_paramset_template('dict')
    d.update(dict(boxsize=dict(zip('xyz', s['box'])), ngrid=dict(zip('xyz', s['n'])), alignment=s['align'],
                  padscale=s['padscale'], padfactor=s['padfactor'], assignment=s['assignment'], interlace=s['inter'],
                  degrees=dict(zip(('ell1', 'ell2', 'ELL'), s['degrees'])), catalogue_type=s['ctype'], statistic_type=s['stat'],
                  range=[s['e'][0], s['e'][-1]], num_bins=len(s['e']) - 1, norm_convention=s['norm'], verbose=60))
    d.update(s.get('extra', {}))
    d.update(kw)
    return ParameterSet(param_dict=d)


def sampling(s):
    o = dict(alignment=s['align'], boxsize=list(s['box']), ngrid=list(s['n']), assignment=s['assignment'], interlace=s['inter'])
    if s['align'] == 'pad':
        o['boxpad' if s['padscale'] == 'box' else 'gridpad'] = s['padfactor']
    return o


def jsonable(r):
    o = {}
    for k, v in r.items():
        v = np.asarray(v)
        if v.dtype.kind in 'US':
            continue
        if np.iscomplexobj(v):
            o[k] = [[float(x.real), float(x.imag)] for x in v.ravel()]
        else:
            o[k] = v.ravel().tolist()
    return o


def measure(s):
    fn = getattr(threept if hasattr(threept, s['fn']) else twopt, s['fn'])
    three = hasattr(threept, s['fn'])
    b = Binning(s['space'], 'custom')
    b.set_custom_bins(np.array(s['e']))
    args = []
    if 'cat' in s:
        args.append(cat(s['cat']))
    if 'ran' in s:
        args.append(cat(s['ran']))
    kw = {}
    if s['ctype'] == 'survey':
        kw = dict(los_data=los(s['cat']), los_rand=los(s['ran']))
    elif s['ctype'] == 'random':
        kw = dict(los_rand=los(s['ran']))
    if s.get('threads'):
        pass
    deg = tuple(s['degrees']) if three else s['degrees'][2]
    dk = 'degrees' if three else 'degree'
    m = s['mode']
    if m == 0:
        kw.update(paramset=paramset(s), binning=b)
    elif m == 1:
        kw.update(sampling_params=sampling(s), binning=b)
        kw[dk] = deg
        if three:
            kw.update({k: v for k, v in s.get('extra', {}).items() if k in ('form', 'idx_bin')})
    else:
        kw.update(paramset=paramset(s, degrees=dict(ell1=0, ell2=0, ELL=0), **dict(form='full', idx_bin=0) if three else {}), binning=b)
        kw[dk] = deg
        if three:
            kw.update({k: v for k, v in s['extra'].items() if k in ('form', 'idx_bin')})
    if 'wa' in s:
        kw['wa_orders'] = tuple(s['wa'])
    return fn(*args, **kw)


def run(s):
    try:
        return dict(res=jsonable(measure(s)))
    except Exception as e:
        return dict(err=repr(e))


if __name__ == '__main__':
    serve(run)
