from dlib import serve
import numpy as np
from triumvirate.dataobjs import Binning
from triumvirate.parameters import ParameterSet, fetch_paramset_template


def fr(x):
    return x[0]/x[1]


def state(b):
    return dict(lo=b.bin_min, hi=b.bin_max, n=b.num_bins, e=list(b.bin_edges), c=list(b.bin_centres),
                w=list(b.bin_widths), scheme=b.scheme, space=b.space)


def run(s):
    h = s['hist']
    b = Binning(h[0]['space'], h[0]['scheme'])
    out = []
    for k in h[1:]:
        ev = k['ev']
        err = None
        try:
            if ev['op'] == 'set':
                if s['ctor']:
                    b = Binning(b.space, b.scheme, bin_min=fr(ev['lo']), bin_max=fr(ev['hi']), num_bins=ev['n'])
                else:
                    b.set_bins(fr(ev['lo']), fr(ev['hi']), ev['n'])
            elif ev['op'] == 'grid':
                if s['ctor']:
                    b.set_grid_based_bins([ev['L']*.5, ev['L'], ev['L']*.25], [ev['ng'] + 2, ev['ng'], ev['ng'] + 1])
                else:
                    b.set_grid_based_bins(float(ev['L']), ev['ng'])
            elif ev['op'] == 'custom':
                e = [fr(x) for x in ev['e']]
                b.set_custom_bins(np.array(e) if s['ctor'] else e)
            elif ev['op'] == 'scheme':
                b.scheme = ev['v']
            elif ev['op'] == 'space':
                b.space = ev['v']
            elif ev['op'] == 'params':
                d = fetch_paramset_template('dict')
                d.update(dict(
                    boxsize=dict(x=float(ev['L']), y=ev['L']/2., z=float(ev['L'])), ngrid=dict(x=ev['ng'], y=ev['ng'] + 2, z=ev['ng']),
                    degrees=dict(ell1=0, ell2=0, ELL=0), catalogue_type='sim',
                    statistic_type='powspec' if ev['space'] == 'fourier' else '2pcf',
                    range=[fr(ev['lo']), fr(ev['hi'])], num_bins=ev['n'], binning=ev['scheme'], verbose=50))
                p = ParameterSet(param_dict=d)
                b = Binning.from_parameter_set(p)
        except (ValueError, RuntimeError, TypeError) as e:
            err = repr(e)
        out.append(dict(err=err, b=state(b)))
    return dict(out=out)


serve(run)
