from dlib import serve
import numpy as np
from triumvirate.dataobjs import Binning
from triumvirate.fieldmesh import record_binned_vectors
from triumvirate.parameters import ParameterSet, fetch_paramset_template


def par(L, n, space, bin_max):
    d = fetch_paramset_template('dict')
    d.update(dict(boxsize=dict(zip('xyz', L)), ngrid=dict(zip('xyz', n)), degrees=dict(ell1=0, ell2=0, ELL=0), catalogue_type='sim',
                  statistic_type='powspec' if space == 'fourier' else '2pcf', range=[0., bin_max], num_bins=5, verbose=50))
    return ParameterSet(param_dict=d)


def run(s):
    out = []
    L, n = s['L'], s['n']
    shared = par([1.]*3, [2]*3, s['sp'], 1.) if s['mode'] == 3 else None
    for e in s['e']:
        b = Binning(s['sp'], 'custom')
        b.set_custom_bins(e)
        try:
            if s['mode'] == 0:
                v = record_binned_vectors(b, par(L, n, s['sp'], e[-1]))
            elif s['mode'] == 1:
                one = len(set(L)) == 1 and len(set(n)) == 1
                v = record_binned_vectors(b, boxsize=L[0] if one else L, ngrid=n[0] if one else n)
            elif s['mode'] == 2:
                v = record_binned_vectors(b, par([2*x for x in L], n, s['sp'], e[-1]), boxsize=L)
            else:       # one parameter set reused for every request
                v = record_binned_vectors(b, shared, boxsize=L, ngrid=n)
        except Exception as x:
            out.append(dict(err=repr(x)))
            continue
        out.append(dict(count=len(v), nbins=b.num_bins, idx=v['index'].tolist(), lo=v['lower_edge'].tolist(), hi=v['upper_edge'].tolist(),
                        vx=v['vecx'].tolist(), vy=v['vecy'].tolist(), vz=v['vecz'].tolist()))
    return dict(out=out)


serve(run)
