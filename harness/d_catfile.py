import numpy as np
from dlib import serve
from triumvirate.catalogue import ParticleCatalogue


def scen(s):
    try:
        kw = dict(s['kw'])
        cat = ParticleCatalogue.read_from_file(s['path'], **kw)
    except Exception as e:
        return dict(err=repr(e)[:200])
    return dict(cat=dict(p=[[float(cat[c][i]) for c in ('x', 'y', 'z', 'nz', 'ws', 'wc')] for i in range(len(cat))],
                         ntotal=int(cat.ntotal), wtotal=float(cat.wtotal), wstotal=float(cat.wstotal),
                         lo=[float(cat.bounds[a][0]) for a in 'xyz'], hi=[float(cat.bounds[a][1]) for a in 'xyz'],
                         span=[float(cat.spans[a]) for a in 'xyz']))


serve(scen)
