"""Runs sessions of measurements through the Python interface, each in a process of its own."""
import hashlib, io, json, logging, os, shutil, sys, tempfile
from copy import deepcopy
from dlib import serve
import numpy as np
from triumvirate import twopt, threept
from triumvirate.catalogue import ParticleCatalogue
from triumvirate.dataobjs import Binning
from triumvirate.fieldmesh import record_binned_vectors
from triumvirate.parameters import ParameterSet, fetch_paramset_template

U = -99
TOLD, FAULT = [], []


class Ear(logging.StreamHandler):
    """Listens to a logger: formats every message, and notes whether it enters or leaves the C++ library."""

    def emit(self, record):
        super().emit(record)
        try:
            m = record.getMessage()
        except Exception:
            m = ''
        TOLD.append('start' if m.endswith('(entering C++)') else 'end' if m.endswith('(exited C++)') else '')

    def handleError(self, record):
        FAULT.append(repr(sys.exc_info()[1])[:100] + ' ' + str(record.msg)[:60])


def loggers():
    """A standard logger and the logger of the package."""
    from triumvirate.logger import setup_logger
    program = setup_logger()
    ear = Ear(io.StringIO())
    ear.setFormatter(program.logger.handlers[0].formatter)
    program.logger.handlers[:] = [ear]
    plain = logging.getLogger('plain')
    plain.propagate = False
    plain.addHandler(Ear(io.StringIO()))
    return {'': None, 'plain': plain, 'program': program}


fl = lambda q: q[0] / q[1]


def catalogue(c, **more):
    p = np.array(c['pos'], dtype=float)
    kw = {k: np.array(c[k], dtype=float) for k in ('ws', 'wc', 'nz') if c[k]}
    return ParticleCatalogue(p[:, 0], p[:, 1], p[:, 2], **kw, **more)


def entries(s):
    """Parameter-set entries from model settings (or a part of them)."""
    o = {}
    ax = lambda v: dict(zip('xyz', [None] * 3 if v[0] == 0 else v))
    for k, v in s.items():
        if k == 'box':
            o['boxsize'] = ax([float(x) for x in v])
        elif k == 'grid':
            o['ngrid'] = ax(v)
        elif k == 'cut':
            o['cutoff_nyq'] = fl(v) if v[1] else None
        elif k == 'expand':
            o['expand'] = fl(v)
        elif k == 'align':
            o['alignment'] = v
        elif k == 'padscale':
            o['padscale'] = v
        elif k == 'pad':
            o['padfactor'] = fl(v)
        elif k == 'assign':
            o['assignment'] = v
        elif k == 'inter':
            o['interlace'] = v
        elif k == 'ell':
            o['degrees'] = dict(zip(('ell1', 'ell2', 'ELL'), [None if x == U else x for x in v]))
        elif k == 'idx':
            o['idx_bin'] = None if v == U else v
        elif k == 'nb':
            o['num_bins'] = v
        elif k == 'norm':
            o['norm_convention'] = v
        elif k == 'stat':
            o['statistic_type'] = v or None
        elif k == 'dir':
            o['directories'] = dict(catalogues=None, measurements=v or None)
        elif k == 'tag':
            o['tags'] = dict(output=v or None)
        elif k in ('form', 'binning'):
            o[k] = v
    if 'lo' in s:
        o['range'] = [s['lo'] / 1000, s['hi'] / 1000]
    return o


def pset(s, logger=None, **kw):
    d = fetch_paramset_template('dict')
    d.update(entries(s))
    d.update(verbose=60, fftw_scheme='estimate')
    d.update(kw)
    return ParameterSet(param_dict=d, logger=logger)


def binning(b, space):
    if b['scheme'] == 'custom':       # the custom bins of the program
        o = Binning(space, 'lin', bin_min=0., bin_max=b['hi'] / 1000, num_bins=b['nb'])
        o.set_custom_bins(np.concatenate([[0., 1., 10., 20., 30., 40.], np.geomspace(50., b['hi'] / 1000, b['nb'] - 5)]))
        return o
    if b.get('padbin', [0])[0]:       # padded bins as given, then bins of the scheme
        d = 5 * fl(b['padbin']) * (2 * np.pi if space == 'fourier' else 1)
        pads, n, hi = d * np.arange(5) / 5, b['nb'] - 5, b['hi'] / 1000
        o = Binning(space, 'lin', bin_min=0., bin_max=hi, num_bins=b['nb'])
        o.set_custom_bins(np.concatenate([pads, np.linspace(d, hi, n + 1) if b['scheme'] == 'linpad' else np.geomspace(d, hi, n + 1)]))
        return o
    return Binning(space, b['scheme'], bin_min=b['lo'] / 1000, bin_max=b['hi'] / 1000, num_bins=b['nb'])


SPACE = lambda fn: 'fourier' if 'powspec' in fn or 'bispec' in fn else 'config'


def jsonable(r):
    o = {}
    for k, v in r.items():
        v = np.asarray(v)
        if v.dtype.kind in 'US':
            o[k] = str(v)
        elif np.iscomplexobj(v):
            o[k] = dict(re=v.real.ravel().tolist(), im=v.imag.ravel().tolist(), dim=list(v.shape))
        else:
            o[k] = dict(re=v.ravel().tolist(), im=[], dim=list(v.shape))
    return o


def recorded(v):
    v = np.sort(v, order=v.dtype.names)         # threads record them in any order
    return {n: dict(re=np.asarray(v[n], dtype=float).ravel().tolist(), im=[], dim=[len(v)]) for n in v.dtype.names}


def digest(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(x if isinstance(x, bytes) else repr(x).encode())
    return h.hexdigest()


def catstate(c):
    return digest(*[np.ascontiguousarray(c[k]).tobytes() for k in ('x', 'y', 'z', 'nz', 'ws', 'wc')], sorted(c.bounds.items()), sorted(c.spans.items()), c.ntotal, float(c.wtotal), float(c.wstotal))


def binstate(b):
    return digest(b.space, b.scheme, b.bin_min, b.bin_max, b.num_bins, list(b.bin_edges), list(b.bin_centres), list(b.bin_widths))


def tree():
    return {os.path.relpath(os.path.join(d, f), '.'): digest(open(os.path.join(d, f), 'rb').read()) for d, _, fs in os.walk('.') for f in fs}


def load(f):
    if f.endswith('.npz'):
        with np.load(f) as z:
            return dict(kind='npz', data=jsonable({k: z[k] for k in z.files if k != 'header'}), header=str(z['header']).split('\n') if 'header' in z.files else None)
    lines = open(f).read().split('\n')
    t = np.atleast_2d(np.loadtxt(f))
    return dict(kind='txt', table=t.tolist(), header=[l[2:] for l in lines if l.startswith('#')], plain=[l.startswith('# ') for l in lines if l.startswith('#')])


def session(s):
    ears = loggers()
    objs = [catalogue(c, logger=ears[s['logger']]) for c in s['cats']]
    los = [np.array(c['los'], dtype=float) for c in s['cats']]
    sets = [pset(p, logger=ears[s['logger']], **s['more'][k]) for k, p in enumerate(s['psets'])]
    for d in s['dirs']:
        os.makedirs(d)
    out = []
    disk = tree()
    for k in s['script']:
        c = s['ops'][k - 1]
        watch = {}

        def keep(name, x, f):
            watch[name] = (x, f, f(x))
        for n, o in enumerate(objs):
            keep(f'catalogue {n + 1}', o, catstate)
        for n, o in enumerate(los):
            keep(f'lines of sight {n + 1}', o, lambda a: digest(a.tobytes(), a.shape))
        for n, p in enumerate(sets):
            keep(n + 1, p, lambda p: digest(sorted((a, repr(b)) for a, b in p.items())))
        r = {}
        TOLD.clear()
        FAULT.clear()
        try:
            if c['op'] == 'update':
                p, new = sets[c['set'] - 1], entries(c['new'])
                for key, v in (new.items() if c['how'] else [(None, None)]):
                    if key is None:
                        p.update(new)
                    elif c['how'] == 1:
                        p[key] = v
                    else:
                        setattr(p, key, v)
                r['kind'] = 'update'
            elif c['op'] == 'record':
                kw = {}
                b = binning(c['bin'], c['bin']['space'])
                keep('binning', b, binstate)
                if c['box']:
                    kw['boxsize'] = [float(x) for x in c['box']]
                if c['grid']:
                    kw['ngrid'] = list(c['grid'])
                keep('sizes', kw, repr)
                v = record_binned_vectors(b, paramset=sets[c['set'] - 1], **kw)
                r.update(kind='record', res=recorded(v))
            else:
                fn = c['fn']
                three = hasattr(threept, fn)
                args, kw = [], {}
                if c['cat']:
                    args.append(objs[c['cat'] - 1])
                if c['ran']:
                    args.append(objs[c['ran'] - 1])
                if c['los']:
                    if c['cat'] and c['ran']:
                        kw['los_data'] = los[c['cat'] - 1]
                    if c['ran']:
                        kw['los_rand'] = los[c['ran'] - 1]
                if c['set']:
                    kw['paramset'] = sets[c['set'] - 1]
                if c['deg']:
                    kw['degrees' if three else 'degree'] = (''.join(map(str, c['deg'])) if c['degstr'] else tuple(c['deg'])) if three else c['deg'][0]
                if c['bin']['nb']:
                    kw['binning'] = binning(c['bin'], SPACE(fn))
                    keep('binning', kw['binning'], binstate)
                m = c['samp']
                if m['given']:
                    sp = {}
                    if m['box']:
                        sp['boxsize'] = [float(x) for x in m['box']]
                    if m['grid']:
                        sp['ngrid'] = list(m['grid'])
                    for a, b in (('align', 'alignment'), ('assign', 'assignment')):
                        if m[a]:
                            sp[b] = m[a]
                    if m['inter']:
                        sp['interlace'] = m['inter'] == 'true'
                    for a, b in (('cut', 'cutoff_nyq'), ('expand', 'expand'), ('boxpad', 'boxpad'), ('gridpad', 'gridpad')):
                        if m[a][1]:
                            sp[b] = fl(m[a])
                    kw['sampling_params'] = sp
                    keep('sampling parameters', sp, repr)
                if three:
                    if c['form']:
                        kw['form'] = c['form']
                    if c['idx'] != U:
                        kw['idx_bin'] = c['idx']
                    if c['wa']:
                        kw['wa_orders'] = ''.join(map(str, c['wa'])) if c['degstr'] else tuple(c['wa'])
                if c['save']:
                    kw['save'] = c['save']
                if c['logger']:
                    kw['logger'] = ears[c['logger']]
                res = getattr(threept if three else twopt, fn)(*args, **kw)
                r.update(kind='result', res=jsonable(res))
        except Exception as e:
            r.update(kind='error', err=repr(e)[:300])
        r['told'], r['fault'] = list(TOLD), FAULT[:1]
        r['changed'] = [n for n, (x, f, d) in watch.items() if f(x) != d]
        now = tree()
        r['gone'] = [f for f in disk if f not in now]
        r['files'] = [f for f in now if disk.get(f) != now[f]]
        r['loads'] = {}
        for f in r['files']:
            try:
                r['loads'][f] = load(f)
            except Exception as e:
                r['loads'][f] = dict(kind='unreadable', err=repr(e)[:200])
        disk = now
        out.append(r)
    return dict(steps=out)


def reference(s):
    """The measurement of a request on its own, with every setting in a parameter set."""
    q = s['req']
    if 'space' in q:
        b = binning(dict(q, scheme=q['binning']), q['space'])
        return dict(res=recorded(record_binned_vectors(b, boxsize=[fl(x) if isinstance(x, list) else float(x) for x in q['box']], ngrid=list(q['grid']))))
    d = dict(q, ell=[x if x != U else 0 for x in q['ell']], box=[1, 1, 1], align=q['align'] or 'centre', padscale=q['padscale'] or 'box', form=q['form'] or 'diag')
    # (a box about the particles in the very arithmetic of its definition)
    span = s['cats'][(q['cat'] if q['ctype'] == 'sim' else q['ran']) - 1]['span']
    box = dict(zip('xyz', [float(x[0]) if x[1] == 1 else x[0] // w / x[1] * w for x, w in zip(q['box'], span)]))
    p = pset({k: d[k] for k in ('grid', 'align', 'padscale', 'pad', 'assign', 'inter', 'ell', 'form', 'idx', 'nb', 'norm', 'stat', 'binning', 'lo', 'hi')}, boxsize=box, catalogue_type=q['ctype'])
    args, kw = [], dict(paramset=p)
    for k, n in (('cat', 'los_data'), ('ran', 'los_rand')):
        if q[k]:
            c = s['cats'][q[k] - 1]
            args.append(catalogue(c))
            if q['ctype'] != 'sim':
                x = np.array(c['pos'], dtype=float)
                kw[n] = np.array(c['los'], dtype=float) if q['los'] else x / np.sqrt((x**2).sum(axis=1))[:, None]
    if q['wa']:
        kw['wa_orders'] = tuple(q['wa'])
    if q.get('padbin', [0])[0] or q['binning'] == 'custom':
        kw['binning'] = binning(dict(q, scheme=q['binning']), SPACE(q['fn']))
    if s.get('saved'):
        kw['save'] = '.txt'
    r = dict(res=jsonable(getattr(threept if hasattr(threept, q['fn']) else twopt, q['fn'])(*args, **kw)))
    if s.get('saved'):
        f, = tree()
        r['file'] = load(f)
    return r


def run(s):
    r, w = os.pipe()
    d = tempfile.mkdtemp(dir='.')
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.chdir(d)
        try:
            try:
                o = session(s) if 'ops' in s else reference(s)
            except Exception as e:
                import traceback
                o = dict(exception=repr(e)[:300], tail=traceback.format_exc()[-700:])
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(o))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    rc = os.waitpid(pid, 0)[1]
    shutil.rmtree(d, ignore_errors=True)
    if not t:
        return dict(crash=f'status {rc}')
    return json.loads(t)


if __name__ == '__main__':
    serve(run)
