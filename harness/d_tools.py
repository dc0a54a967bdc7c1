"""The companion tools under apps/, run as programs in a scratch directory."""
import contextlib, hashlib, io, json, os, re, runpy, shutil, sys, tempfile, warnings
import numpy as np
import yaml
from dlib import serve

APPS = os.path.join(os.environ['VERIF_TREE'], 'apps')


def run(script, argv):
    """What a run of the tool comes to: its exit, its output, its warnings."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = [script] + argv
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter('always')
        try:
            runpy.run_path(os.path.join(APPS, script), run_name='__main__')
            how = ''
        except SystemExit as e:
            how = '' if e.code in (0, None) else f'exit {e.code}: {err.getvalue()[-200:]}'
        except Exception as e:
            how = f'{type(e).__name__}: {e}'[:300]
        finally:
            sys.argv = old
    return dict(err=how, out=out.getvalue()[-4000:], warn=[f'{x.category.__name__}: {x.message}'[:200] for x in w])


def typed(v):
    if v is None:
        return dict(t='null', v='')
    if isinstance(v, bool):
        return dict(t='bool', v='true' if v else 'false')
    if isinstance(v, int):
        return dict(t='int', v=str(v))
    if isinstance(v, float):
        return dict(t='float', v=repr(v))
    if isinstance(v, list):
        return dict(t='list', v=json.dumps(v))
    return dict(t='str', v=str(v))


def flat(d, at=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, at + (str(k),))
        else:
            yield [list(at + (str(k),)), typed(v)]


def look(path, tool):
    if path.endswith('.npz'):
        with np.load(path) as d:
            return {k: [[float(x.real), float(x.imag)] for x in d[k].ravel()] if k.startswith('data_vectors') else [float(x) for x in d[k].ravel()] for k in d} | {'shapes': {k: list(d[k].shape) for k in d}}
    with open(path, newline='') as f:
        text = f.read()
    if tool == 'yml':
        return sorted(flat(yaml.safe_load(text)))
    return text


def snapshot(tool):
    return {os.path.relpath(os.path.join(r, f)): look(os.path.join(r, f), tool) for r, _, fs in os.walk('.') for f in fs}


def measured(s):
    """Measurements of the library through the tools."""
    from triumvirate.catalogue import ParticleCatalogue
    from triumvirate.parameters import ParameterSet, fetch_paramset_template
    from triumvirate import threept, twopt
    rng = np.random.default_rng(s['seed'])
    got = []

    def pset(**kw):
        d = fetch_paramset_template('dict')
        d.update(boxsize=dict(x=60., y=55., z=70.), ngrid=dict(x=9, y=7, z=7), alignment='centre', assignment=s['assign'], norm_convention='particle', binning='lin', num_bins=3, verbose=60, fftw_scheme='estimate',
                 directories=dict(catalogues=None, measurements='./'), catalogue_type='sim', range=s['range'], expand=1.)
        for k, v in kw.items():
            d[k] = v
        return ParameterSet(param_dict=d)
    cats = []
    for _ in range(2):
        x = rng.uniform(0, 50, (40, 3))
        cats.append(ParticleCatalogue(*x.T, nz=2e-4*np.ones(40)))
    bi = s['stat'] == 'bk'
    three = threept.compute_bispec_in_gpp_box if bi else threept.compute_3pcf_in_gpp_box
    two = twopt.compute_powspec_in_gpp_box if bi else twopt.compute_corrfunc_in_gpp_box
    st3, st2 = ('bispec', '3pcf')[not bi], ('powspec', '2pcf')[not bi]
    if s['what'] == 'exchange':
        l = s['ell']
        for tag, e in (('_a', l), ('_b', [l[1], l[0], l[2]])):
            three(cats[0], degrees=tuple(e), form='full', paramset=pset(statistic_type=st3, degrees=dict(ell1=e[0], ell2=e[1], ELL=e[2]), form='full', tags=dict(output=tag)), save='.txt')
        name = lambda e, tag: f'{s["stat"]}{e[0]}{e[1]}{e[2]}_full{tag}.txt'
        r = run('io/exchange_coord_axes.py', [name(l, '_a'), '--output-tag', '_x'])
        f = name([l[1], l[0], l[2]], '_a_x')
        if r['err'] or not os.path.exists(f):
            return dict(run=r, files=sorted(os.listdir('.')))
        g = name([l[1], l[0], l[2]], '_b')
        last = lambda p: [x for x in open(p) if x.startswith('#')][-1].strip()
        return dict(run=r, got=np.loadtxt(f).tolist(), want=np.loadtxt(g).tolist(), head=[last(f), last(g)])
    rows = []
    for k, c in enumerate(cats):
        tag = f'_m_{k + 3}'
        a = two(c, degree=s['deg'], paramset=pset(statistic_type=st2, degrees=dict(ell1=None, ell2=None, ELL=s['deg']), tags=dict(output=tag)), save='.txt')
        b = three(c, degrees=tuple(s['ell']), form='diag', paramset=pset(statistic_type=st3, degrees=dict(zip(('ell1', 'ell2', 'ELL'), s['ell'])), form='diag', tags=dict(output=tag)), save='.txt')
        rows.append([a, b])
    # the two statistics carry different parts in their names: bring them together
    for f in sorted(os.listdir('.')):
        if '_diag' in f:
            os.rename(f, f.replace('_diag', ''))
    c2, c3 = f'{("xi", "pk")[bi]}{s["deg"]}', s['stat'] + ''.join(map(str, s['ell']))
    r = run('io/comb_data_vectors.py', ['--tag', r'_m_(.*)\.txt', '-s', c2, c3])
    fs = [f for f in os.listdir('.') if f.endswith('.npz')]
    if r['err'] or len(fs) != 1:
        return dict(run=r, files=sorted(os.listdir('.')))
    d = np.load(fs[0])
    val = lambda m: next(m[k] for k in ('pk_raw', 'xi', 'bk_raw', 'zeta_raw') if k in m)
    raw = [[complex(z) for m in row for z in val(m)] for row in rows]
    return dict(run=r, got=[[[z.real, z.imag] for z in x] for x in d['data_vectors'].tolist()], want=[[[z.real, z.imag] for z in x] for x in raw])


def scenario(s):
    top, cwd = tempfile.mkdtemp(prefix='tools'), os.getcwd()
    try:
        os.chdir(top)
        if s['tool'] == 'measured':
            return measured(s)
        if s['tool'] == 'list':
            return run('calculators/gen_wc_coeffs.py', s['argv'])
        for d in s['dirs']:
            os.makedirs(d, exist_ok=True)
        for p, text in s['files']:
            with open(p, 'w', newline='') as f:
                f.write(text)
        log = [dict(files=snapshot(s['tool']))]
        for argv in s['ops']:
            r = run({'exchange': 'io/exchange_coord_axes.py', 'combine': 'io/comb_data_vectors.py'}.get(s['tool'], 'io/gen_param_file.py'), argv)
            r['files'] = snapshot(s['tool'])
            log.append(r)
        return dict(log=log)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


if __name__ == '__main__':
    serve(scenario)
