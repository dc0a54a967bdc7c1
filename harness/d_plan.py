"""Histories of processes that measure with planned transforms and directories of wisdom."""
import ctypes, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from dlib import serve
import numpy as np
import d_stats

PROGRAM = os.path.join(os.environ['VERIF_TREE'], 'build', 'bin', 'triumvirate')
NAME = re.compile(r'fftw(_omp)?_ci([fb])_(\d+)x(\d+)x(\d+)\.wisdom')
FLAGS = dict(measure=0, patient=1 << 5)


def apart(fn):
    """Run in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            o = fn()
        except BaseException as e:
            import traceback
            o = dict(crash=f'{type(e).__name__}: {e}'[:300], tail=traceback.format_exc()[-600:])
        with os.fdopen(w, 'w') as f:
            json.dump(o, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else dict(crash='process ended')


def files():
    out = {}
    for d in sorted(os.listdir('.')):
        if d.startswith('w') and os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                out[f'{d}/{f}'] = hashlib.md5(open(f'{d}/{f}', 'rb').read()).hexdigest()
    return out


def dirs():
    return sorted(d for d in os.listdir('.') if d.startswith('w') and os.path.isdir(d))


def program(o, scheme, wisdom):
    j = o['job']
    os.makedirs('out', exist_ok=True)
    with open('cat.txt', 'w') as f:
        for p in j['cat']:
            f.write(' '.join(map(repr, p['x'] + [p['nz'], p['ws'], p['wc']])) + '\n')
    three = j['stat'] == 'bispec'
    q = dict(catalogue_dir='./', measurement_dir='out', data_catalogue_file='cat.txt', rand_catalogue_file='', catalogue_columns='x,y,z,nz,ws,wc', output_tag='', alignment='centre', padscale='box', assignment=j['assignment'],
             interlace=['false', 'true'][j['inter']], catalogue_type='sim', statistic_type=j['stat'], ell1=j['degrees'][0], ell2=j['degrees'][1], ELL=j['degrees'][2], form='diag', norm_convention='none', binning='lin',
             bin_min=j['e'][0], bin_max=j['e'][-1], num_bins=len(j['e']) - 1, fftw_scheme=scheme, use_fftw_wisdom=wisdom or 'false', save_binned_vectors='false', verbose=30, progbar='false')
    for k, v in zip('xyz', zip(j['box'], j['n'])):
        q['boxsize_' + k], q['ngrid_' + k] = v
    with open('par.ini', 'w') as f:
        f.write(''.join(f'{k} = {v}\n' for k, v in q.items()))
    r = subprocess.run([PROGRAM, 'par.ini'], capture_output=True, text=True)
    res = None
    name = ('bk' if three else 'pk') + (''.join(map(str, j['degrees'])) + '_diag' if three else str(j['degrees'][2]))
    if r.returncode == 0:
        res = np.loadtxt(f'out/{name}', ndmin=2).ravel().tolist()
        shutil.rmtree('out')
    return dict(refused=r.returncode != 0, res=res, slow='despite importing' in r.stdout, text=(r.stdout + r.stderr)[-300:] if r.returncode else '')


def measure(o, scheme, wisdom):
    if o['program']:
        return program(o, scheme, wisdom)
    s = dict(o['job'])
    s['extra'] = dict(s.get('extra', {}), fftw_scheme=scheme, use_fftw_wisdom=wisdom or False, verbose=30)
    tmp = tempfile.TemporaryFile()
    sys.stdout.flush()
    keep = os.dup(1)
    os.dup2(tmp.fileno(), 1)
    before = len(os.listdir('/proc/self/fd'))
    text, res = '', None
    try:
        p = d_stats.paramset
        d_stats.paramset = lambda q, **kw: p(q, **dict(kw, verbose=30))
        r = d_stats.measure(s)
        res = []
        for k in sorted(r):
            v = np.asarray(r[k])
            if v.dtype.kind not in 'US':
                v = v.ravel()
                res += np.concatenate([v.real, v.imag]).tolist()
    except ValueError as e:
        text = str(e)
    finally:
        d_stats.paramset = p
        leak = len(os.listdir('/proc/self/fd')) - before
        ctypes.CDLL(None).fflush(None)
        os.dup2(keep, 1)
        os.close(keep)
    tmp.seek(0)
    said = tmp.read().decode(errors='replace')
    return dict(refused=res is None, res=res, slow='despite importing' in said, text=text, leak=leak)


def usable(f, scheme):
    """Whether a transform can be planned from a file alone."""
    m = NAME.fullmatch(os.path.basename(f))
    lib = ctypes.CDLL('libfftw3.so.3', mode=ctypes.RTLD_GLOBAL)
    if m[1]:
        omp = ctypes.CDLL('libfftw3_omp.so.3', mode=ctypes.RTLD_GLOBAL)
        omp.fftw_init_threads()
        omp.fftw_plan_with_nthreads(1)
    lib.fftw_forget_wisdom()
    n = [int(m[k]) for k in (3, 4, 5)]
    lib.fftw_malloc.restype = ctypes.c_void_p
    lib.fftw_malloc.argtypes = [ctypes.c_size_t]
    buf = lib.fftw_malloc(16 * n[0] * n[1] * n[2])
    plan = lib.fftw_plan_dft_3d
    plan.restype, plan.argtypes = ctypes.c_void_p, [ctypes.c_int] * 3 + [ctypes.c_void_p] * 2 + [ctypes.c_int, ctypes.c_uint]
    lib.fftw_import_wisdom_from_filename.argtypes = [ctypes.c_char_p]
    ok = lib.fftw_import_wisdom_from_filename(f.encode())
    return dict(imported=bool(ok), planned=bool(plan(*n, buf, buf, -1 if m[2] == 'f' else 1, FLAGS[scheme] | 1 << 21)))


def process(ops):
    out = []
    for o in ops:
        was = files()
        r = measure(o, o['scheme'], o['spelled'])
        now = files()
        r.update(files=sorted(now), new=sorted(set(now) - set(was)), changed=sorted(f for f in was if now.get(f) != was[f]), dirs=dirs())
        out.append(r)
    return out


def run(s):
    os.environ['VRF_WISDOM'] = 'w'
    wd = tempfile.mkdtemp()
    os.chdir(wd)
    try:
        out, k = [], 0
        while k < len(s['ops']):
            o = s['ops'][k]
            k += 1
            if o['op'] == 'mkdir':
                os.makedirs(o['dir'], exist_ok=True)
            elif o['op'] == 'start':
                part = []
                while k < len(s['ops']) and s['ops'][k]['op'] == 'measure':
                    part.append(s['ops'][k])
                    k += 1
                r = apart(lambda: dict(out=process(part)))
                if 'out' not in r:
                    return r
                for o, q in zip(part, r['out']):
                    q['usable'] = [apart(lambda: usable(f, o['scheme'])) if NAME.fullmatch(os.path.basename(f)) else {} for f in q['new']]
                    q['plain'] = apart(lambda: dict(measure(o, 'estimate', '')))
                out += r['out']
            else:
                name = f'{o["dir"]}/fftw{"_omp" if s["omp"] else ""}_ci{o["way"]}_{"x".join(map(str, o["mesh"]))}.wisdom'
                if o['op'] == 'remove':
                    if os.path.exists(name):
                        os.remove(name)
                elif not os.path.exists(name):
                    with open(name, 'w') as f:
                        f.write(o['text'])
        return dict(out=out)
    finally:
        os.chdir('/')
        shutil.rmtree(wd)


serve(run)
