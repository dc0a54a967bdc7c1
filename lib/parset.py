"""Parameter sets: generated settings (see Params.tla), their Python and file forms, and what a set must then look like."""
import math

U = -99
GROUPS = [['bx', 'by', 'bz'], ['gx', 'gy', 'gz'], ['l1', 'l2', 'l3'], ['wi', 'wj'], ['bmin', 'bmax'], ['cdir', 'mdir'], ['dfile', 'rfile']]
SINGLE = ['cat', 'stat', 'form', 'norm', 'binning', 'assign', 'inter', 'scheme', 'align', 'padscale', 'expand', 'cut', 'pad', 'idx', 'nb', 'wis', 'prog', 'verb', 'tag']
FLAG = dict(estimate=64, measure=0, patient=32)
STATS = ['powspec', '2pcf', '2pcf-win', 'bispec', '3pcf', '3pcf-win', '3pcf-win-wa', 'modes', 'pairs']


def rat(x):
    return x[0]/x[1] if x[1] else None


def fits(s):
    """Cutoffs stay clear of whole numbers of cells, where rounding decides."""
    c = s['cut']
    if not c[1] or c[0] <= 0:
        return True
    for L in (s['bx'], s['by'], s['bz']):
        for v in (L*c[0]/c[1]/math.pi, 2*L*c[1]/c[0]):
            if L and (abs(v - round(v)) < 1e-3 or v > 90):
                return False
    return True


def values(rng, f, py):
    g = rng.random()
    if f == 'cat':
        return rng.choice(['survey', 'random', 'sim', 'none'] + (['survye', '']))
    if f == 'stat':
        return rng.choice(STATS + ['bispectrum', '2PCF ' if False else 'powspec2'])
    if f == 'form':
        return rng.choice(['full', 'diag', 'off-diag', 'row', 'triu', ''])
    if f == 'norm':
        return rng.choice(['none', 'particle', 'mesh', 'mesh-mixed', 'mixed', ''])
    if f == 'binning':
        return rng.choice(['lin', 'log', 'linpad', 'logpad', 'custom', 'linear', ''])
    if f == 'assign':
        return rng.choice(['ngp', 'cic', 'tsc', 'pcs', 'pqs', ''])
    if f == 'inter':
        return rng.choice(['true', 'false', 'on', 'off', 'yes', ''])
    if f == 'scheme':
        return rng.choice(['estimate', 'measure', 'patient', 'exhaustive', ''])
    if f == 'align':
        return rng.choice(['centre', 'pad', 'pad', 'center', ''])
    if f == 'padscale':
        return rng.choice(['box', 'grid', 'cell', ''])
    if f == 'expand':
        return rng.choice([[0, 0], [1, 1], [3, 2], [5, 4], [1, 2], [3, 4]])
    if f == 'cut':
        return rng.choice([[0, 0], [0, 1], [-1, 2], [1, 10], [3, 10], [7, 20], [5, 1], [17, 1], [23, 2]])
    if f == 'pad':
        return rng.choice([[0, 0], [0, 1], [1, 2], [1, 1], [3, 2], [7, 1], [8, 1], [-1, 10], [31, 32]])
    if f == 'idx':
        return rng.choice([U, 0, 1, 2, 3, 6, 7, 8, -1, -2, -3, -7])
    if f == 'nb':
        return rng.choice([0, 1, 2, 3, 5, 6, 7, 8] if g < .8 else [-3, -1])
    if f == 'wis':
        return rng.choice(['', '', 'wis', '/tmp/w/is', 'Wisdom', '/Tmp/False'])
    if f == 'prog':
        return rng.choice(['', 'true', 'false', '10', '12.5'])
    if f == 'verb':
        return 60
    if f == 'tag':
        return rng.choice(['', '_a', '-b.1'])


def group(rng, g):
    if g[0] == 'bx':
        r = rng.random()
        return [0, 0, 0] if r < .3 else [rng.choice([0, 50, 100, 130]) for _ in g] if r < .5 else [rng.choice([50, 64, 75, 100]) for _ in g]
    if g[0] == 'gx':
        r = rng.random()
        return [0, 0, 0] if r < .35 else [rng.choice([0, 8, 16]) for _ in g] if r < .5 else [rng.choice([7, 8, 16, 5]) for _ in g]
    if g[0] == 'l1':
        return [rng.choice([U, 0, 1, 2, 4]) for _ in g]
    if g[0] == 'wi':
        return [rng.choice([U, 0, 1, 2]) for _ in g]
    if g[0] == 'bmin':
        return rng.choice([[5, 105], [0, 250], [100, 100], [200, 100], [U, 100], [5, U], [-5, 100], [1, 2], [10000, 90500]])
    if g[0] == 'cdir':
        return [rng.choice(['', 'cats', '/abs/cats']), rng.choice(['', 'out', '/abs/out'])]
    if g[0] == 'dfile':
        one = lambda: dict(abs=False, name=rng.choice(['d.txt', 'sub/d.dat', 'form.dat'])) if rng.random() < .8 else dict(abs=True, name='/abs/x.dat')
        return [[one() for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in g]


def base(rng, py):
    """Some valid settings."""
    stat = rng.choice(STATS)
    cat = 'random' if 'win' in stat else rng.choice(['survey', 'sim'])
    three = stat.startswith('3') or stat == 'bispec'
    nb = rng.choice([2, 3, 7, 8])
    form = rng.choice(['full', 'diag', 'off-diag', 'row'])
    idx = rng.randint(0, nb - 1)
    s = dict(cat=cat, stat=stat, form=form, norm=rng.choice(['none', 'particle', 'mesh'] + (['mesh-mixed'] if not three and cat == 'survey' and stat not in ('modes', 'pairs') else [])),
             binning=rng.choice(['lin', 'log', 'custom'] + (['linpad', 'logpad'] if nb > 6 else [])), assign=rng.choice(['ngp', 'cic', 'tsc', 'pcs']),
             inter=rng.choice(['true', 'false', 'on', 'off']), scheme=rng.choice(['estimate', 'measure', 'patient']), align=rng.choice(['centre', 'pad']), padscale='box',
             expand=[1, 1], cut=[0, 0], pad=[1, 10], idx=idx if rng.random() < .8 or not form in ('off-diag', 'row') else idx, nb=nb, wis='', prog='', verb=60, tag='',
             bx=100, by=64, bz=75, gx=8, gy=16, gz=7, l1=0, l2=rng.choice([0, 2]), l3=0, wi=0, wj=0, bmin=5, bmax=105, cdir='cats', mdir='out', dfile=[dict(abs=False, name='d.txt')],
             rfile=[dict(abs=False, name='r.txt')], save=dict(mode='off', abs=False, name=''))
    return s


def alter(rng, s, n, py, opt=True):
    """Changes of n settings; returns the changed fields."""
    ch = {}
    for _ in range(n):
        if rng.random() < .35:
            g = rng.choice(GROUPS)
            ch.update(zip(g, group(rng, g)))
        else:
            f = rng.choice(SINGLE)
            v = values(rng, f, py)
            if f == 'cat' and v == '' and not opt:
                continue
            ch[f] = v
    return ch


# -- Python form ---------------------------------------------------------------
def num(x, f):
    return None if f[1] == 0 else f[0]/f[1]


def none(x):
    return None if x == U else x


def files(fs):
    return '::'.join(x['name'] for x in fs) or None


def case(rng, v):
    return v.upper() if v and rng.random() < .12 else v or None


def top(rng, s, f):
    """Python key and value carrying the field f of settings s."""
    c = lambda v: case(rng, v)
    ax = lambda a: {x: s[a + x] or None for x in 'xyz'}
    if f in ('bx', 'by', 'bz'):
        b = ax('b')
        return 'boxsize', {k: float(v) if v and rng.random() < .7 else v for k, v in b.items()}
    if f in ('gx', 'gy', 'gz'):
        return 'ngrid', ax('g')
    if f in ('l1', 'l2', 'l3'):
        return 'degrees', dict(ell1=none(s['l1']), ell2=none(s['l2']), ELL=none(s['l3']))
    if f in ('wi', 'wj'):
        return 'wa_orders', dict(i=none(s['wi']), j=none(s['wj']))
    if f in ('bmin', 'bmax'):
        return 'range', [None if x == U else x/1000 for x in (s['bmin'], s['bmax'])]
    if f in ('cdir', 'mdir'):
        return 'directories', dict(catalogues=s['cdir'] or None, measurements=s['mdir'] or None)
    if f in ('dfile', 'rfile'):
        return 'files', dict(data_catalogue=files(s['dfile']), rand_catalogue=files(s['rfile']))
    if f == 'tag':
        return 'tags', dict(output=s['tag'] or None)
    if f == 'inter':
        v = s['inter']
        return 'interlace', rng.choice([v, dict(true=True, on=True, false=False, off=False)[v]]) if v in ('true', 'false', 'on', 'off') else c(v)
    if f == 'wis':
        return 'use_fftw_wisdom', s['wis'] or rng.choice([False, None, 'false'])
    if f == 'prog':
        v = s['prog']
        return 'progbar', dict(true=True, false=False).get(v) if v in ('true', 'false') else (int(v) if v.isdigit() else float(v)) if v else None
    if f == 'scheme':
        return 'fftw_scheme', s['scheme'] or None
    key = dict(cat='catalogue_type', stat='statistic_type', norm='norm_convention', assign='assignment', align='alignment', cut='cutoff_nyq', pad='padfactor',
               nb='num_bins', idx='idx_bin', verb='verbose').get(f, f)
    v = s[f]
    if f in ('expand', 'cut', 'pad'):
        return key, rat(v)
    if f in ('nb',):
        return key, v or None
    if f == 'idx':
        return key, none(v)
    if f == 'verb':
        return key, v
    return key, c(v)


def pydict(rng, s):
    d = {}
    for f in s:
        if f != 'save':
            k, v = top(rng, s, f)
            d.setdefault(k, v)
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


# -- comparison ------------------------------------------------------------------
def near(a, b):
    return abs(a - b) <= 1e-12*max(abs(a), abs(b))


def wisname(x):
    return x.replace('fftw_omp_', 'fftw_')


def cpp_diff(v, c, save=True):
    """Fields in which the C++ parameters c differ from the view v."""
    bad = []

    def eq(name, a, b):
        if a != b:
            bad.append(f'{name} = {a!r} instead of {b!r}')

    def eqn(name, a, b):
        if not near(a, b):
            bad.append(f'{name} = {a!r} instead of {b!r}')
    for k, f in dict(npoint='npoint', space='space', assignment_order='order', interlace='inter', shape='shape', form='form', norm_convention='norm', binning='binning',
                     assignment='assign', alignment='align', padscale='padscale', catalogue_type='cat', statistic_type='stat', use_fftw_wisdom='wis', verbose='verb',
                     fftw_scheme='flag', catalogue_dir='cdir', measurement_dir='mdir', output_tag='tag').items():
        eq(k, c[k], v[f])
    eq('fftw_planner_flag', c['fftw_planner_flag'], FLAG[v['flag']])
    eq('fftw_wisdom_file_f', wisname(c['fftw_wisdom_file_f']), v['wisf'])
    eq('fftw_wisdom_file_b', wisname(c['fftw_wisdom_file_b']), v['wisb'])
    for k, x in zip(('ell1', 'ell2', 'ELL', 'i_wa', 'j_wa'), v['ell'] + v['wa']):
        eq(k, c[k], x)
    eqn('expand', c['expand'], rat(v['expand']))
    eqn('padfactor', c['padfactor'], rat(v['pad']))
    eqn('bin_min', c['bin_min'], v['bins'][0]/1000)
    eqn('bin_max', c['bin_max'], v['bins'][1]/1000)
    eq('num_bins', c['num_bins'], v['bins'][2])
    eq('idx_bin', c['idx_bin'], v['bins'][3])
    eq('progbar', str(c['progbar']), v['prog'])
    if v['box'][0]:
        eq('boxsize', [float(x) for x in c['boxsize']], [float(x) for x in v['box']])
        eqn('volume', c['volume'], math.prod(v['box']))
    else:
        eq('volume', c['volume'], 0)
    eq('nmesh', c['nmesh'], math.prod(v['grid']))
    if v['grid'][0]:
        eq('ngrid', c['ngrid'], v['grid'])
    eq('data_catalogue_file', c['data_catalogue_file'], '::'.join(v['dfiles']))
    eq('rand_catalogue_file', c['rand_catalogue_file'], '::'.join(v['rfiles']))
    if save:
        eq('save_binned_vectors', c['save_binned_vectors'], v['save'])
    return bad


def item_diff(v, it):
    bad = []
    for k, x in dict(assignment_order=v['order'], npoint=v['npoint'], space=v['space'], fftw_planner_flag=FLAG[v['flag']], interlace=v['inter'] == 'true',
                     use_fftw_wisdom=v['wis'] or False, num_bins=v['bins'][2], nmesh=math.prod(v['grid']),
                     progbar=dict(true=True, false=False).get(v['prog']) if v['prog'] in ('true', 'false') else float(v['prog'])).items():
        if it.get(k) != x:
            bad.append(f'item {k} = {it.get(k)!r} instead of {x!r}')
    for k, f in dict(fftw_wisdom_file_f='wisf', fftw_wisdom_file_b='wisb').items():
        if wisname(it.get(k) or '') != v[f]:
            bad.append(f'item {k} = {it.get(k)!r} instead of {v[f]!r}')
    if not near(it['volume'], math.prod(v['box'])):
        bad.append(f'item volume = {it["volume"]} instead of {math.prod(v["box"])}')
    if v['grid'][0] and [it['ngrid'][a] for a in 'xyz'] != v['grid']:
        bad.append(f'item ngrid = {it["ngrid"]} instead of {v["grid"]}')
    for k, f in dict(catalogue_type='cat', statistic_type='stat', form='form', norm_convention='norm', binning='binning', assignment='assign', alignment='align').items():
        if it.get(k) is not None and it[k].lower() != v[f]:
            bad.append(f'item {k} = {it[k]!r} instead of {v[f]!r}')
    return bad
