"""Runs the stand-alone program on parameter files in a directory of its own."""
import os, shutil, subprocess, sys, tempfile
from dlib import serve
from d_session import U, fl, tree, load, recorded
import d_session
import numpy as np

PROGRAM = os.path.join(os.environ['VERIF_TREE'], 'build', 'bin', 'triumvirate')


def table(c, cols, path, rows):
    with open(path, 'w') as f:
        f.write('# catalogue\n')
        for n in rows:
            f.write(' '.join(repr(float({'x': c['pos'][n][0], 'y': c['pos'][n][1], 'z': c['pos'][n][2]}[k] if k in 'xyz' else c[k][n] if k in c else n)) for k in cols) + '\n')


def catalogue(g, c, cols, name):
    """Write the files of a catalogue as its state says; the entry of the parameter file."""
    st = g['state']
    if st == 'unset':
        return ''
    if st == 'missing':
        return f'{name}.dat'
    if st == 'folder':
        os.makedirs(f'cats/{name}', exist_ok=True)
        return f'{name}/'
    if st == 'parts':
        k = c['n'] // 2
        table(c, cols, f'cats/{name}.1', range(k))
        table(c, cols, f'cats/{name}.2', range(k, c['n']))
        return f'{name}.1::{name}.2'
    if st == 'partmissing':
        table(c, cols, f'cats/{name}.1', range(3))
        return f'{name}.1::{name}.2'
    if st == 'narrow':
        table(c, cols[:2], f'cats/{name}.txt', range(c['n']))
        return f'{name}.txt'
    table(c, cols, f'cats/{name}.txt', range(c['n']))
    return f'{name}.txt'


def parameters(p, g, data, rand, style):
    rat = lambda q: repr(fl(q)) if q[1] else ''
    num = lambda x: '' if x == U else str(x)
    axes = lambda k, v: [(f'{k}_{a}', str(x) if x else '') for a, x in zip('xyz', v)]
    wa = g['wa'] or ['', '']
    bv = {'': 'false', 'true': 'true'}.get(g['bvec'], g['bvec'])
    cdir, mdir = 'cats' if style % 2 else 'cats/', p['dir'] + ('/' if p['dir'] and style % 3 == 0 else '')
    way = style // 3 % 5
    if way == 1:        # folders named by environment variables
        cdir, mdir = cdir.replace('cats', '${TRV_VERIF_CATS}'), '${TRV_VERIF_HERE}/' + mdir
    if way == 2:        # absolute paths of files, written with environment variables
        data, rand = ('::'.join('${TRV_VERIF_HERE}/${TRV_VERIF_CATS}/' + x for x in f.split('::')) if f else '' for f in (data, rand))
    if way in (2, 3) and bv not in ('false', 'true'):
        bv = os.path.join('${TRV_VERIF_HERE}', p['dir'], bv)
    if way == 3:        # ... and plainly
        data, rand = ('::'.join(os.path.abspath('cats') + '/' + x for x in f.split('::')) if f else '' for f in (data, rand))
    q = [('catalogue_dir', cdir), ('measurement_dir', mdir), ('data_catalogue_file', data), ('rand_catalogue_file', rand),
         ('catalogue_columns', ','.join(g['names'])), ('catalogue_dataset', ''), ('output_tag', p['tag']), *axes('boxsize', p['box']), *axes('ngrid', p['grid']), ('expand', rat(p['expand'])),
         ('cutoff_nyq', rat(p['cut'])), ('alignment', p['align']), ('padscale', p['padscale']), ('padfactor', rat(p['pad'])), ('assignment', p['assign']), ('interlace', ['false', 'true'][p['inter']]),
         ('catalogue_type', g['ctype']), ('statistic_type', p['stat']), *[(k, num(x)) for k, x in zip(('ell1', 'ell2', 'ELL'), p['ell'])], ('i_wa', str(wa[0])), ('j_wa', str(wa[1])), ('form', p['form']),
         ('norm_convention', p['norm']), ('binning', p['binning']), ('bin_min', repr(p['lo'] / 1000)), ('bin_max', repr(p['hi'] / 1000)), ('num_bins', num(p['nb'])), ('idx_bin', num(p['idx'])),
         ('fftw_scheme', 'estimate'), ('use_fftw_wisdom', 'false'), ('save_binned_vectors', bv), ('verbose', '60'), ('progbar', 'false')]
    if style % 5 == 0:
        q.reverse()
    return '# parameters\n' + ''.join(f'{k} = {v}\n' for k, v in q)


def vectors(f):
    """A file of binned vectors, in an order that does not depend on threads."""
    rows = sorted(tuple(map(float, l.split())) for l in open(f) if l.strip() and not l.startswith('#'))
    return dict(kind='vectors', rows=[list(r) for r in rows], header=[l[2:].rstrip('\n') for l in open(f) if l.startswith('#')])


def session(s):
    for d in ['cats'] + s['dirs']:
        os.makedirs(d)
    for d in s['blocked']:
        open(d, 'w').close()
    for n, g in enumerate(s['progs']):
        p = s['psets'][g['set'] - 1]
        cat = lambda k, nm: catalogue(g[k], s['cats'][g[k]['cat'] - 1] if g[k]['cat'] else None, g['names'], f'{nm}{n}')
        with open(f'run{n + 1}.ini', 'w') as f:
            f.write(parameters(p, g, cat('data', 'data'), cat('rand', 'rand'), g['style']))
    out, disk = [], tree()
    for k in s['script']:
        c = s['ops'][k - 1]
        env = dict(os.environ, OMP_NUM_THREADS=str(c['threads']), TRV_VERIF_CATS='cats', TRV_VERIF_HERE=os.getcwd())
        if c['tag'] != '-':
            env['TRV_OVERRIDE_OUTPUT_TAG'] = c['tag']
        used = lambda: os.path.join(*s['used'][c['prog'] - 1]) if c['args'] == 'used' else ''
        args = dict(none=[], missing=['nowhere.ini'], help=['--help'], version=['-V'], unknown=[f'run{c["prog"]}.ini', '--fast']).get(c['args']) if c['args'] not in ('file', 'used') \
            else [f'run{c["prog"]}.ini'] if c['args'] == 'file' else ['replay.ini']
        if c['args'] == 'used':       # from a copy, as the file itself is rewritten
            if os.path.exists(used()):
                shutil.copy(used(), 'replay.ini')
            elif os.path.exists('replay.ini'):
                os.remove('replay.ini')
        disk = tree()
        try:
            x = subprocess.run([PROGRAM] + args, env=env, capture_output=True, timeout=120)
            r = dict(rc=x.returncode, tail=(x.stdout + x.stderr)[-300:].decode(errors='replace'))
        except subprocess.TimeoutExpired:
            r = dict(rc='timeout', tail='')
        now = tree()
        r['gone'] = [f for f in disk if f not in now]
        r['files'] = [f for f in now if disk.get(f) != now[f]]
        r['loads'] = {}
        for f in s['watch'][len(out)]:       # files the run makes, though perhaps with the contents they had
            try:
                r['loads'][f['file']] = dict(kind='used') if f['kind'] == 'used' else vectors(f['file']) if f['kind'] == 'vectors' else load(f['file'])
            except Exception as e:
                r['loads'][f['file']] = dict(kind='unreadable', err=repr(e)[:200])
        out.append(r)
    return dict(steps=out)


d_session.session = session
if __name__ == '__main__':
    def run(s):
        ref = s.get('req')
        if ref and 'cols' in ref:
            s = dict(s, cats=[dict(c, **{k: c[k] if k in ref['cols'] else [] for k in ('nz', 'ws', 'wc')}) for c in s['cats']])
        return d_session.run(s)
    serve(run)
