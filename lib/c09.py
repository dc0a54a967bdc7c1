"""C09: requests of ModeBins.tla put to the compiled mesh statistics and the Python fieldmesh."""
import math
from geom import *

N0 = {'config': 8., 'fourier': None}


def edges(rng, maxsq, ties, fine):
    """Ascending rational edges (in length units): integers (exact ties) or values off the lattice lengths."""
    top = math.isqrt(maxsq) + 2
    while True:
        k = rng.randint(1, 5)
        if ties:
            e = sorted(rng.sample(range(0, top + 3), min(k + 1, top + 3)))
            return [[x, 1] for x in e]
        e = sorted(rng.sample(range(0, 8*(top + 2)), k + 1))
        ok = all(abs(x/8 - math.sqrt(q)) > fine for x in e if x for q in range(maxsq + 1))
        if ok:
            return [[x//math.gcd(x, 8), 8//math.gcd(x, 8)] for x in e]


def run(ctx):
    ctx.build(ext=True, cpp=True)
    exe = ctx.compile_harness('h_field.cpp')
    rng = ctx.rng
    scen = []
    for j in range(ctx.pick(110, 700)):
        small = j % 5 == 0
        n = rng.choice([[2, 2, 2], [3, 2, 1], [1, 1, 4], [2, 3, 1], [1, 5, 1]]) if small else \
            [rng.choice([1, 2, 3, 4, 5, 6]) for _ in range(3)] if j % 2 else [rng.choice([3, 4, 5, 6, 7])]*3
        c = rng.choice([[1, 1, 1], [1, 2, 1], [2, 1, 3], [1, 1, 2], [3, 4, 2]])
        maxsq = sum(((m//2)*x)**2 for m, x in zip(n, c))
        req = []
        for _ in range(1 if small else rng.choice([1, 2, 3])):
            kind = rng.choice(['vec', 'vec', 'stat'])
            space = rng.choice(['config', 'fourier'])
            ties = kind == 'vec' and space == 'config' and rng.random() < .6
            req.append(dict(kind=kind, space=space, e=edges(rng, maxsq, ties, .035 if kind == 'stat' else 1e-6)))
        scen.append(dict(n=n, c=c, any=small and max(len(x['e']) for x in req) < 5, req=req))
    exp = ctx.oracle('ModeBins', scen, cfgx='INVARIANT Emit\nINVARIANT Once\nINVARIANT Total\nINVARIANT Parity\nINVARIANT Pure\n')
    prog, pys = [], []
    for j, s in enumerate(scen):
        # config lengths: unit u, box c*n*u; Fourier: dk = 2 pi/L with L = lcm/c
        u = [4., 16., 8.][j % 3]
        Lc = [m*x*u for m, x in zip(s['n'], s['c'])]
        Lk = [[100., 1000., 60.][j % 3]/x for x in s['c']]
        uk = 2*math.pi/[100., 1000., 60.][j % 3]
        s['u'] = dict(config=u, fourier=uk)
        s['L'] = dict(config=Lc, fourier=Lk)
        for sp in ('config', 'fourier'):
            st = []
            for q in s['req']:
                if q['space'] != sp:
                    continue
                e = [a/b*s['u'][sp] for a, b in q['e']]
                if q['kind'] == 'vec':
                    st.append(['binvec', sp, e, 'vec.txt'] if j % 2 else ['binvec', sp, e])
                elif sp == 'fourier':
                    st += [['p2k', 'f', 'g', 0, 0, [0., 0.], e]]
                else:
                    st += [['p2r', 'f', 'g', 0, 0, [0., 0.], e]]
                    assert e[-1] < 1e5
            plan = {} if j % 3 else dict(noplan=True)
            prog.append(dict(j=j, **plan, sp=sp, par=dict(boxsize=s['L'][sp], ngrid=s['n'], assignment='ngp', npoint='2pt',
                                                 statistic_type='powspec' if sp == 'fourier' else '2pcf'),
                             shared=True, prog=st))
            vec = [[a/b*s['u'][sp] for a, b in q['e']] for q in s['req'] if q['space'] == sp and q['kind'] == 'vec']
            if vec:
                pys.append(dict(j=j, sp=sp, L=s['L'][sp], n=s['n'], e=vec, mode=len(pys) % 4))
    res = ctx.drive(exe, prog, procs=4)
    pres = ctx.drive('d_modebins.py', pys, procs=4)

    def bins_of(s, o, sp, kind=None):
        return [(q, out) for q, out in zip(s['req'], o['out']) if q['space'] == sp and (kind is None or q['kind'] == kind)]

    def judge(lang, s, q, want, sp, g):
        u = s['u'][sp]
        e = [a/b*u for a, b in q['e']]
        d = [x*u for x in s['c']]
        if q['kind'] == 'vec':
            tot = sum(len(b) for b in want)
            if g['count'] != tot or g['nbins'] != len(want):
                return f'count {g["count"]} in {g["nbins"]} bins expected {tot} in {len(want)}'
            if g['idx'] != sorted(g['idx']):
                return f'order: bin indices not sorted {g["idx"][:12]}'
            for jb, b in enumerate(want):
                mine = sorted((round(x/d[0]), round(y/d[1]), round(z/d[2])) for k, x, y, z in zip(g['idx'], g['vx'], g['vy'], g['vz']) if k == jb)
                if mine != sorted(tuple(v) for v in b):
                    return f'vectors of bin {jb} are {mine[:8]}.. expected {sorted(b)[:8]}..'
            for k, x, y, z, lo, hi in zip(*(g[a] for a in ('idx', 'vx', 'vy', 'vz', 'lo', 'hi'))):
                if not (abs(lo - e[k]) <= 1e-12*abs(e[k]) and abs(hi - e[k + 1]) <= 1e-12*abs(e[k + 1])):
                    return f'bounds of bin {k}: {lo}, {hi}'
                for v, dd in zip((x, y, z), d):
                    if abs(v/dd - round(v/dd)) > 1e-9:
                        return f'vector ({x}, {y}, {z}) is not a mesh vector'
            if g.get('file') is not None:
                rows = [l.split() for l in g['file'].splitlines() if l and not l.startswith('#')]
                if len(rows) != tot:
                    return f'file: {len(rows)} rows for {tot} vectors'
                for row, *w in zip(rows, g['idx'], g['lo'], g['hi'], g['vx'], g['vy'], g['vz']):
                    if int(row[0]) != w[0] or any(abs(float(a) - b) > 1e-8*max(abs(b), 1e-3*u) for a, b in zip(row[1:], w[1:])):
                        return f'file: row {row} for vector {w}'
        else:
            if g.get('apart', 0) > 1e-9:
                return f'values differ by {g["apart"]} according to whose transform is used'
            for jb, b in enumerate(want):
                if g['n'][jb] != len(b):
                    return f'bin {jb} counts {g["n"][jb]} vectors expected {len(b)}'
                m = sum(math.sqrt(sum((x*y)**2 for x, y in zip(v, s['c']))) for v in b)/len(b)*u if b else (e[jb] + e[jb + 1])/2
                if abs(g['x'][jb] - m) > 1e-9*max(m, u):
                    return f'bin {jb} mean coordinate {g["x"][jb]} expected {m}'
                if not b and (abs(g['v'][2*jb]) > 0 or abs(g['v'][2*jb + 1]) > 0):
                    return f'empty bin {jb} has value {g["v"][2*jb:2*jb+2]}'
        return None

    for p, o in zip(prog, res):
        s = scen[p['j']]
        ctx.traces += 1
        if 'out' not in o:
            ctx.violation('crash', f'{o}', p)
            continue
        for (q, want), g in zip(bins_of(s, exp[p['j']], p['sp']), o['out']):
            ctx.act(f'{q["kind"]}:{p["sp"]}')
            bad = judge('cpp', s, q, want, p['sp'], g)
            if bad:
                ctx.violation(f'{q["kind"]}:{p["sp"]}:{bad.split(" ")[0]}', f'mesh {s["n"]} cells {s["c"]} {p["sp"]} edges {q["e"]}: {bad}', [s, q, p])
    for p, o in zip(pys, pres):
        s = scen[p['j']]
        ctx.traces += 1
        if 'out' not in o:
            ctx.violation('py:crash', f'{o}', p)
            continue
        for (q, want), g in zip(bins_of(s, exp[p['j']], p['sp'], 'vec'), o['out']):
            ctx.act(f'py:{p["sp"]}')
            if 'err' in g:
                ctx.violation('py:error', f'record_binned_vectors raised {g["err"]} for {len(want)} bins mode {p["mode"]}', p)
                continue
            bad = judge('py', s, q, want, p['sp'], g)
            if bad:
                ctx.violation(f'py:{p["sp"]}:{bad.split(" ")[0]}', f'record_binned_vectors mesh {s["n"]} cells {s["c"]} {p["sp"]} edges {q["e"]}: {bad}', [s, q, p])
    ctx.sample(dict(scenario=scen[1], outcome=exp[1]['out'][0][:2]))
    ctx.extra['requests'] = sum(len(s['req']) for s in scen)
