"""C06: histories of Binning.tla replayed on the Python and the compiled binning."""
import math
from common import tla, close


def aff(a):
    return a[0][0]/a[0][1] + math.pi*a[1][0]/a[1][1]


def edge(e):
    if e['k'] == 'lin':
        return aff(e['x'])
    a, b = aff(e['a']), aff(e['b'])
    return a*(b/a)**(e['i']/e['n'])


def defs(rng, exhaustive=False):
    rat = lambda n, d: [n//math.gcd(n, d), d//math.gcd(n, d)]
    st = lambda xs: '{' + ', '.join(tla(x) for x in xs) + '}'
    R = []
    for _ in range(3 if exhaustive else 5):
        lo = rng.choice([rat(0, 1), rat(1, 100), rat(1, 20), rat(1, 200), rat(5, 1)])
        hi = rng.choice([rat(1, 10), rat(3, 10), rat(1, 1), rat(60, 1), rat(200, 1)])
        R.append([lo, hi])
    R += [[rat(-1, 10), rat(1, 1)], [rat(1, 2), rat(1, 10)], [rat(1, 10), rat(1, 10)], [rat(0, 1), rat(1, 250)], [rat(0, 1), rat(40, 1)]]
    if exhaustive:
        R = R[:2] + R[-4:]
    C = [0, 1, rng.choice([2, 3, 4]), 5, 6, rng.choice([7, 8, 10, 13]), 7]
    grids = [[rng.choice([100, 64, 1000]), rng.choice([2, 3, 4, 5, 8, 16])] for _ in range(3)]
    cust = []
    for _ in range(2):
        e = sorted(rng.sample(range(0, 40), rng.randint(2, 6)))
        cust.append([rat(x, 8) for x in e])
    mesh = [[rng.choice([1000, 640, 8]), rng.choice([8, 16, 4])] for _ in range(2)]
    return (f'CRanges == {st(R)}\nCCounts == {st(sorted(set(C)))}\nCGrids == {st(grids)}\nCCust == {st(cust)}\nCMesh == {st(mesh)}\n')


CONS = ('CONSTANTS Ranges <- CRanges\nCounts <- CCounts\nGrids <- CGrids\nCustoms <- CCust\nMeshes <- CMesh\n'
        'Spaces = {"fourier", "config", "nowhere"}\nSchemes = {"lin", "log", "linpad", "logpad", "custom", "cubic"}\n')
INV = 'INVARIANT Partition\nINVARIANT FirstEdge\nINVARIANT EqualWidths\n'


def compare(ctx, lang, b, o):
    for k, (h, g) in enumerate(zip(b[1:], o['out'])):
        ev = h['ev']
        ctx.act(f'{lang}:{ev["op"]}' + ('' if ev['ok'] else ':rejected'))
        bad = None
        if ev['ok'] and g['err'] is not None:
            bad = f'rejected: valid request raised {g["err"]}'
        elif not ev['ok'] and g['err'] is None:
            bad = f'accepted: out-of-domain request accepted with edges {g["b"]["e"][:8]}'
        elif h['bins']['set']:
            B = h['bins']
            e = [edge(x) for x in B['e']]
            G = g['b']
            tol = 1e-11*max(e)
            if G['n'] != B['n'] or len(G['e']) != len(e):
                bad = f'count: {G["n"]} bins with {len(G["e"])} edges, expected {B["n"]}'
            elif not close(G['e'], e, 1e-11, tol):
                bad = f'edges: {G["e"]} expected {e}'
            elif not close(G['c'], [(x + y)/2 for x, y in zip(e, e[1:])], 1e-11, tol):
                bad = f'centres: {G["c"]}'
            elif not close(G['w'], [y - x for x, y in zip(e, e[1:])], 1e-9, tol):
                bad = f'widths: {G["w"]}'
            elif not close([G['lo'], G['hi']], [aff(B['lo']), aff(B['hi'])], 1e-12, tol):
                bad = f'range: {[G["lo"], G["hi"]]}'
            elif (G['scheme'], G['space']) != (h['scheme'], h['space']):
                bad = f'settings: {(G["scheme"], G["space"])} expected {(h["scheme"], h["space"])}'
            elif any(x >= y for x, y in zip(G['e'], G['e'][1:])):
                bad = f'order: {G["e"]}'
        if bad:
            tr = [b[0]['space'], b[0]['scheme']] + [x['ev'] for x in b[1:k + 2]]
            ctx.violation(f'{lang}:{ev["op"]}:{h["scheme"]}:{bad.split(":")[0]}', f'{lang} binning after {tr}: {bad}', b[:k + 2])
            return


def run(ctx):
    ctx.build(ext=True, cpp=True)
    exe = ctx.compile_harness('h_binning.cpp')
    rng = ctx.rng
    for lang, drv in (('py', 'd_binning.py'), ('cpp', exe)):
        beh = []
        base = CONS + f'Lang = "{lang}"\nSim = %s\n'
        r = ctx.tlc('Binning', 'SPECIFICATION Spec\n' + base % 'FALSE' + 'Depth = 2\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n' + INV, defs=defs(rng, True))
        beh += r['json']
        if not ctx.quick:
            r = ctx.tlc('Binning', 'SPECIFICATION Spec\n' + base % 'FALSE' + 'Depth = 3\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n' + INV, defs=defs(rng, True))
            beh += rng.sample(r['json'], min(len(r['json']), 60000))
        for _ in range(ctx.pick(3, 20)):
            r = ctx.tlc('Binning', 'SPECIFICATION Spec\n' + base % 'TRUE' + 'Depth = 7\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n' + INV,
                        defs=defs(rng), simulate=ctx.pick(400, 3000), depth=8, workers=1)
            beh += rng.sample(r['json'], min(len(r['json']), ctx.pick(500, 3000)))
        ctx.log(lang, len(beh), 'behaviours')
        res = ctx.drive(drv, [dict(hist=b, ctor=i % 2) for i, b in enumerate(beh)], procs=4)
        for b, o in zip(beh, res):
            ctx.traces += 1
            if 'out' not in o:
                ctx.violation(f'{lang}:crash', str(o), b)
                continue
            compare(ctx, lang, b, o)
        ctx.sample([x['ev'] for x in beh[-1]])
