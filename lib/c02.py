"""C02: histories of the compiled catalogue (CatalogueCpp.tla) replayed
through the public C++ class."""
from common import tla
from c01 import pools, U


def defs(rng, npool):
    pool = pools(rng, npool)
    # include positions on box faces and exact multiples of the box sizes
    for p in pool[:2]:
        p['cat'][0]['pos'] = [-16 * U, 8 * U, 0]
        p['ref'][-1]['pos'] = [16 * U, -8 * U, -32 * U]
    st = lambda xs: '{' + ', '.join(tla(x) for x in xs) + '}'
    f = [[1, 8], [0, 1], [2, 1], [-1, 4]]
    return (f'CPool == {st(pool)}\nCBoxes == {st([[8*U]*3, [16*U, 8*U, 32*U]])}\n'
            f'COrigins == {st([[3*U, -5*U, 0], [-U, 2*U, 7*U]])}\n'
            f'CPads3 == {st([[f[0], f[1], f[3]], [f[2], f[3], f[0]], [f[0]]*3])}\n'
            f'CGrids3 == {st([[4, 8, 2], [8, 8, 8]])}\n'
            f'CWeights == {st([[rng.randrange(1, 6) for _ in range(3)] for _ in range(2)])}\n'
            'CNone == {}\n')


CONS = ('CONSTANTS Pool <- CPool\nBoxes <- CBoxes\nOrigins <- COrigins\nPads <- CNone\n'
        'Grids <- CNone\nCols <- CNone\nVolumes <- CNone\nPads3 <- CPads3\nGrids3 <- CGrids3\nWeights <- CWeights\n')
INV = 'INVARIANT SummariesCurrent\nINVARIANT CPlaced\n'


def compare(h, st, u):
    for who in ('cat', 'ref'):
        w, g = h[who], st[who]
        sm = h['sum'][who]
        if g['ntotal'] != len(w):
            return f'{who}.ntotal: {g["ntotal"]} expected {len(w)}'
        for i, p in enumerate(w):
            want = [x / u for x in p['pos']]
            if g['p'][i][:3] != want:
                return f'{who}.position: {g["p"][i][:3]} expected {want}'
            if g['p'][i][3:] != [p['nz'][0] / p['nz'][1], p['ws'], p['wc'], p['ws'] * p['wc']]:
                return f'{who}.weights: {g["p"][i][3:]}'
        for k in ('lo', 'hi', 'span'):
            if g[k] != [x / u for x in sm[k]]:
                return f'{who}.{k}: {g[k]} expected {[x / u for x in sm[k]]}'
        for k in ('wtotal', 'wstotal'):
            if g[k] != sm[k]:
                return f'{who}.{k}: {g[k]} expected {sm[k]}'


def run(ctx):
    ctx.build(cpp=True)
    exe = ctx.compile_harness('h_particles.cpp')
    rng = ctx.rng
    d = defs(rng, 2) + f'LB == TLCGet("level") < {ctx.pick(4, 5)}\n'
    ctx.tlc('CatalogueCpp', 'SPECIFICATION DSpec\n' + CONS + 'Depth = 0\n' + INV +
            'PROPERTY CRigid\nPROPERTY CWrapCongruent\nPROPERTY CRejectionsKeep\nCONSTRAINT LB\nCHECK_DEADLOCK FALSE\n', defs=d)
    beh = []
    rounds, num, depth = ctx.pick((3, 40, 7), (10, 300, 9))
    for _ in range(rounds):
        r = ctx.tlc('CatalogueCpp', 'SPECIFICATION CSpec\n' + CONS + f'Depth = {depth}\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n' + INV,
                    defs=defs(rng, 6), simulate=num, depth=depth + 1, workers=1)
        beh += rng.sample(r['json'], min(len(r['json']), ctx.pick(1000, 8000)))
    r = ctx.tlc('CatalogueCpp', 'SPECIFICATION CSpec\n' + CONS + 'Depth = 2\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTRAINT BC\n',
                defs=defs(rng, 1) + 'BC == Len(hist) < 3\n', workers=4)
    beh += r['json']
    ctx.log(len(beh), 'behaviours')
    res = ctx.drive(exe, [dict(u=U, hist=b) for b in beh], procs=4)
    for b, o in zip(beh, res):
        ctx.traces += 1
        if 'crash' in o:
            ctx.violation('crash', str(o), b)
            continue
        for k, (h, st) in enumerate(zip(b, o['steps'])):
            op = h['ev']['op']
            ctx.act(op)
            bad = compare(h, st, U)
            if op == 'load_bad' and not st['err']:
                bad = f'accepted: inconsistent arrays (case {h["ev"]["which"]}) were loaded'
            if op != 'load_bad' and st['err']:
                bad = 'raised: ' + st['err']
            if bad:
                ops = ' -> '.join(s['ev']['op'] for s in b[:k + 1])
                ctx.violation(f'{op}:{bad.split(":")[0]}', f'after {ops}: {bad}', b[:k + 1])
                break
    ctx.sample([s['ev'] for s in beh[0]])
    ctx.sample([s['ev'] for s in beh[-1]])
