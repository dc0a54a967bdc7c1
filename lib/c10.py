"""C10: two-point Fourier statistics against the direct mode sums of TwoPt.tla."""
import stats2


def run(ctx):
    ctx.build(ext=True)
    stats2.check(ctx, 'fourier', ctx.pick(150, 1500))
