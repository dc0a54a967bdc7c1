"""C11: two-point configuration-space statistics against the direct pair sums of TwoPt.tla."""
import stats2


def run(ctx):
    ctx.build(ext=True)
    stats2.check(ctx, 'config', ctx.pick(120, 1000))
