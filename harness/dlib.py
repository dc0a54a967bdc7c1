"""Driver main loop: one JSON scenario per line in, one JSON result per line out."""
import json, os, sys, traceback, warnings
warnings.simplefilter('ignore')


def check_tree():
    import triumvirate
    tree = os.environ.get('VERIF_TREE')
    if tree and not os.path.realpath(triumvirate.__file__).startswith(os.path.realpath(tree)):
        raise RuntimeError(f'wrong triumvirate: {triumvirate.__file__}')


def serve(fn):
    check_tree()
    with open(sys.argv[1]) as fi, open(sys.argv[2], 'w') as fo:
        for line in fi:
            s = json.loads(line)
            try:
                r = fn(s)
            except Exception as e:
                # an exception from within the library is an answer of the library
                lib = any('triumvirate/' in f.filename for f in traceback.extract_tb(e.__traceback__))
                r = dict(crash=f'{type(e).__name__}: {e}'[:300], tail=traceback.format_exc()[-600:]) if lib else dict(driver_error=traceback.format_exc()[-1500:], scen=str(s)[:300])
            fo.write(json.dumps(r) + '\n')
            fo.flush()
