"""Sessions of the logger of the package, and what measurements write to the terminal."""
import hashlib, io, json, logging, os, re, sys, tempfile, warnings
from dlib import serve
import numpy as np
from triumvirate.logger import setup_logger
from d_stats import cat, los, paramset, sampling
from triumvirate import threept
from triumvirate.dataobjs import Binning

NAMES = {10: 'debug', 15: 'stat', 20: 'info', 30: 'warning', 40: 'error', 50: 'critical'}


def session(s):
    os.environ.pop('TERM', None)
    os.environ.pop('TRV_INTERACTIVE', None)
    old = sys.stdout, warnings.formatwarning, warnings.showwarning, dict(os.environ)
    root = logging.getLogger()
    lg, log, out = None, [], io.StringIO()     # one stream for all loggers of the session
    try:
        for o in s['ops']:
            sys.stdout = out
            at = out.tell()
            if o['op'] == 'level':
                lg = setup_logger(o['at']) if o['given'] else setup_logger()
                log.append(dict(raw=out.getvalue()[at:]))
                continue
            if o['op'] == 'env':
                for k, v in (('TERM', o['term']), ('TRV_INTERACTIVE', o['inter'])):
                    os.environ.pop(k, None)
                    if v:
                        os.environ[k] = v
            elif o['op'] == 'pysay':
                kw = {} if o['cpp'] == 'unset' else dict(cpp_state=dict(off=False, start=o['spell'], end=o['spell'])[o['cpp']] if o['cpp'] != 'in' else True)
                if o['args']:
                    getattr(lg, NAMES[o['at']])(o['head'] + '%s', o['tail'], **kw)
                else:
                    getattr(lg, NAMES[o['at']])(o['head'] + o['tail'], **kw)
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter('always')
                    warnings.showwarning = logging._showwarning
                    warnings.warn_explicit(o['said'], getattr(__builtins__, o['category']) if not isinstance(__builtins__, dict) else __builtins__[o['category']], o['file'], o['line'])
            log.append(dict(raw=out.getvalue()[at:]))
    finally:
        sys.stdout = old[0]
        logging.captureWarnings(False)
        warnings.formatwarning, warnings.showwarning = old[1], old[2]
        os.environ.clear()
        os.environ.update(old[3])
        root.handlers.clear()
        root.setLevel(30)
    return dict(log=log)


def one(s, progbar):
    fn = getattr(threept, s['fn'])
    b = Binning(s['space'], 'custom')
    b.set_custom_bins(np.array(s['e']))
    args = [cat(s['cat'])] if 'cat' in s else []
    if 'ran' in s:
        args.append(cat(s['ran']))
    kw = {}
    if 'sim' not in s['ctype']:
        kw = dict(los_data=los(s['cat']), los_rand=los(s['ran'])) if s['ctype'] == 'survey' else dict(los_rand=los(s['ran']))
    p = paramset(s, progbar=progbar, verbose=s['verbose'])
    tmp = tempfile.TemporaryFile()
    sys.stdout.flush()
    keep = os.dup(1)
    os.dup2(tmp.fileno(), 1)
    try:
        r = fn(*args, binning=b, paramset=p, **kw)
    finally:
        flush()
        os.dup2(keep, 1)
        os.close(keep)
    tmp.seek(0)
    raw = tmp.read().decode()
    tmp.close()
    h = hashlib.sha256()
    for k in sorted(r):
        v = np.asarray(r[k])
        h.update(k.encode() + (v + 0).tobytes() if v.dtype.kind not in 'US' else str(v).encode())
    return raw, h.hexdigest()


def flush():
    import ctypes
    sys.stdout.flush()
    ctypes.CDLL(None).fflush(None)


def measured(s):
    warnings.simplefilter('ignore')
    _, plain = one(s, False)
    raw, bars = one(s, s['bar'])
    _, again = one(s, False)
    return dict(raw=raw, digest=bars, plain=plain, again=again)


serve(lambda s: session(s) if 'ops' in s else measured(s))
