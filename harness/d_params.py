"""Histories of Python parameter sets."""
import copy, json, os, sys
sys.path.insert(0, os.environ['VERIF_PEEK'])
from dlib import serve
import trvpeek
from triumvirate.parameters import ParameterSet, InvalidParameterError, NonParameterError


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    return float(x) if hasattr(x, '__float__') else str(x)


def look(ps):
    return dict(items=plain(dict(ps.items())), cpp=json.loads(trvpeek.peek(ps)))


def run(s):
    log, ps = [], None
    d = s['start']
    before = copy.deepcopy(d)
    try:
        if s.get('file'):
            import yaml
            with open('p.yml', 'w') as f:
                yaml.safe_dump(d, f)
            ps = ParameterSet(param_filepath='p.yml')
        else:
            ps = ParameterSet(param_dict=d)
        log.append(dict(ok=True, same=d == before, **look(ps)))
    except Exception as e:
        return dict(log=[dict(ok=False, same=d == before, err=f'{type(e).__name__}: {e}', kind=isinstance(e, (ValueError, RuntimeError)))])
    for op in s['ops']:
        how, ch = op['how'], op['set']
        was = plain(dict(ps.items()))
        try:
            if how == 'item':
                for k, v in ch.items():
                    ps[k] = v
            elif how == 'attr':
                for k, v in ch.items():
                    setattr(ps, k, v)
            elif how == 'kw':
                ps.update(**ch)
            else:
                ps.update(ch)
            log.append(dict(ok=True, same=True, **look(ps)))
        except Exception as e:
            log.append(dict(ok=False, same=was == plain(dict(ps.items())), err=f'{type(e).__name__}: {e}', kind=isinstance(e, (ValueError, RuntimeError)), **look(ps)))
    out = dict(log=log)
    if s.get('save'):
        try:
            ps.save('q.yml')
            p2 = ParameterSet(param_filepath='q.yml')
            out['again'] = look(p2)
        except Exception as e:
            out['again'] = dict(err=f'{type(e).__name__}: {e}')
        for k in ('foo', 'nmesh_'):
            try:
                ps[k]
                out['ghost'] = k
            except NonParameterError:
                pass
    return out


serve(run)
