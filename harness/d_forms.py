"""Measures one three-point statistic in several output forms."""
from dlib import serve
import d_stats


def run(s):
    out = []
    for req in s['reqs']:
        d = dict(s, degrees=req['degrees'], extra=dict(form=req['form'], idx_bin=req['idx']), mode=req['mode'])
        try:
            out.append(dict(res=d_stats.jsonable(d_stats.measure(d))))
        except Exception as e:
            out.append(dict(err=repr(e)))
    return dict(out=out)


if __name__ == '__main__':
    serve(run)
