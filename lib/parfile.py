"""Parameter files of the C++ program for settings of Params.tla."""
from parset import U, rat

KEY = dict(cat='catalogue_type', stat='statistic_type', norm='norm_convention', assign='assignment', inter='interlace', scheme='fftw_scheme', align='alignment',
           cut='cutoff_nyq', pad='padfactor', nb='num_bins', idx='idx_bin', verb='verbose', bx='boxsize_x', by='boxsize_y', bz='boxsize_z', gx='ngrid_x', gy='ngrid_y', gz='ngrid_z',
           l1='ell1', l2='ell2', l3='ELL', wi='i_wa', wj='j_wa', bmin='bin_min', bmax='bin_max', cdir='catalogue_dir', mdir='measurement_dir', tag='output_tag',
           dfile='data_catalogue_file', rfile='rand_catalogue_file', wis='use_fftw_wisdom', prog='progbar', save='save_binned_vectors')


def value(s, f):
    """Text of a setting, or None when unset."""
    v = s[f]
    if f in ('expand', 'cut', 'pad'):
        return None if v[1] == 0 else repr(rat(v))
    if f in ('bmin', 'bmax'):
        return None if v == U else repr(v/1000)
    if f in ('dfile', 'rfile'):
        return '::'.join(x['name'] for x in v) or None
    if f == 'save':
        return dict(off='false', on='true').get(v['mode'], v['name'])
    if f[0] in 'bg' and len(f) == 2 and f != 'nb':
        return str(v) if v else None
    if f in ('idx', 'l1', 'l2', 'l3', 'wi', 'wj'):
        return None if v == U else str(v)
    if f == 'nb':
        return str(v) if v else None
    if f == 'wis':
        return v or 'false'
    return str(v) if v != '' else None


def pairs(s):
    return [(KEY.get(f, f), value(s, f)) for f in s]


def plain(s):
    return ''.join(f'{k} = {v if v is not None else ""}\n' for k, v in pairs(s))
