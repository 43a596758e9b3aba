"""Raw data becomes profiles."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 10
M = 'utils.tomo_input.'


def run(ctx):
    f = M + 'Frames.'
    for a, b in [('raw_data=', 'set_raw'), ('raw_data', 'get_raw'), ('nprofs', 'n_profiles'), ('nbins', 'n_bins'),
                 ('to_waterfall', 'shaped'), ('__init__', 'new_frames')]:
        ctx.model(f + a, 'data.' + b)
    ctx.model('data.pre_process.rebin', 'data.merge_bins', aspects=('ret', 'params', 'defaults'))
    ctx.model('compat.fortran.calc_baseline', 'data.baseline')
    ctx.model(M + 'raw_data_to_profiles', 'data.profiles')
