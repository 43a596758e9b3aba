"""Profiles hold the measured charge."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 5
M = 'data.profiles.Profiles.'


def run(ctx):
    for a, b in [('waterfall=', 'set_waterfall'), ('__init__', 'new_profiles'), ('calc_profilecharge', 'charge')]:
        ctx.model(M + a, 'data.' + b)
