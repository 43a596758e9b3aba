"""One turn of tracking: kick and drift, every implementation."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 10


def run(ctx):
    for f in ('kick', 'drift', 'kick_up', 'kick_down', 'drift_up', 'drift_down'):
        ctx.binding(f, 'bind.' + f, aspects=('ret', 'params', 'raises'))
    for r in ('double', 'float'):
        ctx.binding('kick_and_drift', 'bind.track_array', r, 'array', aspects=('ret', 'params', 'raises'))
