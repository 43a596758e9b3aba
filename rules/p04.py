"""Self-field voltages."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 8
M = 'data.profiles.Profiles.'
T = 'tracking.tracking.Tracking.'


def run(ctx):
    ctx.model(M + 'calc_self_fields', 'data.self_fields')
    ctx.model(T + 'enable_self_fields', 'tracks.self_fields_on')
    ctx.model(T + '_calc_xp_sf', 'tracks.folded_bin', via=[(T + 'kick_and_drift_self', 'tracks.with_self_fields')])
    ctx.model(T + 'kick_and_drift_self', 'tracks.with_self_fields')
