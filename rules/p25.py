"""Images of the reconstructed phase space."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 8


def run(ctx):
    D = 'data.data_treatment.'
    for r in ('double', 'float'):
        ctx.binding('make_phase_space', 'bind.make_phase_space', r, aspects=('ret', 'params', 'raises'))
    ctx.model('utils.tomo_output.create_phase_space_image', 'images.picture')
    ctx.model(D + 'phase_space_from_coordinates', 'images.axes')
    ctx.model(D + 'phase_space', 'images.phase_space')
    ctx.model(D + 'density_to_macro', 'images.macro')
