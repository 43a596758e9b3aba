"""Every input-file entry reaches the parameter it stands for."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 30
M = 'utils.tomo_input.'


def run(ctx):
    ctx.model(M + 'txt_input_to_machine', 'data.machine_from_text', opaque=['tracking.machine.Machine.values_at_turns'],
              aspects=('ret', 'raises', 'defaults'))
    ctx.model(M + '_split_input', 'data.split_text', aspects=('ret', 'raises', 'defaults'))
