"""Accept sets of the validation functions."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 25


def run(ctx):
    m='assertions.assert_'
    for a,b in [('greater','greater'),('less','less'),('equal','equal'),('not_equal','not_equal'),('less_or_equal','less_or_equal'),('greater_or_equal','greater_or_equal'),('inrange','in_range'),
      ('var_not_none','not_none'),('only_valid_particles','valid_particles'),('array_in_range','all_in_range'),('array_greater','all_greater'),('array_greater_eq','all_greater_eq'),('array_less','all_less'),('array_less_eq','all_less_eq'),('array_not_equal','some_differs'),
      ('machine_input','machine_input'),('frame_inputs','frame_input'),('index_ok','index_ok')]:
        ctx.model(m+a,'validate.'+b)
