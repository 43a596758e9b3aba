"""texts shared by the rules."""
VALUE = 'dataflow value summaries compared with a reference model of each function'
VALUE_NOTE = ('Each function is summarised from its source: result, attribute and argument writes, raise conditions as '
              'terms over its inputs; the summary must equal that of the reference. Trusted: the readers of Python and '
              'C++ and the models of numpy, pybind11 and OpenMP operations (a parallel loop means the sequential one; '
              'race freedom is P09); real arithmetic instead of floating point. Nested loops in different shapes are '
              'compared on small index spaces.')
MULTI = dict(xp='n_bins', inp_centers=2, inp_cutleft=2, inpt_cutright=('n_bins', ('n_bins', 2)))
