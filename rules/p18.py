"""Per-turn machine values and physics relations."""
from notes import VALUE as TECHNIQUE, VALUE_NOTE as NOTE
MIN_OBLIGATIONS = 12


def run(ctx):
    m='utils.physics.'
    for a,b in [('b_to_e','total_energy'),('lorentz_beta','lorentz_beta'),('rfvolt_rf1','energy_gain_rf1'),('rf_voltage','energy_gain'),
      ('rfvolt_rf1_mch','energy_gain_rf1_lin'),('rfvolt_rf1_pmch','energy_gain_rf1_prog'),('rf_voltage_mch','energy_gain_lin'),('rf_voltage_pmch','energy_gain_prog'),
      ('vrft','peak_voltage'),('find_phi_lower_upper','phase_window'),('phase_slip_factor','slip'),('find_dphase','drift'),('revolution_freq','omega_rev'),
      ('calc_self_field_coeffs','self_field'),('phase_low','potential')]:
        ctx.model(m+a,'physics.'+b)
    ctx.model('tracking.machine.Machine.values_at_turns','physics.values_at_turns',known='physics.values_at_turns_known',opaque=['assertions.assert_machine_input'],
       aspects=('attrs','raises'),vocab=('ext:scipy.optimize.newton',))
