"""Reference formulas for the machine physics (written from the documentation of the tomography
algorithm, CERN-PS-99-... conventions: phases in rad, energies in eV, voltages in V)."""
import numpy as np
from scipy import constants, optimize
from longitudinal_tomography import assertions as asrt
from longitudinal_tomography.utils import physics
from collections.abc import Sequence
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.machine_base import MachineABC
from longitudinal_tomography.tracking.programs_machine import ProgramsMachine


def total_energy(machine: Machine):
    pc = machine.q * machine.b0 * machine.bending_rad * constants.c
    return np.sqrt(pc ** 2 + machine.e_rest ** 2)


def lorentz_beta(machine: MachineABC, rf_turn: int):
    gamma = machine.e0[rf_turn] / machine.e_rest
    return np.sqrt(1 - 1 / gamma ** 2)


def energy_gain_rf1(phi, v1, bdot, radius, bending_rad, charge):
    return v1 * np.sin(phi) - 2 * np.pi * radius * bending_rad * bdot * np.sign(charge)


def energy_gain(phi, v1, v2, bdot, h_ratio, phi12, radius, bending_rad, charge):
    needed = 2 * np.pi * radius * bending_rad * bdot * np.sign(charge)
    return v1 * np.sin(phi) + v2 * np.sin(h_ratio * (phi - phi12)) - needed


def energy_gain_rf1_lin(phi, machine: Machine, rf_turn: int):
    v = machine.vrf1 + machine.vrf1dot * machine.time_at_turn[rf_turn]
    return energy_gain_rf1(phi, v, machine.bdot, machine.mean_orbit_rad, machine.bending_rad, machine.q)


def energy_gain_rf1_prog(phi, machine: ProgramsMachine, rf_turn: int):
    return energy_gain_rf1(phi, machine.vrf1_at_turn[rf_turn], machine.bdot[rf_turn], machine.mean_orbit_rad,
                           machine.bending_rad, machine.q)


def energy_gain_lin(phi, machine: Machine, rf_turn: int):
    tm = machine.time_at_turn[rf_turn]
    return energy_gain(phi, machine.vrf1 + machine.vrf1dot * tm, machine.vrf2 + machine.vrf2dot * tm, machine.bdot,
                       machine.h_ratio, machine.phi12, machine.mean_orbit_rad, machine.bending_rad, machine.q)


def energy_gain_prog(phi, machine: ProgramsMachine, rf_turn: int):
    return energy_gain(phi, machine.vrf1_at_turn[rf_turn], machine.vrf2_at_turn[rf_turn], machine.bdot[rf_turn],
                       machine.h_ratio, machine.phi12[rf_turn], machine.mean_orbit_rad, machine.bending_rad,
                       machine.q)


def peak_voltage(vrf, vrf_dot, turn_time):
    return vrf_dot * turn_time + vrf


def phase_window(machine: MachineABC, rf_turn: int):
    below = machine.q * (machine.trans_gamma - machine.e0[rf_turn] / machine.e_rest)
    if below > 0:
        return -np.pi, np.pi
    return 0.0, 2 * np.pi


def slip(machine: MachineABC):
    return 1 - machine.beta0 ** 2 - 1 / machine.trans_gamma ** 2


def drift(machine: MachineABC):
    return 2 * np.pi * machine.h_num * machine.eta0 / (machine.e0 * machine.beta0 ** 2)


def omega_rev(machine: MachineABC):
    return constants.c * machine.beta0 / machine.mean_orbit_rad


def self_field(machine: MachineABC):
    out = np.zeros(machine.nprofiles)
    for p in range(machine.nprofiles):
        b = machine.beta0[p * machine.dturns]
        w = machine.omega_rev0[p * machine.dturns]
        sc = (1 / b - b) * machine.g_coupling * np.pi * 2.0e-7 * constants.c
        out[p] = constants.e / w * (sc - machine.zwall_over_n) / machine.dtbin ** 2
    return out


def potential(phase, bunch_phaselength, vrf1: np.ndarray, vrf2: np.ndarray, phi0: np.ndarray, h_ratio, phi12: float,
              rf_turn: int, ref_frame: int = 0):
    end = phase + bunch_phaselength
    a = vrf1[ref_frame] * (np.cos(end) - np.cos(phase))
    b = vrf2[ref_frame] / h_ratio * (np.cos(h_ratio * (end - phi12)) - np.cos(h_ratio * (phase - phi12)))
    s = phi0[rf_turn]
    v = vrf1[rf_turn] * np.sin(s) + vrf2[rf_turn] * np.sin(h_ratio * (s - phi12))
    return a + b + bunch_phaselength * v


# ------------------------------------------------------------------ per-turn arrays, linear machine
def _gain(m: Machine, phi, tm):
    """energy the two RF systems give a particle of phase phi at time tm (per unit charge)."""
    return (m.vrf1 + m.vrf1dot * tm) * np.sin(phi) + (m.vrf2 + m.vrf2dot * tm) * np.sin(m.h_ratio * (phi - m.phi12))


def _beta(m, e):
    return np.sqrt(1 - (m.e_rest / e) ** 2)


def values_at_turns(self: Machine):
    asrt.assert_machine_input(self)
    last = self.dturns * (self.nprofiles - 1)
    ref = self.dturns * self.machine_ref_frame
    self.time_at_turn = np.zeros(last + 1)
    self.phi0 = np.zeros(last + 1)
    self.e0 = np.zeros(last + 1)
    self.beta0 = np.zeros(last + 1)
    self.deltaE0 = np.zeros(last + 1)
    self.time_at_turn[ref] = 0
    self.e0[ref] = total_energy(self)
    self.beta0[ref] = lorentz_beta(self, ref)
    lo, hi = phase_window(self, ref)
    self.phi0[ref] = physics.find_synch_phase_mch(self, ref, lo, hi)
    length = 2 * np.pi * self.mean_orbit_rad
    for i in range(ref + 1, last + 1):
        self.time_at_turn[i] = self.time_at_turn[i - 1] + length / (self.beta0[i - 1] * constants.c)
        try:
            self.phi0[i] = optimize.newton(func=physics.rf_voltage_mch, x0=self.phi0[i - 1],
                                           fprime=physics.drf_voltage_mch, tol=0.0001, maxiter=100, args=(self, i))
        except RuntimeError:
            raise ValueError('no synchronous phase')
        self.e0[i] = self.e0[i - 1] + self.q * _gain(self, self.phi0[i], self.time_at_turn[i])
        self.beta0[i] = _beta(self, self.e0[i])
        self.deltaE0[i] = self.e0[i] - self.e0[i - 1]
    for i in range(ref - 1, -1, -1):
        self.e0[i] = self.e0[i + 1] - self.q * _gain(self, self.phi0[i + 1], self.time_at_turn[i + 1])
        self.beta0[i] = _beta(self, self.e0[i])
        self.deltaE0[i + 1] = self.e0[i + 1] - self.e0[i]
        self.time_at_turn[i] = self.time_at_turn[i + 1] - length / (self.beta0[i] * constants.c)
        try:
            self.phi0[i] = optimize.newton(func=physics.rf_voltage_mch, x0=self.phi0[i + 1],
                                           fprime=physics.drf_voltage_mch, tol=0.0001, maxiter=100, args=(self, i))
        except RuntimeError:
            raise ValueError('no synchronous phase')
    self.eta0 = slip(self)
    self.drift_coef = drift(self)
    self.omega_rev0 = omega_rev(self)
    self.vrf1_at_turn = self.vrf1 + self.vrf1dot * self.time_at_turn
    self.vrf2_at_turn = self.vrf2 + self.vrf2dot * self.time_at_turn


def values_at_turns_known(self: Machine):
    """as values_at_turns, with the recorded defect: below the reference frame the energy step is stored one
    turn too low."""
    asrt.assert_machine_input(self)
    last = self.dturns * (self.nprofiles - 1)
    ref = self.dturns * self.machine_ref_frame
    self.time_at_turn = np.zeros(last + 1)
    self.phi0 = np.zeros(last + 1)
    self.e0 = np.zeros(last + 1)
    self.beta0 = np.zeros(last + 1)
    self.deltaE0 = np.zeros(last + 1)
    self.time_at_turn[ref] = 0
    self.e0[ref] = total_energy(self)
    self.beta0[ref] = lorentz_beta(self, ref)
    lo, hi = phase_window(self, ref)
    self.phi0[ref] = physics.find_synch_phase_mch(self, ref, lo, hi)
    length = 2 * np.pi * self.mean_orbit_rad
    for i in range(ref + 1, last + 1):
        self.time_at_turn[i] = self.time_at_turn[i - 1] + length / (self.beta0[i - 1] * constants.c)
        try:
            self.phi0[i] = optimize.newton(func=physics.rf_voltage_mch, x0=self.phi0[i - 1],
                                           fprime=physics.drf_voltage_mch, tol=0.0001, maxiter=100, args=(self, i))
        except RuntimeError:
            raise ValueError('no synchronous phase')
        self.e0[i] = self.e0[i - 1] + self.q * _gain(self, self.phi0[i], self.time_at_turn[i])
        self.beta0[i] = _beta(self, self.e0[i])
        self.deltaE0[i] = self.e0[i] - self.e0[i - 1]
    for i in range(ref - 1, -1, -1):
        self.e0[i] = self.e0[i + 1] - self.q * _gain(self, self.phi0[i + 1], self.time_at_turn[i + 1])
        self.beta0[i] = _beta(self, self.e0[i])
        self.deltaE0[i] = self.e0[i + 1] - self.e0[i]
        self.time_at_turn[i] = self.time_at_turn[i + 1] - length / (self.beta0[i] * constants.c)
        try:
            self.phi0[i] = optimize.newton(func=physics.rf_voltage_mch, x0=self.phi0[i + 1],
                                           fprime=physics.drf_voltage_mch, tol=0.0001, maxiter=100, args=(self, i))
        except RuntimeError:
            raise ValueError('no synchronous phase')


# ------------------------------------------------------------------ root finding
def gain_slope_rf1(phi, v1):
    return v1 * np.cos(phi)


def gain_slope(phi, v1, v2, h_ratio, phi12):
    return v1 * np.cos(phi) + v2 * h_ratio * np.cos(h_ratio * (phi - phi12))


def gain_slope_rf1_lin(phi, machine: Machine, rf_turn: int):
    return gain_slope_rf1(phi, machine.vrf1 + machine.vrf1dot * machine.time_at_turn[rf_turn])


def gain_slope_rf1_prog(phi, machine: ProgramsMachine, rf_turn: int):
    return gain_slope_rf1(phi, machine.vrf1_at_turn[rf_turn])


def gain_slope_lin(phi, machine: Machine, rf_turn: int):
    tm = machine.time_at_turn[rf_turn]
    return gain_slope(phi, machine.vrf1 + machine.vrf1dot * tm, machine.vrf2 + machine.vrf2dot * tm, machine.h_ratio, machine.phi12)


def gain_slope_prog(phi, machine: ProgramsMachine, rf_turn: int):
    return gain_slope(phi, machine.vrf1_at_turn[rf_turn], machine.vrf2_at_turn[rf_turn], machine.h_ratio, machine.phi12[rf_turn])


def _phi12_at(machine: MachineABC, rf_turn: int):
    if isinstance(machine.phi12, (np.ndarray, Sequence)):
        return machine.phi12[rf_turn]
    return machine.phi12


def potential_of(phase, machine: MachineABC, bunch_phaselength, rf_turn: int):
    """what the bunch edges enclose at a turn: voltages, phases all of that turn."""
    return potential(phase, bunch_phaselength, machine.vrf1_at_turn, machine.vrf2_at_turn, machine.phi0, machine.h_ratio,
                     _phi12_at(machine, rf_turn), rf_turn, rf_turn)


def potential_slope(phase, bunch_phaselength, vrf1: np.ndarray, vrf2: np.ndarray, h_ratio, phi12: float, rf_turn: int):
    end = phase + bunch_phaselength
    return (vrf1[rf_turn] * (np.sin(phase) - np.sin(end))
            + vrf2[rf_turn] * (np.sin(h_ratio * (phase - phi12)) - np.sin(h_ratio * (end - phi12))))


def potential_slope_arr(phase, bunch_phaselength, vrf1: np.ndarray, vrf2: np.ndarray, h_ratio, phi12: np.ndarray, rf_turn: int):
    return potential_slope(phase, bunch_phaselength, vrf1, vrf2, h_ratio, phi12[rf_turn], rf_turn)


def potential_arr(phase, bunch_phaselength, vrf1: np.ndarray, vrf2: np.ndarray, phi0: np.ndarray, h_ratio, phi12: np.ndarray,
                  rf_turn: int, ref_frame: int = 0):
    return potential(phase, bunch_phaselength, vrf1, vrf2, phi0, h_ratio, phi12[ref_frame], rf_turn, ref_frame)


def potential_slope_of(phase, machine: MachineABC, bunch_phaselength, rf_turn: int):
    return potential_slope(phase, bunch_phaselength, machine.vrf1_at_turn, machine.vrf2_at_turn, machine.h_ratio,
                           _phi12_at(machine, rf_turn), rf_turn)


def synchronous_phase(machine: Machine, rf_turn: int, phi_lower, phi_upper):
    try:
        one = optimize.newton(func=physics.rfvolt_rf1_mch, x0=(phi_lower + phi_upper) / 2, fprime=physics.drfvolt_rf1_mch,
                              tol=0.0001, maxiter=100, args=(machine, rf_turn))
        return optimize.newton(func=physics.rf_voltage_mch, x0=one, fprime=physics.drf_voltage_mch, tol=0.0001, maxiter=100,
                               args=(machine, rf_turn))
    except RuntimeError:
        raise ValueError('no synchronous phase')


def synchronous_phases(self: ProgramsMachine):
    if self.phi12 is None:
        raise ValueError('no relative phase')
    lo, hi = physics.find_phi_lower_upper(self, self.i0)
    phi = np.zeros_like(self.vrf1_at_turn)
    self.phi0 = phi
    try:
        one = optimize.newton(func=physics.rfvolt_rf1_pmch, x0=(lo + hi) / 2, fprime=physics.drfvolt_rf1_pmch,
                              tol=0.0001, maxiter=100, args=(self, self.i0))
        phi[self.i0] = optimize.newton(func=physics.rf_voltage_pmch, x0=one, fprime=physics.drf_voltage_pmch, tol=0.0001,
                                       maxiter=100, args=(self, self.i0))
        for i in range(self.i0 + 1, self.n_turns):
            phi[i] = optimize.newton(func=physics.rf_voltage_pmch, x0=phi[i - 1], fprime=physics.drf_voltage_pmch,
                                     tol=0.0001, maxiter=100, args=(self, i))
        for i in range(self.i0 - 1, -1, -1):
            phi[i] = optimize.newton(func=physics.rf_voltage_pmch, x0=phi[i + 1], fprime=physics.drf_voltage_pmch,
                                     tol=0.0001, maxiter=100, args=(self, i))
    except RuntimeError:
        raise ValueError('no synchronous phase')
