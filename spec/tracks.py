"""Particle tracking: what a tracker must produce."""
import numpy as np
from longitudinal_tomography import assertions as asrt, exceptions as expt
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.machine_base import MachineABC
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.compat import fortran
from longitudinal_tomography.data.profiles import Profiles
from longitudinal_tomography.utils import tomo_config as conf


def new_tracker(self: Tracking, machine):
    if not isinstance(machine, MachineABC):
        raise expt.MachineParameterError()
    for field in ['vrf1_at_turn', 'vrf2_at_turn', 'q', 'nprofiles', 'drift_coef', 'dturns', 'phi0', 'phi12',
                  'h_ratio', 'deltaE0', 'synch_part_x']:
        if not hasattr(machine, field) or getattr(machine, field) is None:
            raise expt.MachineParameterError()
    if not machine.synch_part_x >= 0:
        raise expt.MachineParameterError()
    self.machine = machine
    self.particles = Particles()
    self.nturns = machine.dturns * (machine.nprofiles - 1)
    self._self_field_flag = False
    self._ftn_flag = False
    self._profile_charge = None
    self._phiwrap = None
    self._vself = None


def fortran_on(self: Tracking, profile_charge):
    if profile_charge is None:
        raise expt.ProfileChargeNotCalculated()
    self._ftn_flag = True
    self._profile_charge = profile_charge


def self_fields_on(self: Tracking, profiles):
    for field in ['phiwrap', 'vself']:
        if not hasattr(profiles, field) or getattr(profiles, field) is None:
            raise expt.SelfFieldTrackingError()
    self._phiwrap = profiles.phiwrap
    self._vself = profiles.vself
    self._self_field_flag = True


def track(self: Tracking, recprof: int, init_distr=None, callback=None, deltaturn: int = 0):
    m = self.machine
    # a profile number counts from either end of the measurement
    if recprof < 0:
        recprof = recprof + m.nprofiles
        if recprof < 0:
            raise IndexError()
    elif recprof >= m.nprofiles:
        raise IndexError()
    turn = m.dturns * recprof + deltaturn
    if not np.abs(deltaturn) < m.dturns:
        raise ValueError()
    if not turn < m.dturns * (m.nprofiles - 1):
        raise ValueError()
    if not turn >= 0:
        raise ValueError()
    if init_distr is None:
        self.particles.homogeneous_distribution(m, recprof, deltaturn)
        if self.fortran_flag:
            print(fortran.write_plotinfo(m, self.particles, self._profile_charge))
    else:
        self.particles.coordinates_dphi_denergy = conf.cast(init_distr)
    coords = self.particles.coordinates_dphi_denergy
    dphi, denergy = coords[0], coords[1]
    self.init_dphi = dphi.copy()
    self.init_denergy = denergy.copy()
    v1 = conf.cast(m.vrf1_at_turn * m.q)
    v2 = conf.cast(m.vrf2_at_turn * m.q)
    if self.self_field_flag:
        return self.kick_and_drift_self(np.ascontiguousarray(denergy), np.ascontiguousarray(dphi), v1, v2, recprof,
                                        deltaturn)
    n = len(dphi)
    x = conf.cast(conf.zeros((m.nprofiles, n)))
    y = conf.cast(conf.zeros((m.nprofiles, n)))
    libtomo.kick_and_drift(x, y, denergy, dphi, v1, v2, conf.cast(m.phi0), conf.cast(m.deltaE0),
                           conf.cast(m.drift_coef), m.phi12, m.h_ratio, m.dturns, recprof, deltaturn,
                           m.dturns * (m.nprofiles - 1), n, self.fortran_flag, callback)
    return x, y


def step_by_step(self: Tracking, denergy: np.ndarray, dphi: np.ndarray, rf1v: np.ndarray, rf2v: np.ndarray,
                 rec_prof: int, deltaturn: int = 0):
    """the turn-by-turn tracker: row p of the result is the state at turn p*dturns."""
    m = self.machine
    n = len(denergy)
    x = np.zeros((m.nprofiles, n))
    y = np.zeros((m.nprofiles, n))
    x0 = np.copy(dphi)
    y0 = np.copy(denergy)
    if deltaturn == 0:
        x[rec_prof] = dphi
        y[rec_prof] = denergy
    start = rec_prof * m.dturns + deltaturn
    turn = start
    profile = rec_prof
    if deltaturn < 0:
        profile = rec_prof - 1
    while turn < self.nturns:
        dphi = libtomo.drift(denergy, dphi, m.drift_coef, n, turn)
        denergy = libtomo.kick(m, denergy, dphi, rf1v, rf2v, n, turn + 1)
        turn = turn + 1
        if turn % m.dturns == 0:
            profile = profile + 1
            x[profile] = np.copy(dphi)
            y[profile] = np.copy(denergy)
            if self.fortran_flag:
                fortran.print_tracking_status(rec_prof, profile)
    dphi = x0
    denergy = y0
    turn = start
    profile = rec_prof + 1 if deltaturn > 0 else rec_prof
    while turn > 0:
        denergy = libtomo.kick(m, denergy, dphi, rf1v, rf2v, n, turn, False)
        dphi = libtomo.drift(denergy, dphi, m.drift_coef, n, turn - 1, False)
        turn = turn - 1
        if turn % m.dturns == 0:
            profile = profile - 1
            x[profile] = np.copy(dphi)
            y[profile] = np.copy(denergy)
            if self.fortran_flag:
                fortran.print_tracking_status(rec_prof, profile)
    return x, y


def folded_bin(dphi: np.ndarray, phi0, xorigin, h_num, omega_rev0, dtbin, phiwrap):
    """bin of a phase, phases folded into one wrap length."""
    width = h_num * omega_rev0 * dtbin
    phase = dphi + phi0 - xorigin * width
    return (phase - phiwrap * np.floor(phase / phiwrap)) / width


def with_self_fields(self: Tracking, denergy: np.ndarray, dphi: np.ndarray, rf1v: np.ndarray, rf2v: np.ndarray,
                     rec_prof: int, deltaturn: int = 0):
    m = self.machine
    p = self.particles

    n = len(denergy)
    xp = np.zeros((m.nprofiles, n))
    yp = np.zeros((m.nprofiles, n))
    start = rec_prof * m.dturns + deltaturn
    turn = start
    profile = rec_prof
    if deltaturn < 0:
        profile = rec_prof - 1
    dphi0 = np.copy(dphi)
    denergy0 = np.copy(denergy)
    x0 = folded_bin(dphi, m.phi0[turn], p.xorigin, m.h_num, m.omega_rev0[turn], m.dtbin, self._phiwrap)
    xp[rec_prof] = x0
    yp[rec_prof] = denergy / p.dEbin + m.synch_part_y
    if self.fortran_flag:
        fortran.print_tracking_status(rec_prof, profile)
    while turn < self.nturns:
        dphi = libtomo.drift(denergy, dphi, m.drift_coef, n, turn)
        turn = turn + 1
        x = folded_bin(dphi, m.phi0[turn], p.xorigin, m.h_num, m.omega_rev0[turn], m.dtbin, self._phiwrap)
        volt = self._vself[profile, x.astype(int)]
        denergy = libtomo.kick(m, denergy, dphi, rf1v, rf2v, n, turn)
        denergy += volt * m.q
        if turn % m.dturns == 0:
            profile = profile + 1
            xp[profile] = x
            yp[profile] = denergy / p.dEbin + m.synch_part_y
            if self.fortran_flag:
                fortran.print_tracking_status(rec_prof, profile)
    dphi = dphi0
    denergy = denergy0
    turn = start
    profile = rec_prof if deltaturn > 0 else rec_prof - 1
    x = x0
    while turn > 0:
        volt = self._vself[profile, x.astype(int)]
        denergy = libtomo.kick(m, denergy, dphi, rf1v, rf2v, n, turn, False)
        denergy -= volt * m.q
        turn = turn - 1
        dphi = libtomo.drift(denergy, dphi, m.drift_coef, n, turn, False)
        x = folded_bin(dphi, m.phi0[turn], p.xorigin, m.h_num, m.omega_rev0[turn], m.dtbin, self._phiwrap)
        if turn % m.dturns == 0:
            xp[profile] = x
            yp[profile] = denergy / p.dEbin + m.synch_part_y
            profile = profile - 1
            if self.fortran_flag:
                fortran.print_tracking_status(rec_prof, profile)
    return xp, yp
