"""Phase-space coordinates: image (bin) coordinates <-> physical coordinates, reconstruction area, start
distribution, lost particles."""
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.machine_base import MachineABC
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
from longitudinal_tomography.utils import tomo_config as conf


# ---------------------------------------------------------------- bin <-> physical
def to_physical(self: Particles, coordinates, machine: Machine, recprof: int, deltaturn: int = 0):
    turn = machine.dturns * recprof + deltaturn
    rad_per_bin = machine.h_num * machine.omega_rev0[turn] * machine.dtbin
    return ((coordinates[0] + self.xorigin) * rad_per_bin - machine.phi0[turn],
            (coordinates[1] - machine.synch_part_y) * self.dEbin)


def to_image(tracked_dphi: np.ndarray, tracked_denergy: np.ndarray, machine: Machine, xorigin, dEbin):
    if tracked_dphi.shape != tracked_denergy.shape:
        raise expt.InvalidParticleError()
    turns = machine.dturns * np.arange(tracked_denergy.shape[0])
    column = machine.phi0[turns].reshape(-1, 1)
    rad_per_bin = machine.h_num * machine.omega_rev0[turns].reshape(-1, 1) * machine.dtbin
    return (tracked_dphi + column) / rad_per_bin - xorigin, tracked_denergy / dEbin + machine.synch_part_y


def remove_lost(xp: np.ndarray, yp: np.ndarray, img_width: int):
    outside = np.argwhere(np.logical_or(xp < 0, xp >= img_width))
    lost = 0
    if np.size(outside) > 0:
        particles = np.unique(outside[:, 1])
        keep = ~np.isin(np.arange(xp.shape[1]), particles)
        lost = len(particles)
        xp = xp[:, keep]
        yp = yp[:, keep]
    if xp.size == 0:
        raise expt.InvalidParticleError()
    return xp, yp, lost


def for_tomography(xp: np.ndarray, yp: np.ndarray, nbins: int):
    a, b, lost = remove_lost(xp, yp, nbins)
    return a.astype(np.int32).T, b.astype(np.int32).T


def check_coordinates(coordinates):
    if not hasattr(coordinates, '__getitem__'):
        raise expt.InvalidParticleError()
    if len(coordinates) != 2:
        raise expt.InvalidParticleError()
    for c in coordinates:
        if not hasattr(c, '__iter__'):
            raise expt.InvalidParticleError()
    if len(coordinates[0]) != len(coordinates[1]):
        raise expt.InvalidParticleError()
    return coordinates[0], coordinates[1]


def set_coordinates(self: Particles, coordinates):
    self._dphi, self._denergy = check_coordinates(coordinates)


def get_coordinates(self: Particles):
    return self._dphi, self._denergy


# ---------------------------------------------------------------- reconstruction area
def origin(self: PhaseSpaceInfo):
    m = self.machine
    turn = m.dturns * m.beam_ref_frame
    return m.phi0[turn] / (m.h_num * m.omega_rev0[turn] * m.dtbin) - m.synch_part_x


def edge_phases(self: PhaseSpaceInfo, turn: int):
    m = self.machine
    return (np.arange(m.nbins + 1) + self.xorigin) * m.h_num * m.omega_rev0[turn] * m.dtbin


def height(self: PhaseSpaceInfo, phi: np.ndarray, phi_known: float, delta_e_known, turn: int):
    """energy of the trajectory through (phi_known, delta_e_known) at phi."""
    m = self.machine
    p12 = m.phi12[turn] if isinstance(m.phi12, np.ndarray) else m.phi12
    v1, v2, h = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.h_ratio
    s = m.phi0[turn]
    pot = v1 * (np.cos(phi) - np.cos(phi_known)) \
        + v2 / h * (np.cos(h * (phi - p12)) - np.cos(h * (phi_known - p12))) \
        + (phi - phi_known) * (v1 * np.sin(s) + v2 * np.sin(h * (s - p12)))
    e2 = 2 * m.q / m.drift_coef[turn] * pot + delta_e_known ** 2
    if np.size(e2) > 1:
        return np.sqrt(np.array(e2, dtype=complex)).real
    return np.sqrt(complex(e2)).real


def energy_bin(self: PhaseSpaceInfo):
    if self.xorigin is None:
        raise expt.EnergyBinningError()
    m = self.machine
    turn = m.dturns * m.beam_ref_frame
    if m.demax == 0:
        raise expt.EnergyBinningError()
    half = m.nbins - m.synch_part_y
    if m.demax >= 0:
        return m.demax / half
    ph = edge_phases(self, turn)
    if m.vrf2_at_turn[turn] != 0:
        a = np.amax(height(self, ph, ph[0], 0.0, turn))
        b = np.amax(height(self, ph, ph[m.nbins], 0.0, turn))
        return min(a, b) / half
    rad = m.dtbin * m.h_num * m.omega_rev0[turn]
    return rad * m.beta0[turn] * np.sqrt(m.e0[turn] * m.q * m.vrf1_at_turn[turn] * np.cos(m.phi0[turn])
                                         / (2 * np.pi * m.h_num * m.eta0[turn]))


def full_image(self: PhaseSpaceInfo):
    n = self.machine.nbins
    top = np.zeros(n)
    low = np.zeros(n)
    top[:] = n
    low[:] = np.ceil(2.0 * self.machine.synch_part_y - top + 0.5)
    return low, top, 0, n


def top_energy(self: PhaseSpaceInfo, phases: np.ndarray, turn: int, dEbin: float):
    n = self.machine.nbins
    y = self.machine.synch_part_y
    low = np.zeros(n + 1)
    up = np.zeros(n + 1)
    for i in range(n + 1):
        low[i] = int(np.floor(y + height(self, phases[i], phases[0], 0.0, turn) / dEbin))
        up[i] = int(np.floor(y + height(self, phases[i], phases[n], 0.0, turn) / dEbin))
    out = np.zeros(n)
    for i in range(n):
        out[i] = min([up[i], up[i + 1], low[i], low[i + 1], n])
    return out


def bottom_energy(self: PhaseSpaceInfo, jmax: np.ndarray, threshold: int = 1):
    mirrored = np.ceil(2.0 * self.machine.synch_part_y - jmax - 0.5)
    return np.where(mirrored >= threshold, mirrored, threshold)


def first_phase(self: PhaseSpaceInfo, jmin: np.ndarray, jmax: np.ndarray):
    for i in range(self.machine.nbins):
        if jmax[i] >= jmin[i]:
            return i


def last_phase(self: PhaseSpaceInfo, jmin: np.ndarray, jmax: np.ndarray):
    for i in range(self.machine.nbins - 1, 0, -1):
        if jmax[i] >= jmin[i]:
            return i


def trim(self: PhaseSpaceInfo, jmax: np.ndarray, jmin: np.ndarray, imin: int, imax: int):
    m = self.machine
    hi = int(np.ceil(m.max_dt / m.dtbin))
    lo = int(m.min_dt / m.dtbin)
    mid = np.floor(m.synch_part_y)
    if lo > imin or m.full_pp_flag:
        imin = lo
        jmax[:lo] = mid
        jmin = np.ceil(2.0 * m.synch_part_y - jmax + 0.5)
    if hi < imax or m.full_pp_flag:
        imax = hi - 1
        jmax[hi:m.nbins] = mid
        jmin = np.ceil(2.0 * m.synch_part_y - jmax + 0.5)
    return jmin, jmax, imin, imax


def rec_area(self: PhaseSpaceInfo, dEbin: float):
    turn = self.machine.dturns * self.machine.filmstart
    ph = edge_phases(self, turn)
    top = top_energy(self, ph, turn, dEbin)
    low = bottom_energy(self, top)
    area_nonempty(self, low, top)
    return low, top, first_phase(self, low, top), last_phase(self, low, top)


def area_nonempty(self: PhaseSpaceInfo, jmin: np.ndarray, jmax: np.ndarray):
    if all(jmin >= jmax):
        raise expt.EnergyLimitsError()


def limits_ok(self: PhaseSpaceInfo):
    if self.imin < 0 or self.imin > self.imax:
        raise expt.PhaseLimitsError()
    if self.imax > self.jmax.size:
        raise expt.PhaseLimitsError()
    lo = self.jmin[self.imin:self.imax]
    hi = self.jmax[self.imin:self.imax]
    if np.any(np.logical_or(lo < 0, lo > hi)):
        raise expt.EnergyLimitsError()
    if np.any(hi > self.machine.nbins):
        raise expt.EnergyLimitsError()
    if self.jmin.shape != self.jmax.shape:
        raise expt.ArrayLengthError()
    if all(self.jmin >= self.jmax):
        raise expt.EnergyLimitsError()


def limits(self: PhaseSpaceInfo):
    self.xorigin = origin(self)
    self.dEbin = energy_bin(self)
    if self.dEbin <= 0:
        raise expt.EnergyBinningError()
    if self.machine.full_pp_flag is True:
        lo, hi, i0, i1 = full_image(self)
    else:
        lo, hi, i0, i1 = rec_area(self, self.dEbin)
    lo, hi, self.imin, self.imax = trim(self, hi, lo, i0, i1)
    self.jmin = lo.astype(np.int32)
    self.jmax = hi.astype(np.int32)
    limits_ok(self)


# ---------------------------------------------------------------- start distribution
def homogeneous(self: Particles, machine: Machine, recprof: int, deltaturn: int = 0):
    for field in ['snpt', 'h_num', 'omega_rev0', 'eta0', 'dtbin', 'phi0', 'synch_part_y', 'dturns', 'phi12', 'nbins',
                  'beam_ref_frame', 'full_pp_flag', 'demax', 'e0', 'min_dt', 'max_dt', 'time_at_turn']:
        if not hasattr(machine, field) or getattr(machine, field) is None:
            raise expt.MachineParameterError()
    info = PhaseSpaceInfo(machine)
    limits(info)
    self.dEbin = info.dEbin
    machine.dEbin = info.dEbin
    self.xorigin = info.xorigin
    n = machine.snpt
    inside = (2.0 * np.arange(1, n + 1) - 1) / (2.0 * n)
    cols = np.arange(info.imin, info.imax + 1, dtype=float)
    x = np.repeat(cols, n) + np.tile(inside, len(cols))
    bottom = np.min(info.jmin)
    top = np.max(info.jmax)
    rows = np.arange(bottom, top, dtype=float)
    y = np.repeat(rows, n) + np.tile(inside, top - bottom)
    g = np.meshgrid(x, y)
    pts = np.array([g[0].flatten(), g[1].flatten()])
    pts = pts[:, pts[1] < info.jmax[pts[0].astype(int)]]
    pts = pts[:, pts[1] > info.jmin[pts[0].astype(int)]]
    self.imin = info.imin
    self.imax = info.imax
    self.jmin = info.jmin
    self.jmax = info.jmax
    xy = to_physical(self, pts, machine, recprof, deltaturn)
    self.coordinates_dphi_denergy = conf.cast(xy)
