"""Measured data: input files, raw data to profiles, self-field voltages, pre- and post-processing."""
import os
import sys
import numpy as np
import scipy.signal as sig
from scipy import constants, optimize
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.compat import fortran
from longitudinal_tomography.data.profiles import Profiles
from longitudinal_tomography.data import pre_process
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.machine_base import MachineABC
from longitudinal_tomography.utils import physics, tomo_config as conf
from longitudinal_tomography.utils.tomo_input import Frames


# ---------------------------------------------------------------- raw data
def set_raw(self: Frames, in_raw_data):
    if not hasattr(in_raw_data, '__iter__'):
        raise expt.RawDataImportError()
    if len(in_raw_data) != self.nbins_frame * self.nframes:
        raise expt.RawDataImportError()
    self._raw_data = np.array(in_raw_data)


def get_raw(self: Frames):
    return None if self._raw_data is None else np.copy(self._raw_data)


def n_profiles(self: Frames):
    return self.nframes - self.skip_frames


def n_bins(self: Frames):
    return self.nbins_frame - (self.skip_bins_start + self.skip_bins_end)


def frame_limits(f: Frames):
    if not f.nframes > 0:
        raise expt.InputError()
    if not f.nbins_frame > 0:
        raise expt.InputError()
    if f.skip_frames < 0 or f.skip_frames >= f.nframes:
        raise expt.InputError()
    if f.skip_bins_start < 0:
        raise expt.InputError()
    if f.skip_bins_end < 0:
        raise expt.InputError()
    if f.skip_bins_start + f.skip_bins_end >= f.nbins_frame:
        raise expt.InputError()
    if f.rebin < 1:
        raise expt.InputError()


def shaped(self: Frames, raw_data):
    if not hasattr(raw_data, '__iter__'):
        raise expt.RawDataImportError()
    if len(raw_data) != self.nbins_frame * self.nframes:
        raise expt.RawDataImportError()
    frame_limits(self)
    w = np.array(raw_data).reshape((self.nframes, self.nbins_frame))[self.skip_frames:]
    if self.skip_bins_end > 0:
        return w[:, self.skip_bins_start:-self.skip_bins_end]
    return w[:, self.skip_bins_start:]


def baseline(waterfall: np.ndarray, ref_prof: int, percent: float = 0.05):
    if percent < 0.0 or percent > 1.0:
        raise expt.InputError()
    n = percent * len(waterfall[ref_prof])
    return np.sum(waterfall[ref_prof, :int(n)]) / np.floor(n)


def profiles(waterfall, machine: Machine, rbn: int, sampling_time: float, synch_part_x: float = None):
    if not hasattr(waterfall, '__iter__'):
        raise expt.WaterfallError()
    w = np.array(waterfall)
    x = machine.synch_part_x if synch_part_x is None else synch_part_x
    w[:] -= baseline(w, machine.beam_ref_frame)
    rebinned, dtbin, x = pre_process.rebin(w, rbn, sampling_time, x)
    machine.dtbin = dtbin
    machine.synch_part_x = x
    return Profiles(machine, sampling_time, rebinned)


# ---------------------------------------------------------------- input file
def machine_from_text(input_array: list):
    if not hasattr(input_array, '__iter__'):
        raise expt.InputError()
    if len(input_array) != 98:
        raise expt.InputError()
    for i in range(len(input_array)):
        input_array[i] = input_array[i].strip('\r\n')
    a = input_array
    dt = float(a[22])
    f = Frames(int(a[16]), int(a[20]), int(a[18]), int(a[26]), int(a[28]), int(a[36]), dt, a[12])
    nprofiles = int(a[16]) - int(a[18])
    nbins = int(a[20]) - int(a[26]) - int(a[28])
    m = Machine(output_dir=a[14], dtbin=dt, dturns=int(a[24]), synch_part_x=float(a[39]), demax=float(a[41]),
                filmstart=int(a[43]) - 1, filmstop=int(a[45]) - 1, filmstep=int(a[47]), niter=int(a[49]),
                snpt=int(a[51]), full_pp_flag=bool(int(a[53])), beam_ref_frame=int(a[55]) - 1,
                machine_ref_frame=int(a[57]) - 1, vrf1=float(a[61]), vrf1dot=float(a[63]), vrf2=float(a[65]),
                vrf2dot=float(a[67]), h_num=float(a[69]), h_ratio=float(a[71]), phi12=float(a[73]), b0=float(a[75]),
                bdot=float(a[77]), mean_orbit_rad=float(a[79]), bending_rad=float(a[81]), trans_gamma=float(a[83]),
                rest_energy=float(a[85]), charge=float(a[87]), self_field_flag=bool(int(a[91])),
                g_coupling=float(a[93]), zwall_over_n=float(a[95]), pickup_sensitivity=float(a[97]),
                nprofiles=nprofiles, nbins=nbins, min_dt=int(a[31]) * dt, max_dt=(nbins - int(a[34])) * dt)
    return m, f


def new_frames(self: Frames, framecount: int, framelength: int, skip_frames: int, skip_bins_start: int,
               skip_bins_end: int, rebin: int, dtbin: float, raw_data_path: str = ''):
    self.nframes = framecount
    self.nbins_frame = framelength
    self.skip_frames = skip_frames
    self.skip_bins_start = skip_bins_start
    self.skip_bins_end = skip_bins_end
    self.rebin = rebin
    self.sampling_time = dtbin
    self.raw_data_path = raw_data_path
    self._raw_data = None


# ---------------------------------------------------------------- profiles
def set_waterfall(self: Profiles, new_waterfall):
    if not hasattr(new_waterfall, '__iter__'):
        raise expt.WaterfallError()
    if new_waterfall.shape[0] != self.machine.nprofiles:
        raise expt.WaterfallError()
    w = np.array(new_waterfall).clip(0.0)
    self._waterfall = w
    if np.sum(np.abs(w)) == 0.0:
        raise expt.WaterfallReducedToZero()
    self.machine.nbins = w.shape[1]


def new_profiles(self: Profiles, machine: Machine, sampling_time, waterfall, profile_charge=None):
    self.machine = machine
    self.sampling_time = sampling_time
    set_waterfall(self, waterfall)
    self.profile_charge = profile_charge
    self.dsprofiles = None
    self.phiwrap = None
    self.wrap_length = None
    self.vself = None


def charge(self: Profiles):
    total = np.sum(self._waterfall[self.machine.beam_ref_frame])
    self.profile_charge = total * self.sampling_time / constants.e / self.machine.pickup_sensitivity


def same_shape(self: Profiles, fprofs):
    if not hasattr(fprofs, '__iter__'):
        raise expt.FilteredProfilesError()
    out = np.array(fprofs)
    if out.shape != self._waterfall.shape:
        raise expt.FilteredProfilesError()
    return out


def wrapping(self: Profiles):
    m = self.machine
    turn = 0
    if m.bdot > 0:
        turn = (m.nprofiles - 1) * m.dturns - 1
    width = m.h_num * m.omega_rev0[turn] * m.dtbin
    length = np.ceil(m.nbins * width / (2 * np.pi)) * 2 * np.pi
    return length, int(np.ceil(length / width))


def field_coefficients(m: MachineABC):
    out = np.zeros(m.nprofiles)
    for p in range(m.nprofiles):
        b = m.beta0[p * m.dturns]
        w = m.omega_rev0[p * m.dturns]
        out[p] = constants.e / w * ((1 / b - b) * m.g_coupling * np.pi * 2.0e-7 * constants.c - m.zwall_over_n) \
            / m.dtbin ** 2
    return out


def self_fields(self: Profiles, filtered_profiles: np.ndarray = None, in_filter=None):
    if self.profile_charge is None:
        raise expt.ProfileChargeNotCalculated()
    if filtered_profiles is not None:
        self.dsprofiles = same_shape(self, filtered_profiles)
    elif in_filter is not None:
        self.dsprofiles = same_shape(self, in_filter(np.copy(self._waterfall)))
    else:
        w = np.copy(self._waterfall)
        self.dsprofiles = sig.savgol_filter(x=w / np.sum(w, axis=1)[:, None], window_length=7, polyorder=4, deriv=1)
    self.phiwrap, self.wrap_length = wrapping(self)
    m = self.machine
    n = m.nbins
    c = field_coefficients(m)
    v = np.zeros((m.nprofiles - 1, self.wrap_length + 1))
    for i in range(m.nprofiles - 1):
        v[i, :n] = 0.5 * self.profile_charge * (c[i] * self.dsprofiles[i, :n] + c[i + 1] * self.dsprofiles[i + 1, :n])
    self.vself = v


# ---------------------------------------------------------------- reading the input
def split_text(read_input):
    n = 0
    pars = None
    try:
        pars = read_input[:98]
        n = int(pars[20]) * int(pars[16])
        for i in range(98):
            pars[i] = pars[i].strip('\r\n')
    except TypeError:
        raise expt.InputError()
    if pars[12] == 'pipe':
        try:
            data = np.array(read_input[98:], dtype=float)
        except TypeError:
            raise expt.InputError()
    else:
        try:
            data = np.genfromtxt(pars[12], dtype=float)
        except FileNotFoundError:
            raise FileNotFoundError()
        except Exception:
            raise Exception()
    if len(data) != n:
        raise expt.InputError()
    return pars, data


# ---------------------------------------------------------------- pre-processing
def merge_bins(waterfall, rbn: int, dtbin: float = None, synch_part_x: float = None):
    """rbn neighbouring bins become one; an incomplete last bin is estimated from the last full one and the rest."""
    w = np.copy(waterfall)
    frames = w.shape[0]
    bins = w.shape[1]
    full = int(bins / rbn)
    if bins % rbn == 0:
        out = np.sum(w.reshape((full * frames, rbn)), axis=1).reshape((frames, full))
    else:
        out = np.zeros((frames, full + 1))
        out[:, :-1] = np.sum(w[:, :full * rbn].reshape((full * frames, rbn)), axis=1).reshape((frames, full))
        first = (full - 1) * rbn
        out[:, -1] = np.sum(w[:, first:], axis=1) * (rbn / (bins - first))
    if dtbin is not None:
        dtbin = dtbin * rbn
    if synch_part_x is not None:
        return out, dtbin, synch_part_x / rbn
    return out, dtbin


def cuts(waterfall, threshold=None, margin: int = 20):
    if isinstance(waterfall, (tuple, list)):
        waterfall = np.array(waterfall).real
    n = len(waterfall[0])
    d = np.sum(np.abs(waterfall[:, 1:] - waterfall[:, :-1]), axis=0)
    d = d - d.min()
    if threshold is None:
        threshold = 0.3 * d.max()
    inside = d > threshold
    left = np.argmax(inside)
    right = n - np.argmax(inside[::-1]) + 1
    left = left - margin if left > margin else 0
    right = right + margin if n - right > margin else n
    return int(left), int(right)


def cut(waterfall, cut_left: int, cut_right: int):
    if not isinstance(waterfall, np.ndarray):
        waterfall = np.array(waterfall)
    n = len(waterfall[0])
    if not cut_left >= 0:
        raise ValueError()
    if cut_right < 0:
        if cut_right < -n:
            raise ValueError()
        if not n + cut_right > cut_left:
            raise ValueError()
    else:
        if cut_right > n:
            raise ValueError()
        if not cut_right > cut_left:
            raise ValueError()
    return waterfall[:, cut_left:cut_right]


def good_profiles(waterfall: np.ndarray, xp: np.ndarray = None, yp: np.ndarray = None, rec_prof: int = None):
    if (xp is None) != (yp is None):
        raise ValueError()
    w = waterfall / waterfall.sum()
    s = w.sum(axis=1)
    good = s > s.max() - s.min() - s.mean()
    kept = w[good, :]
    out = [kept]
    if xp is not None:
        out.append(xp[:, good])
        out.append(yp[:, good])
    if rec_prof is not None:
        r = rec_prof - (len(w) - len(kept))
        if r < 0:
            raise ValueError()
        out.append(r)
    return tuple(out)


def feet(ref_prof: np.ndarray):
    n = len(ref_prof)
    centre = np.arange(n) + 0.5
    up, low = tangent_bins(ref_prof, n)
    bl, al = np.polyfit(centre[low - 2:low + 2], ref_prof[low - 2:low + 2], deg=1)
    bu, au = np.polyfit(centre[up - 1:up + 3], ref_prof[up - 1:up + 3], deg=1)
    return -au / bu, -al / bl


def tangent_bins(ref_profile: np.ndarray, nbins: int, threshold_coeff: float = 0.15):
    limit = threshold_coeff * np.max(ref_profile)
    top = np.argmax(ref_profile)
    for i in range(top, 0, -1):
        if ref_profile[i] < limit:
            low = i + 1
            break
    for i in range(top, nbins):
        if ref_profile[i] < limit:
            up = i - 1
            break
    return up, low


def fit(waterfall: np.ndarray, machine: MachineABC):
    frame = machine.beam_ref_frame
    turn = frame * machine.dturns
    up, low = feet(waterfall[frame])
    rad = machine.h_num * machine.omega_rev0[turn] * machine.dtbin
    length = (up - low) * rad
    phi = machine.phi0[turn]
    start = optimize.newton(func=physics.phase_low_mch, x0=phi - length / 2, fprime=physics.dphase_low_mch, tol=0.0001,
                            maxiter=100, args=(machine, length, turn))
    return low + (phi - start) / rad, low, up


# ---------------------------------------------------------------- post-processing
def area_rms(sigma_t: float, sigma_e: float):
    return np.pi * sigma_e * sigma_t


def spread(histogram: np.ndarray, bins: np.ndarray):
    b = bins.flatten()
    h = histogram.flatten()
    mid = b + (b[1] - b[0]) / 2
    mean = np.sum(mid * h) / h.sum()
    return np.sqrt(np.sum(h * (mid - mean) ** 2) / h.sum())


def spread_recorded(histogram: np.ndarray, bins: np.ndarray):
    """the recorded defect: the mean is not summed over the bins."""
    b = bins.flatten()
    h = histogram.flatten()
    mid = b + (b[1] - b[0]) / 2
    return np.sqrt(np.sum(h * (mid - mid * h / h.sum()) ** 2) / h.sum())


def momentum_spread(energy_std: float, energy: float, mass: float):
    p = np.sqrt(energy ** 2 - mass ** 2)
    return (np.sqrt((energy + energy_std) ** 2 - mass ** 2) - p) / p


def area_fraction(histogram: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray, fraction: float = 90):
    """as many of the fullest cells as it takes to hold the fraction, less one, times the cell size."""
    if fraction > 100 or fraction < 0:
        raise ValueError()
    h = (histogram / histogram.sum()).ravel()
    h[::-1].sort()
    n = np.argmax(h.cumsum() >= fraction / 100 * h.sum())
    return n * (t_bins[1] - t_bins[0]) * (e_bins[1] - e_bins[0])


def area_90(phase_space: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray):
    return area_fraction(phase_space, t_bins, e_bins, 90)


def area_rms_of(histogram: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray):
    return area_rms(spread(np.sum(histogram, axis=1), t_bins), spread(np.sum(histogram, axis=0), e_bins))


def area_rms_of_recorded(histogram: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray):
    return area_rms(spread_recorded(np.sum(histogram, axis=1), t_bins),
                    spread_recorded(np.sum(histogram, axis=0), e_bins))


def momentum_spread_of(energy_proj: np.ndarray, energy_bins: np.ndarray, energy: float, mass: float):
    return momentum_spread(spread(energy_proj, energy_bins), energy, mass)


def momentum_spread_of_recorded(energy_proj: np.ndarray, energy_bins: np.ndarray, energy: float, mass: float):
    return momentum_spread(spread_recorded(energy_proj, energy_bins), energy, mass)


def quality(phase_space: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray, energy: float, mass: float):
    return {'emittance_rms': area_rms_of(phase_space, t_bins, e_bins),
            'emittance_90': area_90(phase_space, t_bins, e_bins),
            'rms_dp/p': momentum_spread_of(np.sum(phase_space, axis=0), e_bins, energy, mass)}


def quality_recorded(phase_space: np.ndarray, t_bins: np.ndarray, e_bins: np.ndarray, energy: float, mass: float):
    return {'emittance_rms': area_rms_of_recorded(phase_space, t_bins, e_bins),
            'emittance_90': area_90(phase_space, t_bins, e_bins),
            'rms_dp/p': momentum_spread_of_recorded(np.sum(phase_space, axis=0), e_bins, energy, mass)}
