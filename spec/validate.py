"""What the validation layer accepts (from the parameter documentation)."""
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils.tomo_input import Frames


def greater(var, var_name, limit, error_class, extra_text=''):
    if not var > limit:
        raise error_class()


def less(var, var_name, limit, error_class, extra_text=''):
    if not var < limit:
        raise error_class()


def equal(var, var_name, limit, error_class, extra_text=''):
    if not var == limit:
        raise error_class()


def not_equal(var, var_name, limit, error_class, extra_text=''):
    if var == limit:
        raise error_class()


def less_or_equal(var, var_name, limit, error_class, extra_text=''):
    if not var <= limit:
        raise error_class()


def greater_or_equal(var, var_name, limit, error_class, extra_text=''):
    if not var >= limit:
        raise error_class()


def in_range(var, var_name, low_lim, up_lim, error_class, extra_text=''):
    if not low_lim <= var <= up_lim:
        raise error_class()


def not_none(var, var_name, error_class):
    if var is None:
        raise error_class()


def valid_particles(xp: np.ndarray, n_bins, msg=''):
    if np.any(np.logical_or(xp < 0, xp >= n_bins)):
        raise expt.InvalidParticleError()


def all_in_range(array: np.ndarray, low_lim, up_lim, error_class, msg='', index_offset=0):
    if np.any(np.logical_or(array < low_lim, array > up_lim)):
        raise error_class()


def all_greater(array: np.ndarray, limit, error_class, msg='', index_offset=0):
    if np.any(array <= limit):
        raise error_class()


def all_greater_eq(array: np.ndarray, limit, error_class, msg='', index_offset=0):
    if np.any(array < limit):
        raise error_class()


def all_less(array: np.ndarray, limit, error_class, msg='', index_offset=0):
    if np.any(array >= limit):
        raise error_class()


def all_less_eq(array: np.ndarray, limit, error_class, msg='', index_offset=0):
    if np.any(array > limit):
        raise error_class()


def some_differs(array: np.ndarray, array_name, limit, error_class, extra_text=''):
    if np.all(array == limit):
        raise error_class()


def machine_input(machine: Machine):
    m = machine
    for v in (m.dtbin, m.dturns, m.niter, m.snpt, m.h_num, m.b0, m.mean_orbit_rad, m.bending_rad, m.e_rest):
        if v is None or v <= 0:
            raise expt.MachineParameterError()
    for v in (m.machine_ref_frame, m.beam_ref_frame, m.h_ratio):
        if v is None or v < 0:
            raise expt.MachineParameterError()
    if m.filmstart is None or m.filmstop is None or m.filmstep is None:
        raise expt.MachineParameterError()
    if m.filmstart < 0 or m.filmstop < m.filmstart or m.filmstep == 0:
        raise expt.MachineParameterError()
    if abs(m.filmstep) > abs(m.filmstop - m.filmstart + 1):
        raise expt.MachineParameterError()
    if m.pickup_sensitivity is not None and m.pickup_sensitivity < 0:
        raise expt.SpaceChargeParameterError()
    if m.g_coupling is not None and m.g_coupling < 0:
        raise expt.SpaceChargeParameterError()


def frame_input(frame: Frames):
    if frame.nframes <= 0:
        raise expt.InputError()
    if frame.skip_frames < 0 or frame.skip_frames > frame.nframes - 1:
        raise expt.InputError()
    if frame.nbins_frame <= 0:
        raise expt.InputError()
    if frame.skip_bins_start < 0 or frame.skip_bins_start > frame.nbins_frame - 1:
        raise expt.InputError()
    if frame.skip_bins_end < 0 or frame.skip_bins_end > frame.nbins_frame - 1:
        raise expt.InputError()
    if frame.skip_bins_start + frame.skip_bins_end >= frame.nbins_frame:
        raise expt.InputError()
    if frame.rebin < 1:
        raise expt.InputError()


def index_ok(index, index_limit, wrap_around=False):
    i = int(index)
    if i >= 0:
        if i >= index_limit:
            raise IndexError()
        return i
    if not wrap_around:
        raise expt.NegativeIndexError()
    if i + index_limit < 0:
        raise IndexError()
    return i + index_limit
