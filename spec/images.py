"""Phase-space images and the complete reconstruction."""
import itertools
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.compat import fortran, tomoscope as scope
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.data import data_treatment, pre_process
from longitudinal_tomography.tomography import tomography
from longitudinal_tomography.tracking import particles, tracking
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils import tomo_input, tomo_output


def picture(xp: np.ndarray, yp: np.ndarray, weight: np.ndarray, n_bins: int, recprof: int):
    raw = libtomo.make_phase_space(xp[:, recprof].astype(int), yp[:, recprof].astype(int), weight, n_bins)
    kept = np.where(raw < 0, 0, raw)
    return kept / np.sum(kept)


def axes(xp, yp, weight, nbins: int, synch_x: float, synch_y: float, dtbin: float, dEbin: float):
    k = np.arange(nbins)
    return dtbin * (k - synch_x), dEbin * (k - synch_y), libtomo.make_phase_space(xp, yp, weight, nbins)


def phase_space(tomo, machine, reconstr_idx: int = 0):
    if machine.dEbin is None:
        raise expt.InputError()
    return axes(tomo.xp[:, reconstr_idx], tomo.yp[:, reconstr_idx], tomo.weight, machine.nbins, machine.synch_part_x,
                machine.synch_part_y, machine.dtbin, machine.dEbin)


def macro(tRange: np.ndarray, ERange: np.ndarray, density: np.ndarray, n_macro: int, threshold: float = 1E-5):
    flat = density.flatten()
    share = flat / np.sum(density)
    flat = np.where(share < threshold, 0, flat)
    n = int(n_macro)
    pick = np.random.choice(flat.shape[0], n, p=flat / np.sum(flat))
    grid = np.array(list(itertools.product(tRange, ERange)))
    t = grid[pick, 0] + (tRange[1] - tRange[0]) * (np.random.random(n) - 0.5)
    e = grid[pick, 1] + (ERange[1] - ERange[0]) * (np.random.random(n) - 0.5)
    return t, e


# ---------------------------------------------------------------- pipelines
def prepared(path):
    params, data = tomo_input.get_user_input(path)
    machine, frames = tomo_input.txt_input_to_machine(params)
    machine.values_at_turns()
    waterfall = frames.to_waterfall(data)
    profiles = tomo_input.raw_data_to_profiles(waterfall, machine, frames.rebin, frames.sampling_time)
    profiles.calc_profilecharge()
    if profiles.machine.synch_part_x < 0:
        machine.load_fitted_synch_part_x_ftn(pre_process.fit_synch_part_x(profiles))
    return machine, profiles


def read_input_file(input_file_path: str):
    machine, profiles = prepared(input_file_path)
    return machine, profiles.waterfall


def track(machine, reconstruction_idx=None, callback=None):
    tracker = tracking.Tracking(machine)
    dphi, denergy = tracker.track(reconstruction_idx, callback=callback)
    x, y = particles.physical_to_coords(dphi, denergy, machine, tracker.particles.xorigin, tracker.particles.dEbin)
    return particles.ready_for_tomography(x, y, machine.nbins)


def tomogram(waterfall: np.ndarray, xp: np.ndarray, yp: np.ndarray, n_iter: int, callback=None):
    tomo = tomography.Tomography(waterfall, xp, yp)
    tomo.run(n_iter, callback=callback)
    return tomo


def run(input: str, reconstruct_profile: bool = None, output_dir: str = None, tomoscope: bool = False, plot: bool = False):
    params, data = tomo_input.get_user_input(input)
    if tomoscope:
        print(' Start')
    machine, frames = tomo_input.txt_input_to_machine(params)
    machine.values_at_turns()
    profiles = tomo_input.raw_data_to_profiles(frames.to_waterfall(data), machine, frames.rebin, frames.sampling_time)
    profiles.calc_profilecharge()
    if machine.synch_part_x < 0:
        machine.load_fitted_synch_part_x_ftn(pre_process.fit_synch_part_x(profiles))
    where = output_dir if output_dir is not None and output_dir != '' else machine.output_dir
    frame = machine.filmstart if reconstruct_profile is None else reconstruct_profile
    tracker = tracking.Tracking(machine)
    if tomoscope:
        tracker.enable_fortran_output(profiles.profile_charge)
    if machine.self_field_flag:
        profiles.calc_self_fields()
        tracker.enable_self_fields(profiles)
        x, y = tracker.track(frame)
    else:
        dphi, de = tracker.track(frame)
        x, y = particles.physical_to_coords(dphi, de, machine, tracker.particles.xorigin, tracker.particles.dEbin)
    x, y = particles.ready_for_tomography(x, y, machine.nbins)
    tomo = tomography.Tomography(profiles.waterfall, x, y)
    weight = tomo.run(niter=machine.niter, verbose=tomoscope)
    if tomoscope:
        for film in range(machine.filmstart, machine.filmstop + 1, machine.filmstep):
            scope.save_image(x, y, weight, machine.nbins, film, where)
            scope.save_profile(tomo.waterfall[film], film, where)
        scope.save_difference(tomo.diff, where, film)
    t, e, image = data_treatment.phase_space(tomo, machine, frame)
    image = np.where(image < 0, 0, image)
    image = image / np.sum(image)
    if plot:
        tomo_output.show(image, tomo.diff, profiles.waterfall[frame])
    return t, e, image
