"""Old names: what each of them stands for."""
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.compat import fortran
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.data import data_treatment, pre_process
from longitudinal_tomography.utils import data_treatment as utils_data_treatment, tomo_output


# ------------------------------------------------ a moved function reached through its old name, by position and by keyword
def save_profile(profiles: np.ndarray, recprof: int, output_dir: str):
    return tomo_output.save_profile_ftn(profiles, recprof, output_dir)


def save_profile_kw(profiles: np.ndarray, recprof: int, output_dir: str):
    return tomo_output.save_profile_ftn(profiles, output_dir=output_dir, recprof=recprof)


def save_self_volt_profile(self_fields: np.ndarray, output_dir: str):
    return tomo_output.save_self_volt_profile_ftn(self_fields, output_dir)


def save_self_volt_profile_kw(self_fields: np.ndarray, output_dir: str):
    return tomo_output.save_self_volt_profile_ftn(output_dir=output_dir, self_fields=self_fields)


def save_phase_space(image: np.ndarray, recprof: int, output_path: str):
    return tomo_output.save_phase_space_ftn(image, recprof, output_path)


def save_phase_space_kw(image: np.ndarray, recprof: int, output_path: str):
    return tomo_output.save_phase_space_ftn(image, output_path=output_path, recprof=recprof)


def write_plotinfo(machine: 'Machine', particles: 'Particles', profile_charge: float):
    return tomo_output.write_plotinfo_ftn(machine, particles, profile_charge)


def write_plotinfo_kw(machine: 'Machine', particles: 'Particles', profile_charge: float):
    return tomo_output.write_plotinfo_ftn(machine, profile_charge=profile_charge, particles=particles)


def save_difference(diff: np.ndarray, output_path: str, recprof: int):
    return tomo_output.save_difference_ftn(diff, output_path, recprof)


def save_difference_kw(diff: np.ndarray, output_path: str, recprof: int):
    return tomo_output.save_difference_ftn(diff, recprof=recprof, output_path=output_path)


def print_tracking_status(ref_prof: int, to_profile: int):
    return tomo_output.print_tracking_status_ftn(ref_prof, to_profile)


def print_tracking_status_kw(ref_prof: int, to_profile: int):
    return tomo_output.print_tracking_status_ftn(to_profile=to_profile, ref_prof=ref_prof)


def calc_baseline(waterfall: np.ndarray, ref_prof: int, percent: float = 0.05):
    return data_treatment.calc_baseline_ftn(waterfall, ref_prof, percent)


def rebin(waterfall: np.ndarray, rbn: int, dtbin: float = None, synch_part_x: float = None):
    return data_treatment.rebin(waterfall, rbn, dtbin, synch_part_x)


def rebin_kw(waterfall: np.ndarray, rbn: int, dtbin: float = None, synch_part_x: float = None):
    return utils_data_treatment.rebin(waterfall, rbn, synch_part_x=synch_part_x, dtbin=dtbin)


def fit_synch_part_x(profiles):
    return data_treatment.fit_synch_part_x(profiles)


def fit_synch_part_x_utils(profiles):
    return utils_data_treatment.fit_synch_part_x(profiles)


def phase_space(tomo, machine, reconstr_idx: int = 0):
    return utils_data_treatment.phase_space(tomo, machine, reconstr_idx)


# ------------------------------------------------ wrappers of compiled functions
def make_phase_space(xp: np.ndarray, yp: np.ndarray, weights: np.ndarray, nbins: int):
    return libtomo.make_phase_space(xp, yp, weights, nbins)


def kick(machine, denergy: np.ndarray, dphi: np.ndarray, rfv1: np.ndarray, rfv2: np.ndarray, npart: int, turn: int,
         up: bool = True):
    return libtomo.kick(machine, denergy, dphi, rfv1, rfv2, npart, turn, up)


def drift(denergy: np.ndarray, dphi: np.ndarray, drift_coef: np.ndarray, npart: int, turn: int, up: bool = True):
    return libtomo.drift(denergy, dphi, drift_coef, npart, turn, up)


def kick_and_drift(xp: np.ndarray, yp: np.ndarray, denergy: np.ndarray, dphi: np.ndarray, rfv1: np.ndarray, rfv2: np.ndarray,
                   rec_prof: int, nturns: int, nparts: int, phi0: np.ndarray = None, deltaE0: np.ndarray = None,
                   omega_rev0: np.ndarray = None, drift_coef: np.ndarray = None, phi12: float = None, h_ratio: float = None,
                   dturns: int = None, machine=None, ftn_out: bool = False):
    if machine is not None:
        return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, machine, rec_prof, 0, nturns, nparts, ftn_out)
    if phi0 is None or deltaE0 is None or omega_rev0 is None or drift_coef is None or phi12 is None or h_ratio is None \
            or dturns is None:
        raise expt.InputError()
    return libtomo.kick_and_drift(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns,
                                  rec_prof, 0, nturns, nparts, ftn_out)


def back_project(weights: np.ndarray, flat_points: np.ndarray, flat_profiles: np.ndarray, nparts: int, nprofs: int):
    return libtomo.back_project(weights, flat_points, flat_profiles, nparts, nprofs)


def project(recreated: np.ndarray, flat_points: np.ndarray, weights: np.ndarray, nparts: int, nprofs: int, nbins: int):
    return libtomo.project(recreated, flat_points, weights, nparts, nprofs, nbins)


def reconstruct(xp: np.ndarray, waterfall: np.ndarray, niter: int, nbins: int, npart: int, nprof: int, verbose: bool):
    return libtomo.reconstruct(xp, waterfall, niter, nbins, npart, nprof, verbose)
