"""Files and texts written for the Fortran and tomoscope interfaces."""
import os
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.particles import Particles
from longitudinal_tomography.utils import tomo_output


def column(path, values):
    with open(path, 'w') as f:
        for v in values:
            f.write(f' {v:.7E}\n')


def profile(profiles: np.ndarray, recprof: int, output_dir: str):
    column(os.path.join(output_dir, f'profile{recprof + 1:03d}.data'), profiles[recprof].flatten())


def self_volt(self_fields: np.ndarray, output_dir: str):
    column(os.path.join(output_dir, 'vself.data'), self_fields.flatten())


def image(image: np.ndarray, recprof: int, output_path: str):
    with open(os.path.join(output_path, f'image{recprof + 1:03d}.data'), 'w') as f:
        for v in image.flatten():
            f.write(f'  {v:.7E}\n')


def difference(diff: np.ndarray, output_path: str, recprof: int):
    with open(os.path.join(output_path, f'd{recprof + 1:03d}.data'), 'w') as f:
        for i in range(len(diff)):
            f.write(f'         {i:3d}  {diff[i]:.7E}\n')


def status(ref_prof: int, to_profile: int):
    print(f' Tracking from time slice  {ref_prof + 1} to  {to_profile + 1},   0.000% went outside the image width.')


def has_fit(machine):
    for name in ('fitted_synch_part_x', 'bunchlimit_low', 'bunchlimit_up'):
        if not hasattr(machine, name) or getattr(machine, name) is None:
            return False
    return True


def plotinfo(machine: 'Machine', particles: 'Particles', profile_charge: float):
    low, up, fit = 0.0, 0.0, 0.0
    if has_fit(machine):
        low, up, fit = machine.bunchlimit_low, machine.bunchlimit_up, machine.fitted_synch_part_x
    if particles.dEbin is None:
        raise expt.EnergyBinningError()
    if particles.imin is None or particles.imax is None:
        raise expt.PhaseLimitsError()
    n = machine.filmstart
    text = ' plotinfo.data\n'
    text += 'Number of profiles used in each reconstruction,\n'
    text += f' profilecount = {machine.nprofiles}\n'
    text += 'Width (in pixels) of each image = length (in bins) of each profile,\n'
    text += f' profilelength = {machine.nbins}\n'
    text += 'Width (in s) of each pixel = width of each profile bin,\n'
    text += f' dtbin = {machine.dtbin:0.4E}\n'
    text += 'Height (in eV) of each pixel,\n'
    text += f' dEbin = {particles.dEbin:0.4E}\n'
    text += 'Number of elementary charges in each image,\n'
    text += f' eperimage = {profile_charge:0.3E}\n'
    text += 'Position (in pixels) of the reference synchronous point:\n'
    text += f' xat0 =  {machine.synch_part_x:.3f}\n'
    text += f' yat0 =  {machine.synch_part_y:.3f}\n'
    text += 'Foot tangent fit results (in bins):\n'
    text += f' tangentfootl =    {low:.3f}\n'
    text += f' tangentfootu =    {up:.3f}\n'
    text += f' fit xat0 =   {fit:.3f}\n'
    text += 'Synchronous phase (in radians):\n'
    text += f' phi0( {n + 1}) = {machine.phi0[n * machine.dturns]:.4f}\n'
    text += 'Horizontal range (in pixels) of the region in phase space of map elements:\n'
    text += f' imin( {n + 1}) =   {particles.imin} and imax( {n + 1}) =  {particles.imax}'
    return text


def scope_difference(diff: np.ndarray, output_path: str, film: int):
    with open(os.path.join(output_path, f'd{film + 1:03d}.data'), 'w') as f:
        for i in range(len(diff)):
            pad = ' ' * 10
            if i < 10:
                pad += ' '
            f.write(f'{pad}{i}  {diff[i]:.7E}\n')


def scope_image(xp: np.ndarray, yp: np.ndarray, weight: np.ndarray, n_bins: int, film: int, output_path: str):
    picture = tomo_output.create_phase_space_image(xp, yp, weight, n_bins, film)
    with open(os.path.join(output_path, f'image{film + 1:03d}.data'), 'w') as f:
        for v in picture.flatten():
            f.write(f'  {v:.7E}\n')


def scope_profile(prof: np.ndarray, film: int, output_path: str):
    column(os.path.join(output_path, f'profile{film + 1:03d}.data'), prof)


# ---------------------------------------------------------------- printed by the compiled routines
def track_lines(dturns, rec_prof, deltaturn, nturns, ftn_out):
    if not ftn_out:
        return
    profile = rec_prof - 1 if deltaturn < 0 else rec_prof
    for turn in range(rec_prof * dturns + deltaturn + 1, nturns + 1):
        if turn % dturns == 0:
            profile += 1
            status(rec_prof, profile)
    profile = rec_prof
    turn = rec_prof * dturns
    if deltaturn > 0:
        profile = rec_prof + 1
        turn = turn + deltaturn
    if profile > 0:
        while turn > 0:
            turn -= 1
            if turn % dturns == 0:
                profile -= 1
                status(rec_prof, profile)


def track_array(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns, rec_prof,
                deltaturn, nturns, nparts, ftn_out=False, callback=None):
    track_lines(dturns, rec_prof, deltaturn, nturns, ftn_out)


def track_machine(xp, yp, denergy, dphi, rfv1, rfv2, machine, rec_prof, deltaturn, nturns, nparts, ftn_out=False,
                  callback=None):
    track_lines(machine.dturns, rec_prof, deltaturn, nturns, ftn_out)


def iterating(n_iter, verbose):
    if verbose:
        print(' Iterating...')
        for i in range(n_iter):
            print(f'{i + 1:3d}')
        print(' Done!')


def reconstruct(xp, waterfall, n_iter, n_bins, n_particles, n_profiles, verbose=False, callback=None):
    iterating(n_iter, verbose)


def reconstruct_multi(xp, waterfall, inp_cutleft, inpt_cutright, inp_centers, n_iter, n_bins, n_particles, n_profiles,
                      n_centers, verbose=False, callback=None):
    iterating(n_iter, verbose)
