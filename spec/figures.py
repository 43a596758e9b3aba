"""Figures of merit of profiles and images (utils/tomographics.py)."""
import numpy as np
import scipy.signal
from scipy.optimize import minimize
from longitudinal_tomography import exceptions as exc


def tangents_of_steps(x: np.ndarray, y: np.ndarray, t_rf: float, apply_filter: bool = True):
    if apply_filter:
        y = scipy.signal.savgol_filter(y, 5, 4)
    above = np.where(y >= 0.15 * np.max(y))[0]
    first = above[0]
    last = above[-1]
    if first < 3 or last + 3 >= len(x):
        raise exc.InvalidProfileError('no room for the fit')
    low = np.polyfit(x[first - 3:first + 3], y[first - 3:first + 3], 1)
    up = np.polyfit(x[last - 2:last + 4], y[last - 2:last + 4], 1)
    a = -low[1] / low[0]
    b = -up[1] / up[0]
    if not (b - a >= 0 and b - a < t_rf):
        raise exc.InvalidProfileError('beyond an RF period')
    return [a, b]


def foot(z):
    """4 * mean / (4 * slope) of the straight line through four points."""
    return 5 * (z[0] + z[1] + z[2] + z[3]) / (6 * (z[3] - z[0]) + 2 * (z[2] - z[1]))


def feet(y: np.ndarray, dx: float = 1):
    top = np.where(y == np.max(y))[0][0]
    below = np.where(y < 0.15 * np.max(y))[0]
    left = below[below < top][-1]
    right = below[below > top][0]
    zl = y[left - 1:left + 3]
    zr = y[right - 2:right + 2]
    a = left - 5 * np.sum(zl) / (6 * (zl[3] - zl[0]) + 2 * (zl[2] - zl[1]))
    b = right - 5 * np.sum(zr) / (6 * (zr[3] - zr[0]) + 2 * (zr[2] - zr[1]))
    return a * dx, b * dx


def upper_foot(y: np.ndarray, x: np.ndarray, level: float = 0.15):
    if level <= 0 or level >= 1:
        raise ValueError('level')
    z = y - np.min(y)
    top = np.where(z == np.max(z))[0][0]
    below = np.where(z < level * np.max(z))[0]
    right = below[below > top][0]
    w = z[right - 2:right + 2]
    b = right - 5 * np.sum(w) / (6 * (w[3] - w[0]) + 2 * (w[2] - w[1]))
    return np.interp(b, np.arange(len(x)), x)


def bucket_length(phi_array: np.ndarray, urf: np.ndarray, phi_0: float, urf_level: float):
    lo = phi_array < phi_0
    hi = phi_array > phi_0
    left = np.interp(0, urf[lo] - urf_level, phi_array[lo])
    u = urf[hi] - urf_level
    order = np.argsort(u)
    right = np.interp(0, u[order], phi_array[hi][order])
    return right - left, right, left


def length_error(urf_level: float, phi_target: float, phi_array: np.ndarray, urf: np.ndarray, phi_0: float):
    return (bucket_length(phi_array, urf, phi_0, urf_level)[0] - phi_target)**2


def matched_area(tomomachine, bunch_length: float, idx_frame: int = None):
    m = tomomachine
    if idx_frame is None:
        idx_frame = m.machine_ref_frame
    turn = int(idx_frame * m.dturns)
    s = m.phi0[turn]
    w = m.omega_rev0[turn]
    g = m.e0[turn] / m.e_rest
    grid = s + np.linspace(-np.pi, np.pi, 1000)
    u = m.vrf1 * (np.cos(s) - np.cos(grid)) + (s - grid) * m.vrf1 * np.sin(s)
    level = minimize(length_error, (np.max(u) - np.min(u)) / 2 + np.min(u), args=(bunch_length * w * m.h_num, grid, u, s),
                     method='Powell')['x']
    total, right, left = bucket_length(grid, u, s, level)
    f = np.linspace(left, right, 1000)
    h = np.abs(np.sqrt(m.q * (g - 1 / g) * m.e_rest / (np.pi * m.h_num * m.eta0[turn])
                       * m.vrf1 * (np.cos(f) - np.cos(left) + (f - left) * np.sin(s))))
    h[np.isnan(h)] = 0
    return 2 / (m.h_num * w) * np.trapz(h, dx=f[1] - f[0])


def accumulated(tomo_image: np.ndarray, dt: float, dE: float):
    d = np.cumsum(-np.sort(-tomo_image.flatten()))
    return d, np.arange(len(d)) * dt * dE


def area_of_share(tomo_image: np.ndarray, dt: float, dE: float, density_target: float = 0.9):
    if density_target <= 0 or density_target >= 1:
        raise ValueError('share')
    d, a = accumulated(tomo_image, dt, dE)
    return np.interp(density_target, d, a)


def moments(tomo_image: np.ndarray, dt: float, dE: float):
    """first axis time, second axis energy; the image adds up to one."""
    i = np.arange(tomo_image.shape[0])
    j = np.arange(tomo_image.shape[1])
    y, x = np.meshgrid(j, i)
    mx = np.sum(tomo_image * x)
    my = np.sum(tomo_image * y)
    vx = np.sum(tomo_image * x**2) - mx**2
    vy = np.sum(tomo_image * y**2) - my**2
    c = np.sum(tomo_image * x * y) - mx * my
    return (np.pi * dt * dE * np.sqrt(vx * vy - c**2), mx * dt, np.sqrt(vx) * dt, (my - tomo_image.shape[1] / 2) * dE, np.sqrt(vy) * dE)


def half_height(m, turn, phase, left):
    """Energy of the trajectory through (left, 0); 0 outside of it."""
    g = m.e0[turn] / m.e_rest
    h = np.abs(np.sqrt(m.q * (g - 1 / g) * m.e_rest / (np.pi * m.h_num * m.eta0[turn])
                       * m.vrf1 * (np.cos(phase) - np.cos(left) + (phase - left) * np.sin(m.phi0[turn]))))
    h[np.isnan(h)] = 0
    return h


def potential(m, s, grid):
    return m.vrf1 * (np.cos(s) - np.cos(grid) + (s - grid) * np.sin(s))


def density_by_area(tomomachine, tomo_image: np.ndarray, time_array: np.ndarray, dE_array: np.ndarray,
                    n_points_amplitude: int = 100, idx_frame: int = None):
    m = tomomachine
    if idx_frame is None:
        idx_frame = m.machine_ref_frame
    turn = int(idx_frame * m.dturns)
    s = m.phi0[turn]
    w = m.omega_rev0[turn]
    grid = s + np.linspace(-np.pi, np.pi, 1000)
    u = potential(m, s, grid)
    phase = (time_array - m.synch_part_x * (time_array[1] - time_array[0])) * (m.h_num * w) + s
    levels = np.linspace(0, np.min(u), n_points_amplitude)
    inside = np.zeros(len(levels))
    mean = np.zeros(len(levels))
    low = np.zeros(len(levels))
    high = np.zeros(len(levels))
    area = np.zeros(len(levels))
    step = dE_array[1] - dE_array[0]
    for k, level in enumerate(levels):
        h = half_height(m, turn, phase, bucket_length(grid, u, s, level)[2])
        total = 0
        n = 0
        edge = 0
        emin = np.inf
        emax = 0
        for i in range(len(time_array)):
            if h[i] != 0:
                r = tomo_image[i]
                j = np.where((dE_array > -h[i]) * (dE_array < h[i]))[0]
                p = j[0]
                q = j[-1]
                top = np.interp(h[i], dE_array[q:q + 2], r[q:q + 2])
                bottom = np.interp(-h[i], dE_array[p - 1:p + 1], r[p - 1:p + 1])
                total += np.trapz(r[j])
                total += np.trapz([r[q], top], dx=(h[i] - dE_array[q]) / step)
                total += np.trapz([bottom, r[p]], dx=(dE_array[p] + h[i]) / step)
                edge += (top + bottom) / 2
                emin = np.min([emin, top, bottom])
                emax = np.max([emax, top, bottom])
                n += 1
        if n != 0:
            inside[k] = total / np.sum(tomo_image)
            mean[k] = edge / n
            low[k] = emin
            high[k] = emax
            area[k] = 2 / (m.h_num * w) * np.trapz(h, dx=phase[1] - phase[0])
    if mean[0] == 0:
        slope = (mean[2] - mean[1]) / (area[2] - area[1])
        mean[0] = mean[1] - slope * area[1]
        low[0] = mean[0]
        high[0] = mean[0]
    return area, mean, low, high, inside


def clip(tomomachine, time_array: np.ndarray, dE_array: np.ndarray, map_tomo_x: np.ndarray, map_tomo_y: np.ndarray,
         weight_tomo: np.ndarray, emittance_target: float, n_points_amplitude: int = 100, idx_frame: int = None):
    m = tomomachine
    if idx_frame is None:
        idx_frame = m.machine_ref_frame
    turn = int(idx_frame * m.dturns)
    s = m.phi0[turn]
    w = m.omega_rev0[turn]
    grid = s + np.linspace(-np.pi, np.pi, 1000)
    u = potential(m, s, grid)
    dt = time_array[1] - time_array[0]
    de = dE_array[1] - dE_array[0]
    phase = (time_array - m.synch_part_x * dt) * (m.h_num * w) + s
    for level in np.linspace(0, np.min(u), n_points_amplitude):
        h = half_height(m, turn, phase, bucket_length(grid, u, s, level)[2])
        if 2 / (m.h_num * w) * np.trapz(h, dx=phase[1] - phase[0]) >= emittance_target:
            break
    new = np.array(weight_tomo)
    ends = np.array([], dtype=int)
    x = map_tomo_x[:, idx_frame]
    y = map_tomo_y[:, idx_frame]
    for i in range(len(time_array) - 1):
        here = (x >= (time_array[i] - time_array[0]) / dt) * (x <= (time_array[i + 1] - time_array[0]) / dt)
        up = (h[i] - dE_array[0]) / de
        down = (-h[i] - dE_array[0]) / de
        new[np.where(here * ((y >= up) | (y <= down)))] = 0
        inner = np.where(here * ((y < up) * (y > down)))[0]
        if len(inner) > 1:
            v = map_tomo_y[inner, idx_frame]
            ends = np.append(ends, inner[v == np.min(v)][0])
            ends = np.append(ends, inner[v == np.max(v)][0])
        elif len(inner) == 1:
            ends = np.append(ends, inner[0])
    return new / np.sum(new) * np.sum(weight_tomo), h, ends
