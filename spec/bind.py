"""What the functions of the extension module do, as seen from Python (arrays are row major buffers)."""
import numpy as np
from math import sin


def report(callback, done, total):
    if callback is not None:
        callback(done, total)


# ---------------------------------------------------------------- one turn
def kick_up(dphi, denergy, rfv1, rfv2, phi0, phi12, h_ratio, n_particles, acc_kick):
    for i in range(n_particles):
        denergy[i] += rfv1 * sin(dphi[i] + phi0) + rfv2 * sin(h_ratio * (dphi[i] + phi0 - phi12)) - acc_kick


def kick_down(dphi, denergy, rfv1, rfv2, phi0, phi12, h_ratio, n_particles, acc_kick):
    for i in range(n_particles):
        denergy[i] -= rfv1 * sin(dphi[i] + phi0) + rfv2 * sin(h_ratio * (dphi[i] + phi0 - phi12)) - acc_kick


def drift_up(dphi, denergy, drift_coef, n_particles):
    for i in range(n_particles):
        dphi[i] -= drift_coef * denergy[i]


def drift_down(dphi, denergy, drift_coef, n_particles):
    for i in range(n_particles):
        dphi[i] += drift_coef * denergy[i]


def kick(machine, denergy, dphi, rfv1, rfv2, npart, turn, up=True):
    if up:
        kick_up(dphi, denergy, rfv1[turn], rfv2[turn], machine.phi0[turn], machine.phi12, machine.h_ratio, npart,
                machine.deltaE0[turn])
    else:
        kick_down(dphi, denergy, rfv1[turn], rfv2[turn], machine.phi0[turn], machine.phi12, machine.h_ratio, npart,
                  machine.deltaE0[turn])
    return denergy


def drift(denergy, dphi, drift_coef, npart, turn, up=True):
    if up:
        drift_up(dphi, denergy, drift_coef[turn], npart)
    else:
        drift_down(dphi, denergy, drift_coef[turn], npart)
    return dphi


# ---------------------------------------------------------------- tracking
def keep(xp, yp, dphi, denergy, profile, nparts):
    for i in range(nparts):
        xp[profile * nparts + i] = dphi[i]
        yp[profile * nparts + i] = denergy[i]


def track(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns, rec_prof, deltaturn,
          nturns, nparts, callback):
    """row p of xp/yp is the state at turn p*dturns; one report per turn. phi12: value at each turn."""
    profile = rec_prof - 1 if deltaturn < 0 else rec_prof
    turn = rec_prof * dturns + deltaturn
    keep(xp, yp, dphi, denergy, profile, nparts)
    done = 0
    total = nturns - deltaturn if deltaturn < 0 else nturns
    while turn < nturns:
        drift_up(dphi, denergy, drift_coef[turn], nparts)
        turn += 1
        kick_up(dphi, denergy, rfv1[turn], rfv2[turn], phi0[turn], phi12[turn], h_ratio, nparts, deltaE0[turn])
        if turn % dturns == 0:
            profile += 1
            keep(xp, yp, dphi, denergy, profile, nparts)
        done += 1
        report(callback, done, total)
    profile = rec_prof
    turn = rec_prof * dturns
    if deltaturn > 0:
        profile = rec_prof + 1
        turn = rec_prof * dturns + deltaturn
    if profile > 0:
        for i in range(nparts):
            dphi[i] = xp[rec_prof * nparts + i]
            denergy[i] = yp[rec_prof * nparts + i]
        while turn > 0:
            kick_down(dphi, denergy, rfv1[turn], rfv2[turn], phi0[turn], phi12[turn], h_ratio, nparts, deltaE0[turn])
            turn -= 1
            drift_down(dphi, denergy, drift_coef[turn], nparts)
            if turn % dturns == 0:
                profile -= 1
                keep(xp, yp, dphi, denergy, profile, nparts)
            done += 1
            report(callback, done, total)


def track_array(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns, rec_prof,
                deltaturn, nturns, nparts, ftn_out=False, callback=None):
    track(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns, rec_prof, deltaturn,
          nturns, nparts, callback)
    return xp, yp


def track_scalar(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, phi12, h_ratio, dturns, rec_prof,
                 deltaturn, nturns, nparts, ftn_out=False, callback=None):
    track(xp, yp, denergy, dphi, rfv1, rfv2, phi0, deltaE0, drift_coef, np.full(nturns + 1, phi12), h_ratio, dturns,
          rec_prof, deltaturn, nturns, nparts, callback)
    return xp, yp


def track_machine(xp, yp, denergy, dphi, rfv1, rfv2, machine, rec_prof, deltaturn, nturns, nparts, ftn_out=False,
                  callback=None):
    track(xp, yp, denergy, dphi, rfv1, rfv2, machine.phi0, machine.deltaE0, machine.drift_coef,
          np.full(nturns + 1, machine.phi12), machine.h_ratio, machine.dturns, rec_prof, deltaturn, nturns, nparts,
          callback)
    return xp, yp


# ---------------------------------------------------------------- reconstruction
def back(weights, points, profiles, npart, nprof):
    for i in range(npart):
        for j in range(nprof):
            weights[i] += profiles[points[i * nprof + j]]


def forward(rec, points, weights, npart, nprof):
    for i in range(npart):
        for j in range(nprof):
            rec[points[i * nprof + j]] += weights[i]


def back_project(weights, flat_points, flat_profiles, n_particles, n_profiles):
    back(weights, flat_points, flat_profiles, n_particles, n_profiles)
    return weights


def project(flat_rec, flat_points, weights, n_particles, n_profiles, n_bins):
    forward(flat_rec, flat_points, weights, n_particles, n_profiles)
    return flat_rec


def count(parts, xp, nprof, npart, nbins):
    for i in range(npart):
        for j in range(nprof):
            parts[j * nbins + xp[i * nprof + j]] += 1


def count_particles(input_parts, input_xp, n_profiles, n_particles, n_bins):
    count(input_parts, input_xp, n_profiles, n_particles, n_bins)
    return input_parts


def count_multi(parts, xp, centers, nprof, npart, nbins, ncent):
    for c in range(ncent):
        for i in range(npart):
            for j in range(nprof):
                b = xp[i * nprof + j] + centers[c]
                parts[j * nbins + b] += 1


def count_particles_multi(input_parts, input_xp, input_centers, n_profiles, n_particles, n_bins, n_centers):
    count_multi(input_parts, input_xp, input_centers, n_profiles, n_particles, n_bins, n_centers)
    return input_parts


def normalize(rec, nprof, nbins):
    total = 0.0
    for i in range(nprof):
        s = 0.0
        for j in range(nbins):
            s += rec[i * nbins + j]
        for j in range(nbins):
            rec[i * nbins + j] /= s
        total += s
    if total <= 0:
        raise RuntimeError()


def clip(a, n):
    for i in range(n):
        if a[i] < 0:
            a[i] = 0.0


def reciprocal(parts, n):
    """largest count over the count, empty bins counting one."""
    m = 0.0
    for i in range(n):
        if m < parts[i]:
            m = parts[i]
    m = int(m)
    for i in range(n):
        if parts[i] == 0.0:
            parts[i] = 1.0
    for i in range(n):
        parts[i] = m / parts[i]


def positive(w, n):
    s = 0.0
    for i in range(n):
        s += w[i]
    if s <= 0:
        raise RuntimeError()


def flat_points(xp, points, npart, nprof, nbins):
    for i in range(npart):
        for j in range(nprof):
            points[i * nprof + j] = xp[i * nprof + j] + nbins * j


def rms(diff, n):
    s = 0.0
    for i in range(n):
        s += diff[i] ** 2
    return np.sqrt(s / n)


def reconstruct(xp, waterfall, n_iter, n_bins, n_particles, n_profiles, verbose=False, callback=None):
    """discr[k]: rms difference of the k-th projection to the measured profiles; rec: the last projection."""
    n = n_profiles * n_bins
    weights = np.zeros(n_particles)
    discr = np.zeros(n_iter + 1)
    rec = np.zeros(n)
    diff = np.zeros(n)
    parts = np.zeros(n)
    points = np.zeros(n_particles * n_profiles)
    count(parts, xp, n_profiles, n_particles, n_bins)
    reciprocal(parts, n)
    flat_points(xp, points, n_particles, n_profiles, n_bins)
    back(weights, points, waterfall, n_particles, n_profiles)
    clip(weights, n_particles)
    positive(weights, n_particles)
    for it in range(n_iter):
        for i in range(n):
            rec[i] = 0.0
        forward(rec, points, weights, n_particles, n_profiles)
        normalize(rec, n_profiles, n_bins)
        for i in range(n):
            diff[i] = waterfall[i] - rec[i]
        discr[it] = rms(diff, n)
        for i in range(n):
            diff[i] *= parts[i]
        back(weights, points, diff, n_particles, n_profiles)
        clip(weights, n_particles)
        positive(weights, n_particles)
        report(callback, it + 1, n_iter)
    for i in range(n):
        rec[i] = 0.0
    forward(rec, points, weights, n_particles, n_profiles)
    normalize(rec, n_profiles, n_bins)
    for i in range(n):
        diff[i] = waterfall[i] - rec[i]
    discr[n_iter] = rms(diff, n)
    report(callback, n_iter, n_iter)
    return weights.reshape((n_particles,)), discr.reshape((n_iter + 1,)), rec.reshape((n_profiles, n_bins))


# ---------------------------------------------------------------- several bunches
def back_multi(weights, points, profiles, mask, centers, npart, nprof, ncent):
    for c in range(ncent):
        for i in range(npart):
            for j in range(nprof):
                if mask[i + c * npart]:
                    weights[i + c * npart] += profiles[points[i * nprof + j] + centers[c]]


def forward_multi(rec, points, weights, centers, npart, nprof, ncent):
    for c in range(ncent):
        for i in range(npart):
            for j in range(nprof):
                rec[points[i * nprof + j] + centers[c]] += weights[i + c * npart]


def within(mask, xp, centers, left, right, npart, nprof, ncent):
    """a particle belongs to bunch c while it stays between the cuts of c in every profile."""
    for i in range(npart * ncent):
        mask[i] = True
    for c in range(ncent):
        for i in range(npart):
            for j in range(nprof):
                b = xp[i * nprof + j] + centers[c]
                if b < left[c] or b > right[c]:
                    mask[i + c * npart] = False


def rms_multi(diff, out, left, right, it, nprof, nbins, ncent):
    """one value per bunch, over its own window."""
    for c in range(ncent):
        s = 0.0
        for i in range(nprof):
            for j in range(left[c], right[c]):
                s += diff[i * nbins + j] ** 2
        out[it * ncent + c] = np.sqrt(s / (nprof * (right[c] - left[c])))


def reconstruct_multi(xp, waterfall, inp_cutleft, inpt_cutright, inp_centers, n_iter, n_bins, n_particles, n_profiles,
                      n_centers, verbose=False, callback=None):
    left, right, centers = inp_cutleft, inpt_cutright, inp_centers
    n = n_profiles * n_bins
    weights = np.zeros(n_particles * n_centers)
    discr = np.zeros(n_iter + 1)
    split = np.zeros(n_centers * (n_iter + 1))
    rec = np.zeros(n)
    diff = np.zeros(n)
    parts = np.zeros(n)
    points = np.zeros(n_particles * n_profiles)
    mask = np.zeros(n_particles * n_centers)
    within(mask, xp, centers, left, right, n_particles, n_profiles, n_centers)
    count_multi(parts, xp, centers, n_profiles, n_particles, n_bins, n_centers)
    reciprocal(parts, n)
    flat_points(xp, points, n_particles, n_profiles, n_bins)
    back_multi(weights, points, waterfall, mask, centers, n_particles, n_profiles, n_centers)
    clip(weights, n_particles * n_centers)
    positive(weights, n_particles * n_centers)
    for it in range(n_iter):
        for i in range(n):
            rec[i] = 0.0
        forward_multi(rec, points, weights, centers, n_particles, n_profiles, n_centers)
        normalize(rec, n_profiles, n_bins)
        for i in range(n):
            diff[i] = waterfall[i] - rec[i]
        discr[it] = rms(diff, n)
        rms_multi(diff, split, left, right, it, n_profiles, n_bins, n_centers)
        for i in range(n):
            diff[i] *= parts[i]
        back_multi(weights, points, diff, mask, centers, n_particles, n_profiles, n_centers)
        clip(weights, n_particles * n_centers)
        positive(weights, n_particles * n_centers)
        report(callback, it + 1, n_iter)
    for i in range(n):
        rec[i] = 0.0
    forward_multi(rec, points, weights, centers, n_particles, n_profiles, n_centers)
    normalize(rec, n_profiles, n_bins)
    for i in range(n):
        diff[i] = waterfall[i] - rec[i]
    discr[n_iter] = rms(diff, n)
    rms_multi(diff, split, left, right, n_iter, n_profiles, n_bins, n_centers)
    report(callback, n_iter, n_iter)
    return weights.reshape((n_particles * n_centers,)), discr.reshape((n_iter + 1,)), \
        split.reshape((n_centers * (n_iter + 1),)), rec.reshape((n_profiles, n_bins))


# ---------------------------------------------------------------- phase space
def make_phase_space(xp, yp, weights, n_bins):
    image = np.zeros(n_bins * n_bins)
    for i in range(xp.shape[0]):
        if xp[i] < 0 or xp[i] >= n_bins or yp[i] < 0 or yp[i] >= n_bins:
            raise IndexError()
        image[xp[i] * n_bins + yp[i]] += weights[i]
    return image.reshape((n_bins, n_bins))
