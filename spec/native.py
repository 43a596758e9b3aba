"""What the native routines must compute."""
import numpy as np
from math import sin


# ---------------------------------------------------------------- tracking map
def kick_up(dphi, denergy, rfv1, rfv2, phi0, phi12, h, n, acc):
    for i in range(n):
        denergy[i] += rfv1 * sin(dphi[i] + phi0) + rfv2 * sin(h * (dphi[i] + phi0 - phi12)) - acc


def kick_down(dphi, denergy, rfv1, rfv2, phi0, phi12, h, n, acc):
    for i in range(n):
        denergy[i] -= rfv1 * sin(dphi[i] + phi0) + rfv2 * sin(h * (dphi[i] + phi0 - phi12)) - acc


def drift_up(dphi, denergy, coef, n):
    for i in range(n):
        dphi[i] -= coef * denergy[i]


def drift_down(dphi, denergy, coef, n):
    for i in range(n):
        dphi[i] += coef * denergy[i]


def track(xp, yp, denergy, dphi, rf1v, rf2v, phi0, deltaE0, drift_coef, phi12, hratio, dturns, rec_prof, deltaturn,
          nturns, nparts, ftn_out, callback):
    """row p of xp/yp is the state at turn p*dturns; one report per turn."""
    profile = rec_prof - 1 if deltaturn < 0 else rec_prof
    turn = rec_prof * dturns + deltaturn
    for i in range(nparts):
        xp[profile][i] = dphi[i]
        yp[profile][i] = denergy[i]
    done = 0
    total = nturns - deltaturn if deltaturn < 0 else nturns
    while turn < nturns:
        drift_up(dphi, denergy, drift_coef[turn], nparts)
        turn += 1
        kick_up(dphi, denergy, rf1v[turn], rf2v[turn], phi0[turn], phi12[turn], hratio, nparts, deltaE0[turn])
        if turn % dturns == 0:
            profile += 1
            for i in range(nparts):
                xp[profile][i] = dphi[i]
                yp[profile][i] = denergy[i]
        done += 1
        callback(done, total)
    profile = rec_prof
    turn = rec_prof * dturns
    if deltaturn > 0:
        profile = rec_prof + 1
        turn = rec_prof * dturns + deltaturn
    if profile > 0:
        for i in range(nparts):
            dphi[i] = xp[rec_prof][i]
            denergy[i] = yp[rec_prof][i]
        while turn > 0:
            kick_down(dphi, denergy, rf1v[turn], rf2v[turn], phi0[turn], phi12[turn], hratio, nparts, deltaE0[turn])
            turn -= 1
            drift_down(dphi, denergy, drift_coef[turn], nparts)
            if turn % dturns == 0:
                profile -= 1
                for i in range(nparts):
                    xp[profile][i] = dphi[i]
                    yp[profile][i] = denergy[i]
            done += 1
            callback(done, total)


# ---------------------------------------------------------------- reconstruction
def back_project(weights, points, profiles, npart, nprof):
    for i in range(npart):
        for j in range(nprof):
            weights[i] += profiles[points[i * nprof + j]]


def project(rec, points, weights, npart, nprof):
    for i in range(npart):
        for j in range(nprof):
            rec[points[i * nprof + j]] += weights[i]


def normalize(rec, nprof, nbins):
    total = 0.0
    for i in range(nprof):
        s = 0.0
        for j in range(nbins):
            s += rec[i * nbins + j]
        for j in range(nbins):
            rec[i * nbins + j] /= s
        total += s
    if total <= 0:
        raise RuntimeError()


def clip(a, n, low):
    for i in range(n):
        if a[i] < low:
            a[i] = low


def difference(diff, rec, prof, n):
    for i in range(n):
        diff[i] = prof[i] - rec[i]


def discrepancy(diff, nprof, nbins):
    s = 0.0
    for i in range(nprof * nbins):
        s += diff[i] ** 2
    return np.sqrt(s / (nprof * nbins))


def compensate(diff, rparts, nprof, nbins):
    for i in range(nprof):
        for j in range(nbins):
            diff[i * nbins + j] *= rparts[i * nbins + j]


def largest(a, n):
    m = 0.0
    for i in range(n):
        if m < a[i]:
            m = a[i]
    return m


def total(a, n):
    s = 0.0
    for i in range(n):
        s += a[i]
    return s


def count(parts, xp, nprof, npart, nbins):
    for i in range(npart):
        for j in range(nprof):
            parts[j * nbins + xp[i * nprof + j]] += 1


def reciprocal(parts, xp, nbins, nprof, npart):
    count(parts, xp, nprof, npart, nbins)
    m = int(largest(parts, nprof * nbins))
    for i in range(nprof * nbins):
        if parts[i] == 0.0:
            parts[i] = 1.0
    for i in range(nprof):
        for j in range(nbins):
            parts[i * nbins + j] = m / parts[i * nbins + j]


def flat_points(xp, points, npart, nprof, nbins):
    for i in range(npart):
        for j in range(nprof):
            points[i * nprof + j] = xp[i * nprof + j] + nbins * j


def reconstruct(weights, xp, profiles, rec, discr, niter, nbins, npart, nprof, verbose, callback):
    """the reconstruction: discr[k] is the rms difference of the k-th projection, rec the last projection."""
    n = nprof * nbins
    diff = np.zeros(n)
    parts = np.zeros(n)
    points = np.zeros(npart * nprof)
    reciprocal(parts, xp, nbins, nprof, npart)
    flat_points(xp, points, npart, nprof, nbins)
    back_project(weights, points, profiles, npart, nprof)
    clip(weights, npart, 0.0)
    if total(weights, npart) <= 0:
        raise RuntimeError()
    for it in range(niter):
        for i in range(n):
            rec[i] = 0.0
        project(rec, points, weights, npart, nprof)
        normalize(rec, nprof, nbins)
        difference(diff, rec, profiles, n)
        discr[it] = discrepancy(diff, nprof, nbins)
        compensate(diff, parts, nprof, nbins)
        back_project(weights, points, diff, npart, nprof)
        clip(weights, npart, 0.0)
        if total(weights, npart) <= 0:
            raise RuntimeError()
        callback(it + 1, niter)
    for i in range(n):
        rec[i] = 0.0
    project(rec, points, weights, npart, nprof)
    normalize(rec, nprof, nbins)
    difference(diff, rec, profiles, n)
    discr[niter] = discrepancy(diff, nprof, nbins)
    callback(niter, niter)
