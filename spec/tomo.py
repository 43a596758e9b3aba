"""Reconstruction: input checks, iteration, discrepancy."""
import numpy as np
from longitudinal_tomography import exceptions as expt
from longitudinal_tomography.cpp_routines import libtomo
from longitudinal_tomography.tomography.tomography import Tomography
from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
from longitudinal_tomography.tomography.__tomography import TomographyABC
from longitudinal_tomography.utils import tomo_config as conf


def unit_area(w):
    if not w.any():
        raise expt.WaterfallReducedToZero()
    w /= np.sum(w, axis=1)[:, None]
    return w


def set_x(self: TomographyABC, value):
    if hasattr(value, '__iter__'):
        value = conf.cast(value)
        if value.ndim != 2:
            raise expt.CoordinateImportError()
        if value.shape[1] != self._nprofs:
            raise expt.CoordinateImportError()
        if np.any(value < 0) or np.any(value >= self._nbins):
            raise expt.XPOutOfImageWidthError()
        self._xp = np.ascontiguousarray(value, dtype=np.int32)
        self._nparts = value.shape[0]
    elif value is None:
        self._xp = None
        self._nparts = None
    else:
        raise expt.CoordinateImportError()


def set_y(self: TomographyABC, value):
    if hasattr(value, '__iter__'):
        if self._xp is None:
            raise expt.CoordinateImportError()
        if value.shape != self._xp.shape:
            raise expt.CoordinateImportError()
        self._yp = conf.cast(value).astype(np.int32)
    elif value is None:
        self._yp = None
    else:
        raise expt.CoordinateImportError()


def new(self: Tomography, waterfall, x_coords=None, y_coords=None):
    w = conf.cast(waterfall).clip(0.0)
    self._waterfall = unit_area(w)
    self._nprofs = self._waterfall.shape[0]
    self._nbins = self._waterfall.shape[1]
    self.xp = x_coords
    self.yp = y_coords
    self.recreated = np.zeros(self._waterfall.shape)
    self.diff = None
    self.diff_split = None
    self.weight = None


def run(self: Tomography, niter: int = 20, verbose=False, callback=None):
    if self._xp is None:
        raise expt.CoordinateError()
    w, d, r = libtomo.reconstruct(self._xp, self._waterfall, niter, self._nbins, self._nparts, self._nprofs, verbose,
                                  callback)
    self.weight = w
    self.diff = d
    self.recreated = r
    return w


def discrepancy(self, difference):
    return np.sqrt(np.sum(difference ** 2) / (self._nbins * self._nprofs))


def flat_points(self):
    points = self._xp.copy()
    for i in range(self._nprofs):
        points[:, i] += self._nbins * i
    return np.ascontiguousarray(points).astype(np.int32)


def reciprocal(self):
    ppb = np.zeros((self._nbins, self._nprofs))
    for i in range(self._nprofs):
        for j in range(self._nparts):
            ppb[self._xp[j, i], i] += 1
    ppb[ppb == 0] = 1
    return np.max(ppb) / ppb


def projection(self, points, weight):
    rec = libtomo.project(np.zeros(self.recreated.shape), points, weight, self._nparts, self._nprofs, self._nbins)
    return unit_area(rec)


def run_hybrid(self: Tomography, niter: int = 20, verbose=False):
    if self._xp is None:
        raise expt.CoordinateError()
    self.diff = np.zeros(niter + 1)
    ppb = reciprocal(self)
    points = flat_points(self)
    weight = libtomo.back_project(np.zeros(self._nparts), points, np.ascontiguousarray(self._waterfall.flatten()), self._nparts, self._nprofs)
    weight = weight.clip(0.0)
    for i in range(niter):
        self.recreated = projection(self, points, weight)
        difference = self._waterfall - self.recreated
        self.diff[i] = discrepancy(self, difference)
        difference *= ppb.T
        weight = libtomo.back_project(weight, points, difference.flatten(), self._nparts, self._nprofs)
        weight = weight.clip(0.0)
    self.recreated = projection(self, points, weight)
    difference = self._waterfall - self.recreated
    self.diff[-1] = discrepancy(self, difference)
    return weight


def run_multi(self: Multi, centers, cutleft, cutright, niter: int = 20, verbose=False, callback=None):
    if self._xp is None:
        raise expt.CoordinateError()
    weight, self.diff, split, self.recreated = libtomo.reconstruct_multi(
        self._xp, self._waterfall, cutleft, cutright, centers, niter, self._nbins, self._nparts, self._nprofs,
        len(centers), verbose, callback)
    self.diff_split = split.reshape([niter + 1, len(centers)]).T
    self.weight_combined = weight
    self.weight_split = []
    for i in range(len(centers)):
        self.weight_split.append(weight[i * self._nparts:(i + 1) * self._nparts])
