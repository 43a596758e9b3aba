"""Reference casts of utils.tomo_config."""
import numpy as np
from longitudinal_tomography.utils.tomo_config import AppConfig


def to_cpu(arr):
    if hasattr(arr, 'get'):
        return arr.get().astype(AppConfig.get_precision())
    return np.array(arr, dtype=AppConfig.get_precision())


def to_gpu(arr):
    import cupy
    return cupy.array(arr, dtype=AppConfig.get_precision())
