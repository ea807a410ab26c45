"""Eager execution of the TensorFlow code, so that every combine operation can be scheduled."""
import math

import numpy as np


class Eager:
    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        import tensorflow as tf
        self.old = tf.config.functions_run_eagerly()
        tf.config.run_functions_eagerly(self.on)
        return self

    def __exit__(self, *a):
        import tensorflow as tf
        tf.config.run_functions_eagerly(self.old)
        return False


def levels(mp):
    return max(math.ceil(math.log2(mp)), 1)


def smallest_limit(n):
    """Smallest parallelism limit whose level count admits a scan over n elements."""
    need = 1
    while 2 ** (need + 1) <= n:
        need += 1
    return 1 if need == 1 else 2 ** (need - 1) + 1


def pick_limit(ch, n):
    """An admissible max_parallel for n scan elements; None means: leave the default."""
    lo = smallest_limit(n)
    return ch.weighted([(None, 2), (lo, 3), (lo + 1, 1), (n, 2), (max(n - 1, lo), 1), (10000, 1), (2 * n + 3, 1)])


def arrs(t):
    """Rows of a tensor as NumPy arrays."""
    return list(np.asarray(t))
