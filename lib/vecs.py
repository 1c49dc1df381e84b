"""User-side vector objects, inner products and handles for the checks."""
import copy
import gc
import os
import pickle
import time

import numpy as np

import harness

from modred.vectors import (Vector, VecHandle, VecHandleInMemory,
                            VecHandlePickle, VecHandleArrayText)


class PlainVec(Vector):
    """Minimal vector object satisfying the documented interface."""
    def __init__(self, arr):
        self.arr = np.array(arr)

    def __add__(self, other):
        return PlainVec(self.arr + other.arr)

    def __mul__(self, scalar):
        return PlainVec(self.arr * scalar)

    def __eq__(self, other):
        return type(other) == type(self) and np.array_equal(self.arr, other.arr)

    def inner(self, other):
        return np.vdot(self.arr, other.arr)


class CountedVec(Vector):
    """Counts how many instances are alive in this process."""
    live = 0
    peak = 0

    def __init__(self, arr):
        self.arr = arr
        CountedVec._born()

    @classmethod
    def _born(cls):
        CountedVec.live += 1
        if CountedVec.live > CountedVec.peak:
            CountedVec.peak = CountedVec.live

    def __setstate__(self, state):
        self.__dict__.update(state)
        CountedVec._born()

    def __deepcopy__(self, memo):
        return CountedVec(np.array(self.arr))

    def __del__(self):
        CountedVec.live -= 1

    def __add__(self, other):
        return CountedVec(self.arr + other.arr)

    def __mul__(self, scalar):
        return CountedVec(self.arr * scalar)

    @classmethod
    def reset(cls):
        gc.collect()
        CountedVec.live = 0
        CountedVec.peak = 0


def value_of(vec):
    """Numbers held by any of the vector objects used here."""
    return np.array(vec.arr if hasattr(vec, 'arr') else vec)


def ip_arr(v1, v2):
    """Inner product of any of the vector objects used here."""
    a = v1.arr if hasattr(v1, 'arr') else v1
    b = v2.arr if hasattr(v2, 'arr') else v2
    return np.vdot(a, b)


class WeightedIP(object):
    """v1^* W v2 for 1D arrays / PlainVec."""
    def __init__(self, W):
        self.W = W

    def __call__(self, v1, v2):
        a = (v1.arr if hasattr(v1, 'arr') else v1).ravel()
        b = (v2.arr if hasattr(v2, 'arr') else v2).ravel()
        return a.conj().dot(self.W.dot(b))


class CountHandle(object):
    """Makes a new CountedVec at each get, keeps nothing of what is put."""
    def __init__(self, data):
        self.data = data

    def get(self):
        return CountedVec(np.array(self.data))

    def put(self, vec):
        pass


def make_vec(data, vt):
    """The vector object of type `vt` holding the 1D data."""
    data = np.array(data)
    if vt == 'nd2':
        return data.reshape((2, -1))
    if vt == 'plain':
        return PlainVec(data)
    return data


class CopyHandle(object):
    """Minimal user handle: get() makes a new vector, put() keeps the data."""
    def __init__(self, data, vt, env=None):
        self.data, self.vt, self.env = data, vt, env
        self.gets = 0

    def get(self):
        self.gets += 1
        if self.env is not None:
            self.env.hit('get')
        return make_vec(self.data, self.vt)

    def put(self, vec):
        raise RuntimeError('source handle was put to')


def make_handles(X, vt, ht, env=None, name='x'):
    """Handles for the columns of X."""
    cols = [np.ascontiguousarray(X[:, i]) for i in range(X.shape[1])]
    if ht == 'mem':
        return [VecHandleInMemory(make_vec(c, vt)) for c in cols]
    if ht == 'copy':
        return [CopyHandle(c, vt, env) for c in cols]
    if ht == 'based':
        return [based_handle(c, vt, i) for i, c in enumerate(cols)]
    if ht == 'pickle':
        hs = [VecHandlePickle(env.path('%s_%d.pkl' % (name, i)))
              for i in range(len(cols))]
        if env.rank == 0:
            for h, c in zip(hs, cols):
                h.put(make_vec(c, vt))
        env.sync()
        return hs
    raise ValueError(ht)


def based_handle(c, vt, i):
    """In-memory handle whose scale factor and base vector make its value exactly
    c (all factors are powers of two)."""
    stored, base, scale = [(4, 2, .5), (1, 2, -1), (2, 1, None), (4, None, .25),
                           (.25, None, 4)][i % 5]
    return VecHandleInMemory(
        make_vec(c * stored, vt), scale=scale,
        base_vec_handle=None if base is None else VecHandleInMemory(make_vec(c * base, vt)))


def handles_unchanged(hs, X, what):
    for i, h in enumerate(hs):
        got = value_of(h.get()).ravel()
        if not (got.shape == X[:, i].shape and np.array_equal(got, X[:, i])):
            raise harness.Violation('%s %d was modified: %s, was %s' % (
                what, i, got, X[:, i]))
