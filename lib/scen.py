"""Functions run on every rank of an MPI pool (and serially in the check)."""
import copy
import os
import pickle
import time

import numpy as np

import gen
from harness import Violation, fail
import modred as mr
from modred import parallel, util


class Env(object):
    """Rank, size, shared scratch directory and injected delays of one job."""
    def __init__(self, rank, size, scratch, case):
        self.rank, self.size, self.scratch = rank, size, scratch
        self.delays = [d for d in (case.get('delays') or [])
                       if d['rank'] == rank]
        self.counts = {}

    def hit(self, kind):
        """A user callback of this kind runs now: sleep if the case says so."""
        k = self.counts.get(kind, 0)
        self.counts[kind] = k + 1
        for d in self.delays:
            if d['kind'] == kind and d['nth'] in (-1, k):
                time.sleep(d['ms'] / 1000.)

    def sync(self):
        if self.size > 1:
            parallel.comm.Barrier()

    def path(self, name):
        return os.path.join(self.scratch, name)


def assign(case, env):
    import c01
    tasks, w = c01.make_tasks(case), c01.make_weights(case)
    got = parallel.find_assignments(tasks, task_weights=w)
    return got, parallel.check_for_empty_tasks(got)


def c02(case, env):
    import c02
    return c02.scenario(case, env)


def c03(case, env):
    import c03
    return c03.scenario(case, env)


def c04(case, env):
    import c04
    return c04.scenario(case, env)


def ops_run(case, env):
    import ops
    return ops.run(case, env)


def c05_refuse(case, env):
    import c05
    return c05.refuse(case, env)


def c06(case, env):
    import c06
    return c06.scenario(case, env)


def c26(case, env):
    import c26
    return c26.scenario(case, env)


def c29(case, env):
    import c29
    return c29.scenario(case, env)


def c30(case, env):
    import c30
    return c30.scenario(case, env)


def c31(case, env):
    import c31
    return c31.scenario(case, env)
