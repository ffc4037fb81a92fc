"""Seed derivation and the one PRNG type the simulator draws from.

Every choice of a run - workload, options, data, schedule, faults - is drawn
from a `Rng` derived from (VERIF_SEED, property, run index); nothing else in
the harness is a source of randomness.
"""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    def __new__(cls, *parts):
        return random.Random.__new__(cls)

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def flip(self, p=0.5):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class HarnessError(Exception):
    """The harness, not the code under test, misbehaved."""


class StepLimit(BaseException):
    """The simulated run did not finish within its step budget."""


class TooSlow(BaseException):
    """The run used more CPU time than any legitimate run does."""
