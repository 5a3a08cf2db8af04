"""os.urandom and the random module behind the kernel.

Inside a run every draw comes from a generator seeded by the plan.  In
adversarial mode a share of the draws is replaced by the extremes of what the
real source could yield (never all of them, so that rejection loops over a
fair source still end with probability one)."""
import os
import random

from . import kernel

_real_urandom = os.urandom


class SimRandom(random.Random):
    def __init__(self, seed, extreme=0.0):
        self.extreme = 0.0
        random.Random.__init__(self, seed)
        self.extreme = extreme
        self.ctl = random.Random('ctl:%r' % (seed,))
        self.draws = 0
        self.extremes = 0

    def _ext(self):
        self.draws += 1
        if self.extreme and self.ctl.random() < self.extreme:
            self.extremes += 1
            return True
        return False

    def random(self):
        if self._ext():
            return self.ctl.choice((0.0, 0.0, 1 - 2.0 ** -53, 1 - 2.0 ** -53, 2.0 ** -53, 0.5))
        return random.Random.random(self)

    def _randbelow(self, n, *a, **k):
        if n <= 0:
            return 0                    # as the real one does
        if self._ext():
            return self.ctl.choice((0, n - 1))
        return int(random.Random.getrandbits(self, n.bit_length() + 32) % n)

    def seed(self, a=None, version=2):
        if a is None:
            return
        random.Random.seed(self, a, version)


_real_inst = random._inst
_NAMES = ('random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices',
          'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate', 'gammavariate', 'gauss',
          'betavariate', 'paretovariate', 'weibullvariate', 'getrandbits', 'seed', 'getstate', 'setstate')


def _inst():
    sim = kernel.S.sim
    if sim is None:
        return _real_inst
    r = getattr(sim, 'random', None)
    if r is None:
        r = sim.random = SimRandom(0)
    return r


def _fwd(name):
    def f(*a, **k):
        return getattr(_inst(), name)(*a, **k)
    f.__name__ = name
    return f


def urandom(n):
    sim = kernel.S.sim
    if sim is None:
        return _real_urandom(n)
    sim.count('urandom')
    hook = getattr(sim, 'urandom_hook', None)
    if hook is not None:
        r = hook(n)
        if r is not None:
            return r
    return bytes(bytearray(random.Random.getrandbits(_inst(), 8) for _ in range(n)))


def install():
    os.urandom = urandom
    random._urandom = urandom
    for n in _NAMES:
        if hasattr(random, n):
            setattr(random, n, _fwd(n))
