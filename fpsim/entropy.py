"""The operating system's randomness and process number, decided by the simulator.

Installed before numpy is imported, so that generators made without a seed draw from here too.
"""
import os
import random
import secrets

_gen = random.Random(0)
_pid = os.getpid
PID = 4242


def install():
    secrets.randbits = lambda k: _gen.getrandbits(k)
    secrets.token_bytes = lambda n=32: _gen.randbytes(n)
    os.urandom = lambda n: _gen.randbytes(n)


def reseed(x):
    """unseeded generators made from here on differ from those made after another number"""
    _gen.seed(x)


def enter():
    reseed("run")
    random.seed("run")
    import numpy
    numpy.random.seed(12345)
    os.getpid = lambda: PID


def leave():
    os.getpid = _pid
