"""C04: a transfer function survives being saved as zmm."""
from . import tfio

ID = "C04"
TIMEOUT = 120
FMT = "zmm"


def generate(rng, tier, idx):
    return tfio.generate(rng, tier, idx, FMT)


def execute(plan, world):
    return tfio.execute(plan, world, FMT)


def warm():
    tfio.warm()
