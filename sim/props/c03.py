"""C03: a transfer function survives being saved as xml."""
from . import tfio

ID = "C03"
TIMEOUT = 120
FMT = "xml"


def generate(rng, tier, idx):
    return tfio.generate(rng, tier, idx, FMT)


def execute(plan, world):
    return tfio.execute(plan, world, FMT)


def warm():
    tfio.warm()
