"""C02: a transfer function survives being saved as edi."""
from . import tfio

ID = "C02"
TIMEOUT = 120
FMT = "edi"


def generate(rng, tier, idx):
    return tfio.generate(rng, tier, idx, FMT)


def execute(plan, world):
    return tfio.execute(plan, world, FMT)


def warm():
    tfio.warm()
