"""Progress-saving builds under faults, shared by C01, C02, C05 and C14."""
import logging
import os
import shutil

from sim import grids
from sim.faults import place

TEMP = grids.TEMP
DIR = "./" + TEMP


class Rows:
    """Counts the rows a call builds: progress bars as long as a row."""

    def __init__(self, world, spec):
        self.world, self.num_x = world, spec["p"][2]

    def __call__(self):
        return sum(1 for b in self.world.bars if b == self.num_x)


def dry_run(world, spec, level=logging.CRITICAL, lines=False):
    """An undisturbed progress-saving build: what it makes, what it counts."""
    kind, grid = world.run(
        lambda: grids.build(world.mod, spec, True, level), lines=lines)
    rows = Rows(world, spec)()
    events = list(world.events)
    counts = world.counts()
    return kind, grid, rows, counts, events


def start(world, spec, faults, level=logging.CRITICAL, label="build"):
    M = world.mod
    return world.run(lambda: grids.build(M, spec, True, level), faults,
                     label=label)


def resume(world, faults, level=logging.CRITICAL, where=DIR, label="resume"):
    M = world.mod
    return world.run(lambda: M.Shallot.ShallotGrid.load(where, level),
                     faults, label=label)


def has_checkpoint(world):
    return os.path.exists(os.path.join(world.work, TEMP))


def scaled(counts, share):
    """Estimated counts of a build that has only a share left to do."""
    out = {k: max(1, int(v * share)) for k, v in counts.items()
           if k not in ("lines", "files")}
    # the last part of the whole build, moved to the front
    skip = counts["interrupt-line"] - out["interrupt-line"]
    lines = {k: [t - skip for t in v if t >= skip]
             for k, v in counts["lines"].items()}
    out["lines"] = {k: v for k, v in lines.items() if v}
    out["files"] = {}
    for kind, files in counts["files"].items():
        skip = counts[kind] - out[kind]
        files = {k: [t - skip for t in v if t >= skip]
                 for k, v in files.items()}
        out["files"][kind] = {k: v for k, v in files.items() if v}
    return out
