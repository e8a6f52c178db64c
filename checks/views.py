"""Arrays mirrored on host and device."""
from vf.check import Config

from . import prop


@prop("P04", "Coherence of host and device copies")
def p04(c):
    c.rule("every sequence of a write followed by N-1 arbitrary accesses (device or host; read-only, read-write, discard; through the handle, a copy or the constant handle), as one symbolic program: each read returns the last value written wherever it was written; synchronisation state after explicit synchronisation")
    n = 4
    c.count("accesses per sequence", n)
    c.run(["d_dualview.cpp"], ["coherence", "explicit_sync", "handles", "types"], [Config(1)], extra=["-DHV_STEPS=%d" % n])
    if c.tier == "thorough":
        c.run(["d_dualview.cpp"], ["coherence"], [Config(1)], extra=["-DHV_STEPS=5"])
