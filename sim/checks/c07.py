"""C07: a replay whose save succeeded reloads as the same replay."""
from .. import objs
from . import roundtrip

LEVEL = "exploration"
QUICK = 16000
THOROUGH = 800000
CHUNK = 60
RULE = "Each run draws a replay (versions 1, 3, 4; 1-4 players; intent runs around the 8-bit run-length limits; entity desync data), saves it through drawn storage with failed attempts before the good one, and reloads it, with and without announced length, through drawn streams with failed attempts. In some runs one value is more than the format can hold: then the save has to raise or keep it. Oracle: whatever reported success reloads as the reference model's replay and is decoded as that replay by an independent decoder."
REAL = ["dustmaker.dfwriter", "dustmaker.dfreader", "dustmaker.bitio", "dustmaker.replay", "zlib", "io.Buffered* when drawn"]
STUB = ["raw streams and storage medium"]
ASSUME = ["intent values are ones the stream can store; trailing neutral values are equal to absent ones, as PlayerData documents"]


def gen(rng, tier):
    return roundtrip.gen_plan(rng, objs.gen_obj(rng, "replay", dense=0.02), "replay")


def run(plan, world):
    roundtrip.run(plan, world, ("replay",))
