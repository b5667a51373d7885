"""C02: what the part of a worker depends on."""
from lib import *
from shards import *
from pipeline import *


class Rotation(Contract):
    """The datasets of a training mixture continue the rotation: each is built with the number of samples before it, modulo the global workers."""
    name = "TaskEncoder.build_train_datasets [rotation]"
    covers = ("mixture",)
    bounded = "2 to 4 datasets of any length, any number of workers and ranks"

    def size(self, P):
        W = P.int("workers", 1)
        nw = W if P.choose(2) else 0
        if nw == 0:
            P.assume(W == 1)
        world = P.int("world", 1)
        G = W * world
        P.lemma("there is a worker", G >= 1)
        return world, nw, G


    def run(self, P):
        record(self)
        n = P.choose(3) + 2
        world, nw, G = self.size(P)
        wc = WC(rank=0, world_size=world, num_workers=nw)
        fs = [Factory(i, P.int(f"len{i}", 0)) for i in range(n)]
        Plain().build_train_datasets(datasets=[(x, 1.0) for x in fs], worker_config=wc, batch_size=None)
        P.cover("mixture")
        before = 0
        for x in fs:
            P.prove("every dataset is built once", len(x.built) == 1)
            P.prove("a dataset continues the rotation where the samples before it stopped", x.built[0] % G == before % G)
            before = before + x.length


class RotationSizes(Rotation):
    name = "TaskEncoder.build_train_datasets [rotation, given sizes]"
    bounded = "2 to 4 datasets of any length, up to 6 global workers"

    def size(self, P):
        world, nw = SIZES[P.choose(len(SIZES))]
        return world, nw, world * max(nw, 1)


CONTRACTS = [SameForRanks, Rotation, RotationSizes] + [surplus(n) for n in range(1, 9 if THOROUGH else 7)]
