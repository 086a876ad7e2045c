# Stand-in for pygmo (not installed here), as far as pykep's own tests use it.
import numpy as np


class problem:
    def __init__(self, udp):
        self.udp = udp


class population:
    def __init__(self, prob, n):
        lb, ub = (np.array(x) for x in prob.udp.get_bounds())
        r = np.random.RandomState(3)
        xs = [lb + r.rand(len(lb)) * (ub - lb) for _ in range(n)]
        self.champion_x = min(xs, key=lambda x: prob.udp.fitness(x)[0])
