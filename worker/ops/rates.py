import numpy as np


def stationary(Ws, order):
    from edpyt.rates import stationary_solution
    out = []
    for W in Ws:
        W = np.array(W, float, order=order)
        W0 = W.copy()
        p = np.asarray(stationary_solution(W))
        out.append((p, bool(np.array_equal(W, W0))))
    return out
