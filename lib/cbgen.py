"""Random lives of callbacks (parent side)."""
import random
from vf import bits, f32
from train import S, METRICS
NUMS = [bits(x) for x in (-1.0, -0.5, 0.0, -0.0, 0.25, 0.5, 1.0, 1.0000001, 2.0, 1e-30, 3e38, 1e-45, -1e-45, float("inf"), float("-inf"), float("nan"))]
def rbits(r):
    return r.choice(NUMS) if r.random() < 0.4 else bits(f32(r.choice([-1, 1]) * 10 ** r.uniform(-12, 12)))
def others(r, m, valid, idx, v):
    """a result vector with v at the monitored place and anything elsewhere"""
    n = m * (2 if valid else 1)
    res = [rbits(r) for _ in range(n)]
    res[idx if idx >= 0 else (m if valid else 0)] = v
    return res
def metrics(r):
    k = r.choice([0, 1, 1, 2, 2, 3, 5, 7])
    return [r.choice(METRICS) for _ in range(k)]
