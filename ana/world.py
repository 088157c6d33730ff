"""what the current check run works on"""
EXPORTS = {}
SEED = 1
TIER = "quick"


def prog(feat="stats"):
    return EXPORTS[feat]


def seeds(k=3):
    return tuple(SEED * 100 + i for i in range(1, k + 1))
