"""Reference Boolean semantics over truth tables kept in big integers.

Bit i of a table is the value at the point whose j-th variable is bit j of i.
"""
from functools import lru_cache


@lru_cache(maxsize=64)
def var_masks(n):
    """The table of each variable, and the full table."""
    size = 1 << n
    full = (1 << size) - 1
    masks = []
    for j in range(n):
        half = 1 << j
        m = ((1 << half) - 1) << half     # low half 0, high half 1
        width = half * 2
        while width < size:
            m |= m << width
            width *= 2
        masks.append(m)
    return masks, full


def conn(op, args, full, lo=None, hi=None):
    """Applies a connective to tables."""
    if op in ("and", "nand"):
        r = full
        for a in args:
            r &= a
        return r ^ full if op == "nand" else r
    if op in ("or", "nor"):
        r = 0
        for a in args:
            r |= a
        return r ^ full if op == "nor" else r
    if op == "xor":
        return args[0] ^ args[1]
    if op == "iff":
        return args[0] ^ args[1] ^ full
    if op == "imply":
        return (args[0] ^ full) | args[1]
    if op == "not":
        return args[0] ^ full
    if op == "null":
        return args[0]
    # cardinality / atleast: cnt[k] = points with exactly k true arguments.
    cnt = [full] + [0] * len(args)
    for a in args:
        na = a ^ full
        for k in range(len(cnt) - 1, 0, -1):
            cnt[k] = (cnt[k] & na) | (cnt[k - 1] & a)
        cnt[0] &= na
    if op == "atleast":
        lo, hi = lo, len(args)
    assert op in ("atleast", "cardinality"), op
    r = 0
    for k in range(lo, hi + 1):
        r |= cnt[k]
    return r


def upward(f, n):
    """The upward closure."""
    for j in range(n):
        half = 1 << j
        m = var_masks(n)[0][j]
        f |= (f & ~m) << half
    return f


def minimal_points(f, n):
    """The points of f that have no proper subset in f (as a table)."""
    if not f:
        return 0
    up = upward(f, n)
    masks, full = var_masks(n)
    # Strictly above some point of the closure.
    above = 0
    for j in range(n):
        above |= (up & ~masks[j] & full) << (1 << j)
    return up & ~above & full


def points(t):
    """The set bits of a table."""
    out = []
    while t:
        b = t & -t
        out.append(b.bit_length() - 1)
        t ^= b
    return out


def cut_sets(f, n):
    """Minimal cut sets as a set of frozensets of variable indices."""
    return {frozenset(j for j in range(n) if p >> j & 1)
            for p in points(minimal_points(f, n))}


def prime_implicants(f, n):
    """All prime implicants as frozensets of (index, positive)."""
    # For every set of eliminated (don't care) variables: the points p (with the
    # eliminated variables zero) at which f holds for all their values.
    masks, full = var_masks(n)
    res = {0: f}           # dc set -> table (valid where dc vars are zero)
    order = sorted(range(1 << n), key=lambda s: bin(s).count("1"))
    for s in order:
        if s == 0:
            continue
        j = s.bit_length() - 1
        prev = res[s & ~(1 << j)]
        if not prev:
            res[s] = 0
            continue
        res[s] = prev & (prev >> (1 << j)) & ~masks[j] & full
    out = set()
    for s in range(1 << n):
        t = res[s]
        if not t:
            continue
        # Drop those that extend to a larger don't care set.
        for j in range(n):
            if s >> j & 1:
                continue
            bigger = res[s | (1 << j)]
            t &= ~(bigger | (bigger << (1 << j)))
        for p in points(t & full):
            out.add(frozenset((j, bool(p >> j & 1)) for j in range(n)
                              if not s >> j & 1))
    return out


def monotone(f, n):
    return upward(f, n) == f


def support(f, n):
    """The variables f depends on."""
    masks, full = var_masks(n)
    out = []
    for j in range(n):
        hi = (f & masks[j]) >> (1 << j)
        lo = f & ~masks[j] & full
        if hi != lo:
            out.append(j)
    return out


def probability(f, probs):
    """The probability of f with independent variables (exact recursion)."""
    n = len(probs)
    memo = {}

    def rec(t, k):
        # t is a table over the first k variables.
        size = 1 << k
        if t == 0:
            return 0.0
        if t == (1 << size) - 1:
            return 1.0
        key = (t, k)
        if key in memo:
            return memo[key]
        half = size >> 1
        lo = t & ((1 << half) - 1)
        hi = t >> half
        p = probs[k - 1]
        if lo == hi:
            r = rec(lo, k - 1)
        else:
            r = p * rec(hi, k - 1) + (1 - p) * rec(lo, k - 1)
        memo[key] = r
        return r
    return rec(f, n)


def restrict(f, n, j, v):
    """f with variable j fixed (still over n variables)."""
    masks, full = var_masks(n)
    half = 1 << j
    if v:
        hi = f & masks[j]
        return hi | (hi >> half)
    lo = f & ~masks[j] & full
    return lo | (lo << half)
