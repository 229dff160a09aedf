"""Shared pieces for the graph properties (solver side imports symex lazily; no numpy needed at the top)."""
import itertools


def cubes(n, k):
    """split the space of graphs on n vertices by fixing the first k vertex pairs"""
    for c in itertools.product((0, 1), repeat=k):
        yield list(c)


def pairs(n):
    return list(itertools.combinations(range(n), 2))


def gconfigs(sizes, split, **kw):
    """one configuration per size and cube"""
    out = []
    for n in sizes:
        for c in cubes(n, split.get(n, 0)):
            out.append(dict(n=n, cube=c, weight=2 ** (n * (n - 1) // 2 - len(c)), **kw))
    return out


def octahedra(free=(), perm=None):
    """fix the first six vertices to be an octahedron (the smallest graph the reduction rules leave to the branching
    search); pairs in `free` and the pairs of any further vertex stay symbolic"""
    perm = perm or range(6)
    non = {frozenset((perm[a], perm[a + 3])) for a in range(3)}
    return [[i, j, int(frozenset((i, j)) not in non)] for i, j in itertools.combinations(range(6), 2) if (i, j) not in free]


# graphs on which the search goes deep (several rounds of branching, vertices deleted in between, rule 3 firing):
# vertices, edges as a bit string over the pairs in lexicographic order
HARD = [
    (7, "011001111011011110111"),
    (7, "100111111011111111101"),
    (7, "111011101111101111101"),
    (7, "111110010111111101111"),
    (8, "1101100011101111001100001111"),
    (8, "0111010111001011111111000111"),
    (9, "010010111101111011111111111111010111"),
    (9, "111111111111110101101100111111101111"),
    (8, "1111101011011101011110111111"),
    (8, "0111011110100011111111111010"),
    (8, "1111100111011101101110111111"),
    (8, "1111101110110011111111011011"),
    (8, "1101101100110010111101001111"),
    (8, "0101011101110110101011101101"),
    (9, "111011111110111011011101111111111011"),
]


def hard(free, rotations=1, max_n=8):
    """families around the HARD graphs: `free` pairs are symbolic, the others as in the base graph"""
    out = []
    for b, (n, bits) in enumerate(HARD):
        if n > max_n:
            continue
        P = pairs(n)
        for r in range(rotations):
            # a different, spread-out choice of free pairs per graph and rotation
            F = {P[(b + 3 * r + (2 * q * len(P)) // (2 * free)) % len(P)] for q in range(free)}
            out.append(dict(n=n, dt="int64", fix=[[i, j, int(bits[k])] for k, (i, j) in enumerate(P) if (i, j) not in F],
                            weight=2 ** len(F) * n * n / 30, samples=1))
    return out


def edge_lits(A, n):
    from symex import core
    e = {}
    for i in range(n):
        for j in range(n):
            e[i, j] = core.truth(A.el[i, j])
    return e


def clique_lit(e, S):
    from symex.core import E
    return E.aig.ANDN([e[i, j] for i, j in itertools.combinations(sorted(S), 2)])


def np_cover_problems(A, C):
    """problems of a claimed edge clique cover (concrete, numpy)"""
    import numpy as np
    out = []
    n = len(A)
    C = np.asarray(C)
    if C.ndim != 2 or C.shape[1] != n:
        return ["shape: cover has shape %s" % (C.shape,)]
    if not np.isin(np.asarray(C, float), (0, 1)).all():
        out.append("binary: entries other than 0/1")
    C = C.astype(bool)
    for i, j in itertools.combinations(range(n), 2):
        s = bool((C[:, i] & C[:, j]).any())
        if s != bool(A[i, j]):
            out.append("cover: pair %d,%d adjacent=%s but shares a row=%s" % (i, j, bool(A[i, j]), s))
    for i in range(n):
        if not C[:, i].any():
            out.append("vertex: %d is in no row" % i)
    return out


def min_cover_size(A):
    """smallest number of cliques covering all edges (brute force, concrete)"""
    n = len(A)
    E = frozenset((i, j) for i, j in itertools.combinations(range(n), 2) if A[i][j])
    if not E:
        return 0
    cl = []
    for r in range(2, n + 1):
        for S in itertools.combinations(range(n), r):
            if all((i, j) in E for i, j in itertools.combinations(S, 2)):
                cl.append(frozenset(itertools.combinations(S, 2)))
    cl = [c for c in cl if not any(c < d for d in cl)]
    k = 1
    while True:
        if _cov(E, cl, k):
            return k
        k += 1


def _cov(E, cl, k):
    if not E:
        return True
    if k == 0:
        return False
    e = min(E)
    return any(_cov(E - c, cl, k - 1) for c in cl if e in c)
