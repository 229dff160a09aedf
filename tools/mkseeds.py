"""Write /verif/seeded/<id>/ from the list below (patch.diff is made in a scratch copy of /repo).
usage: mkseeds.py [id ...]   (-c: also confirm: demo 0 on unchanged, nonzero patched, stable tests pass)"""
import json, os, subprocess, sys, tempfile, shutil
SEEDS = []
E, G, V, I, S, M, N, Z = ("medil/%s.py" % x for x in ("ecc_algorithms", "graph", "evaluate", "independence_testing", "sample", "models", "vae", "visualize"))


def seed(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''import contextlib, io, os, sys, tempfile, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
warnings.simplefilter("ignore")


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def graph(n, edges):
    A = np.eye(n, dtype=int)
    for u, v in edges:
        A[u, v] = A[v, u] = 1
    return A


'''

seed("c01-forgotten-cliques", "C01", E, [("            if branch_graph.the_cover is None\n", "            if the_cover is None\n")],
     "a graph on which reduction commits a clique before the first branching step (at least 7 vertices)", "cliques committed by the reduction rules are dropped from the cover",
     '''from medil.ecc_algorithms import find_clique_min_cover
import itertools
oct = [e for e in itertools.combinations(range(1, 7), 2) if e not in ((1, 4), (2, 5), (3, 6))]
for extra in ([(0, 1)], [(0, 3)]):
    A = graph(7, oct + extra)
    C = quiet(find_clique_min_cover, A).astype(int)
    assert (((C.T @ C) > 0).astype(int) == A).all(), C
''')
seed("c01-deletions-forgotten", "C01", G, [('        if hasattr(udg, "reduced_away"):', '        if hasattr(udg, "reduced_away") and udg.the_cover is None:')],
     "rule 3 deletes a vertex after a clique was committed, and the search branches afterwards (at least 7 vertices)", "vertices deleted before the branching are missing from the cover",
     '''from medil.ecc_algorithms import find_clique_min_cover
import random
R = random.Random(5)
for t in range(600):
    n = R.choice((7, 7, 8))
    p = R.choice((.55, .65, .75, .85))
    A = graph(n, [(i, j) for i in range(n) for j in range(i) if R.random() < p])
    C = quiet(find_clique_min_cover, A).astype(int)
    assert (((C.T @ C) > 0).astype(int) == A).all(), (A, C)
''')
seed("c02-budget-steps-of-two", "C02", E, [("        num_cliques += 1\n", "        num_cliques += 2\n")],
     "a graph that the reduction rules cannot solve, e.g. the octahedron", "the search is not run with every clique budget, so the cover found may not be minimum",
     '''from medil.ecc_algorithms import find_clique_min_cover
import itertools
for non in ([(0, 3), (1, 4), (2, 5)], [(0, 1), (2, 3), (4, 5)], [(0, 5), (1, 2), (3, 4)]):
    A = graph(6, [e for e in itertools.combinations(range(6), 2) if e not in non])
    C = quiet(find_clique_min_cover, A)
    assert len(C) == 4, C
''')
seed("c03-excluded-forgotten", "C03", E, [("                        subg = subg_q\n                        cand = cand_q\n", "                        subg = set(cand_q)\n                        cand = cand_q\n")],
     "a graph whose search tree revisits an already processed vertex below the first level", "max_cliques also yields cliques that are not maximal",
     '''from medil.ecc_algorithms import max_cliques
import itertools


def naive(A):
    n = len(A)
    cl = [set(s) for r in range(1, n + 1) for s in itertools.combinations(range(n), r) if all(A[i, j] for i, j in itertools.combinations(s, 2))]
    return sorted(sorted(c) for c in cl if not any(c < d for d in cl))


rng = np.random.default_rng(0)
for _ in range(3000):
    n = int(rng.integers(3, 7))
    A = np.triu(rng.random((n, n)) < .6, 1).astype(int)
    A = A + A.T
    got = sorted(sorted(int(v) for v in c) for c in max_cliques(A))
    assert got == naive(A), (A, got)
''')
seed("c04-first-clique-only", "C04", E, [("            for edge in np.argwhere(np.triu(graph, 1))\n", "            for edge in np.argwhere(np.triu(graph, 2))\n")],
     "a graph without a one-pure-child cover, with an uncovered edge between neighbouring indices", "find_heuristic_1pc raises instead of returning a cover",
     '''from medil.ecc_algorithms import find_heuristic_1pc
import itertools
n = 6
P = list(itertools.combinations(range(n), 2))
for k in range(0, 2 ** 15, 5):
    A = graph(n, [e for i, e in enumerate(P) if k >> i & 1]).astype(bool)
    B = find_heuristic_1pc(A)
    R = B.T @ B
    assert (A <= R).all(), (A, B)
''')
seed("c05-largest-by-index", "C05", E, [("        if len(indep_set) > len(max_indep_set):\n", "        if sum(indep_set) > sum(max_indep_set):\n")],
     "a graph whose largest independent set has a smaller index sum than another one", "find_heuristic_1pc starts from an independent set that is not a largest one, so the true structure is not recovered",
     '''from medil.ecc_algorithms import find_heuristic_1pc
B = np.array([[1, 0, 0, 0, 0, 1, 1], [0, 1, 0, 0, 0, 1, 0], [0, 0, 1, 0, 0, 0, 1], [0, 0, 0, 1, 1, 0, 0]], bool)
rng = np.random.default_rng(1)
for _ in range(200):
    k, n = int(rng.integers(1, 4)), 6
    T = np.zeros((k, n), bool)
    T[:, :k] = np.eye(k)
    for j in range(k, n):
        T[:, j] = rng.random(k) < .5
        T[int(rng.integers(k)), j] = True
    T = T[:, rng.permutation(n)]
    R = find_heuristic_1pc(T.T @ T)
    assert sorted(map(tuple, R.tolist())) == sorted(map(tuple, T.tolist())), (T, R)
''')
seed("c06-counts-repeated-edges", "C06", G, [("        self.adj_matrix[v_2s, v_1s] = 1\n        self.num_edges = np.triu(self.adj_matrix, 1).sum()\n", "        self.adj_matrix[v_2s, v_1s] = 1\n        self.num_edges += len(edges)\n")],
     "adding an edge that is already there", "num_edges no longer counts the edges",
     '''from medil.graph import UndirectedDependenceGraph
g = UndirectedDependenceGraph(graph(4, [(0, 1)]))
g.add_edges(np.array([[0, 1], [2, 3]]))
assert g.num_edges == 2, g.num_edges
''')
seed("c06-neighbouring-indices", "C06", G, [("        self.adj_matrix[v_2s, v_1s] = 0\n        self.num_edges = np.triu(self.adj_matrix, 1).sum()\n", "        self.adj_matrix[v_2s, v_1s] = 0\n        self.num_edges = np.triu(self.adj_matrix, 2).sum()\n")],
     "edges between vertices with neighbouring indices that stay after rm_edges", "the number of edges is too small after rm_edges",
     '''from medil.graph import UndirectedDependenceGraph
g = UndirectedDependenceGraph(graph(4, [(0, 1), (1, 2), (0, 3)]))
g.rm_edges(np.array([[0, 3]]))
assert g.num_edges == 2, g.num_edges
''')
seed("c07-one-vertex-per-round", "C07", G, [("            self.num_vertices -= len(isolated_verts)\n", "            self.num_vertices -= 1\n")],
     "two vertices that become isolated in the same round of rule 1", "num_vertices no longer describes the reduced graph",
     '''from medil.graph import UndirectedDependenceGraph
g = UndirectedDependenceGraph(graph(4, [(0, 1)]))
g.make_aux()
r = g.reducible_copy()
r.reduzieren(5)
assert r.num_vertices == np.trace(r.adj_matrix), (r.num_vertices, r.adj_matrix)
''')
seed("c08-counts-as-edges", "C08", V, [("    ushd = np.triu(np.logical_xor(ug, ug_recon), 1).sum()\n", "    ushd = np.triu(ug != ug_recon, 1).sum()\n")],
     "integer structures in which two measurements share a different number of latents, both positive", "pairs linked in both graphs are counted as differing",
     '''from medil.evaluate import sfd
a = np.array([[1, 1], [1, 1]])
b = np.array([[1, 1], [0, 1]])
assert sfd(a, b)[1] == 0, sfd(a, b)
''')
seed("c09-diagonal-of-latents", "C09", V, [("    np.fill_diagonal(ug, False)\n", "    diag = np.arange(min(biadj_mat.shape))\n    ug[diag, diag] = False\n")],
     "fewer latents than measurements", "the recovered graph has self-loops",
     '''from medil.evaluate import recover_ug
B = np.array([[1, 1, 0], [0, 1, 1]])
U = recover_ug(B)
assert not np.diag(U).any(), U
''')
seed("c10-signed-truth", "C10", V, [("        return np.sum((np.abs(predicted_W[perm]) - np.abs(true_W)) ** 2)\n", "        return np.sum((np.abs(predicted_W[perm]) - true_W) ** 2)\n")],
     "negative true weights", "the absolute-value distance is not zero for weights that differ only in sign",
     '''from medil.evaluate import min_perm_squared_l2_dist_abs
W = np.array([[1., -2.], [0., 3.]])
p, d = min_perm_squared_l2_dist_abs(-W, W)
assert abs(d) < 1e-12, d
''')
seed("c11-integer-means", "C11", I, [("    d_bars = np.zeros(num_feats)\n", "    d_bars = np.zeros(num_feats, samples.dtype)\n")],
     "a sample of integer dtype", "mean distances are truncated to integers",
     '''from medil.independence_testing import dcov
X = np.array([[0, 1], [1, 0], [3, 5], [4, 4]])
a, b = dcov(X), dcov(X.astype(float))
assert np.allclose(a[0], b[0]) and np.allclose(a[1], b[1]), (a, b)
''')
seed("c12-level-fixed", "C12", I, [("        crit_val = chi2(1).ppf(1 - significance_level)\n", "        crit_val = chi2(1).ppf(0.95)\n")],
     "a significance level other than 0.05", "the distance-covariance test ignores the requested level",
     '''from medil.independence_testing import estimate_UDG, dcov
from scipy.stats import chi2
rng = np.random.default_rng(0)
X = rng.standard_normal((40, 4))
X[:, 1] += .5 * X[:, 0]
cov, d = dcov(X)
for a in (.5, .2, .05, .001, 1e-6):
    U, _ = estimate_UDG(X, method="dcov_fast", significance_level=a)
    want = 40 * cov / np.outer(d, d) >= chi2(1).ppf(1 - a)
    np.fill_diagonal(want, False)
    assert (U == want).all(), a
''')
seed("c12-level-inclusive", "C12", I, [("        p_vals = method\n        udg = p_vals < significance_level\n", "        p_vals = method\n        udg = p_vals <= significance_level\n")],
     "a p-value that equals the level", "pairs that do not reject at the level are reported as dependent",
     '''from medil.independence_testing import estimate_UDG
P = np.array([[1., .25], [.25, 1.]])
U, _ = estimate_UDG(np.zeros((3, 2)), method=P, significance_level=.25)
assert not U.any(), U
''')
seed("c13-no-ties-variance", "C13", I, [("        pvalue = 1.0 - norm.cdf(np.sqrt(n) * xi / np.sqrt(2.0 / 5.0))\n", "        pvalue = 1.0 - norm.cdf(xi / np.sqrt(2.0 / (5.0 / n)))\n")],
     "ties=False", "the p-value uses the wrong standard deviation",
     '''from medil.independence_testing import xicorr
from scipy.stats import norm
x, y = np.array([1., 2, 3, 4, 5, 6]), np.array([2., 1, 3, 6, 5, 4])
r = xicorr(x, y, ties=False)
assert abs(r.pvalue - norm.sf(np.sqrt(6) * r.correlation / np.sqrt(.4))) < 1e-9, r
''')
seed("c14-as-many-latents", "C14", S, [("            num_latent = rng.integers(1, num_meas)\n", "            num_latent = rng.integers(1, num_meas, endpoint=True)\n")],
     "the generator drawing the upper end", "as many latents as measurements may be drawn",
     '''from medil.sample import biadj
for s in range(60):
    B = biadj(3, rng=np.random.default_rng(s))
    assert 1 <= len(B) <= 2, B
''')
seed("c15-truncated-count", "C15", S, [("        num_edges = np.round(max_num_edges * density).astype(int)\n", "        num_edges = int(max_num_edges * density)\n")],
     "a density for which the number of extra links is rounded up", "one link fewer than requested",
     '''from medil.sample import biadj
B = biadj(7, density=.35, num_latent=3, rng=np.random.default_rng(0))
assert B.sum() == 7 + round(.35 * 4 * 2), B.sum()
''')
seed("c16-truncated-count", "C16", S, [("        num_edges = np.round(density * max_edges).astype(int)\n", "        num_edges = int(density * max_edges)\n")],
     "a density for which the number of edges is rounded up, or not exactly representable", "one edge fewer than requested",
     '''from medil.sample import biadj
B = quiet(biadj, 5, density=.28, one_pure_child=False, rng=np.random.default_rng(0)).astype(int)
e = np.triu((B.T @ B) > 0, 1).sum()
assert e == 3, e
''')
seed("c17-reaches-two", "C17", S, [("        params.error_variances = (rng.random(num_meas) * 1.5) + 0.5\n", "        params.error_variances = 2 - (rng.random(num_meas) * 1.5)\n")],
     "the generator drawing exactly 0", "an error variance of exactly 2, outside [0.5, 2)",
     '''from medil.sample import mcm


class Zero(np.random.Generator):
    def random(self, size=None, **k):
        return np.zeros(size) if size is not None else 0.


m = mcm(rng=Zero(np.random.PCG64(1)), biadj=np.array([[True, True]]))
v = m.parameters.error_variances
assert ((v >= .5) & (v < 2)).all(), v
''')
seed("c18-global-shuffle", "C18", S, [("        biadj = rng.permutation(biadj, axis=1)\n", "        biadj = biadj[:, np.random.permutation(num_meas)]\n")],
     "different states of numpy's global generator", "the structure depends on a generator the caller did not pass",
     '''from medil.sample import biadj
out = []
for s in range(8):
    np.random.seed(s)
    out.append(biadj(6, density=.4, num_latent=3, rng=np.random.default_rng(5)))
assert all((o == out[0]).all() for o in out)
''')
seed("c19-floored-variances", "C19", M, [("            np.diagflat(self.parameters.error_variances),\n", "            np.diagflat(np.maximum(self.parameters.error_variances, 0.1)),\n")],
     "an error variance below 0.1", "samples have more noise than the model says",
     '''from medil.models import GaussianMCM
m = GaussianMCM(biadj=np.array([[True, True]]), rng=np.random.default_rng(7))
m.parameters.biadj_weights = np.array([[1., 2.]])
m.parameters.error_means = np.zeros(2)
m.parameters.error_variances = np.array([1e-4, 1.])
X = m.sample(4000)
assert abs(np.var(X[:, 0]) - 1.0001) < .2
z = np.linalg.eigvalsh(np.cov(X, rowvar=False))[0]
m.parameters.error_variances = np.array([1e-4, 1e-4])
X = m.sample(4000)
assert np.linalg.eigvalsh(np.cov(X, rowvar=False))[0] < 1e-3
''')
seed("c20-positive-variances", "C20", M, [("        self.parameters.error_variances = result.x[num_weights:]\n", "        self.parameters.error_variances = np.abs(result.x[num_weights:])\n")],
     "an optimum with a negative error variance (Heywood case)", "the stored parameters are not those that were optimised",
     '''from medil.models import GaussianMCM
import medil.models as mm
seen = {}
orig = mm.minimize


def spy(f, x0, *a, **k):
    seen["r"] = orig(f, x0, *a, **k)
    seen["f"] = f(seen["r"].x)
    return seen["r"]


mm.minimize = spy
rng = np.random.default_rng(0)
for s in range(6):
    z = rng.standard_normal((40, 1))
    X = z @ np.array([[1., 1., 1.]]) + rng.standard_normal((40, 3)) * np.array([.02, .8, .9])
    m = GaussianMCM(biadj=np.ones((1, 3), bool)).fit(X)
    W, D = m.parameters.biadj_weights, np.diag(m.parameters.error_variances)
    d = ((np.cov(X, rowvar=False) - W.T @ W - D) ** 2).sum()
    assert abs(d - seen["f"]) < 1e-9 * max(1, d), (d, seen["f"], m.parameters.error_variances)
''')
seed("c21-one-sample-less", "C21", M, [("        samp_size = len(self.dataset)\n", "        samp_size = len(self.dataset) - 1\n")],
     "a correlation between the two thresholds", "the penalty is that of a smaller sample, so borderline edges are decided wrongly",
     '''from medil.models import GaussianMCM
rng = np.random.default_rng(0)
for _ in range(400):
    X = rng.standard_normal((6, 3))
    X[:, 1] += rng.random() * 2 * X[:, 0]
    m = GaussianMCM()
    m.dataset = X
    m._estimate_udg()
    r = np.corrcoef(X, rowvar=False)
    want = np.log(np.clip(1 - r ** 2, 1e-5, None)) < -np.log(6) / 6
    np.fill_diagonal(want, False)
    assert (np.asarray(m.udg, bool) == want).all(), (m.udg, want)
''')
seed("c22-penalties-swapped", "C22", M, [("            return self.fit_penalized_lse(dataset, lambda_reg, mu_reg)\n", "            return self.fit_penalized_lse(dataset, mu_reg, lambda_reg)\n")],
     "different weights for the two penalties, least-squares method", "the fit optimises the loss with the penalty weights exchanged",
     '''from medil.models import DevMedil
r = np.random.default_rng(0)
X = r.standard_normal((30, 1)) @ np.array([[2., 1., -1.]]) + .3 * r.standard_normal((30, 3))
m = DevMedil(rng=np.random.default_rng(1)).fit(X, method="lse", lambda_reg=.5, mu_reg=.01)
assert abs(m.result.fun - m.validation_lse(.5, .01, X)) < 1e-6, (m.result.fun, m.W_hat)
''')
seed("c23-variance-as-deviation", "C23", M, [("        epsilon = self.rng.multivariate_normal(np.zeros(n), D_hat, sample_size)\n", "        epsilon = self.rng.standard_normal((sample_size, n)) * np.diag(D_hat)\n")],
     "error variances other than 1", "samples have squared error variances",
     '''from medil.models import DevMedil
m = DevMedil(rng=np.random.default_rng(1))
m.W_hat_mle, m.D_hat_mle = np.zeros((2, 2)), np.diag([9., .25])
v = m.sample(20000, "mle").var(0)
assert abs(v[0] - 9) < 1 and abs(v[1] - .25) < .05, v
''')
seed("c24-dense-variances", "C24", N, [("        self.cov_linear_output = SparseLinear(\n            in_features=self.hidden_dim, out_features=self.output_dim, mask=output_mask\n        )\n", "        self.cov_linear_output = SparseLinear(\n            in_features=self.hidden_dim, out_features=self.output_dim\n        )\n")],
     "two or more measurements; only the log-variances are affected", "the log-variance of a measurement depends on the blocks of the others",
     '''import torch
from medil.vae import Decoder
torch.manual_seed(0)
d = Decoder(2, 3, 1, 2)
z = torch.randn(4, 2)
a = d(z)
with torch.no_grad():
    d.cov_linear_fulcon.weight[0:2] += 1.
    d.mean_linear_fulcon.weight[0:2] += 1.
b = d(z)
assert torch.allclose(a[1][:, 1:], b[1][:, 1:]) and torch.allclose(a[0][:, 1:], b[0][:, 1:])
''')
seed("c25-mean-in-place", "C25", N, [("            return eps.mul(std).add_(mu)\n", "            return mu.add_(eps.mul(std))\n")],
     "training mode", "forward returns the sampled latent in place of the encoder's mean",
     '''import torch
from medil.vae import VariationalAutoencoder
torch.manual_seed(0)
m = VariationalAutoencoder(2, 2, 1, 1)
m.train()
x = torch.randn(3, 2)
with torch.no_grad():
    mu = m(x)[2]
    want = m.encoder(x)[0]
assert torch.allclose(mu, want), (mu, want)
''')
seed("c26-beta-on-reconstruction", "C26", M, [("        loss = -beta * kl_div + recon_loss\n", "        loss = -kl_div + beta * recon_loss\n")],
     "beta other than 1", "beta weighs the reconstruction instead of the KL term",
     '''import torch
from medil.models import NeuroCausalFactorAnalysis
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    t = lambda *r: torch.tensor(r, dtype=torch.float64)
    x, z = t([1., 2.], [0., 1.]), torch.zeros(2, 2, dtype=torch.float64)
    l = lambda b, mu: m._elbo_gaussian(x, z, z, mu, z, None, b).item()
    mu = t([1., 1.], [2., 0.])
    kl = .5 * 6
    assert abs(l(3., mu) - l(3., z) - 3 * kl) < 1e-9
    assert abs(l(3., z) - l(1., z)) < 1e-9
''')
seed("c27-nominal-batch-size", "C27", M, [("                train_lb += loss.item() / batch_size\n", '                train_lb += loss.item() / self.hyperparams["batch_size"]\n')],
     "a last batch smaller than the others", "the recorded training loss is not the mean of the per-sample values",
     '''import torch
from medil.models import NeuroCausalFactorAnalysis
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(batch_size=4, num_epochs=2)
    seen = []
    orig = m._elbo_gaussian

    def spy(x, xr, lc, mu, lv, w, beta):
        r = orig(x, xr, lc, mu, lv, w, beta)
        if w is not None:
            seen.append(r.item() / len(x))
        return r

    m._elbo_gaussian = spy
    X = np.random.default_rng(0).standard_normal((8, 2))
    torch.manual_seed(0)
    m.fit(X, (np.arange(6), np.arange(6, 8)))
    want = [np.mean(seen[:2]), np.mean(seen[2:])]
    assert np.allclose(m.loss["elbo_train"], want), (m.loss["elbo_train"], want)
''')
seed("c27-gradients-accumulate", "C27", M, [("                optimizer.zero_grad()\n", "                if nbatch == 0:\n                    optimizer.zero_grad()\n")],
     "more than one batch per epoch", "an update uses the gradients of earlier batches as well",
     '''import torch
from medil.models import NeuroCausalFactorAnalysis
import medil.models as mm
log = []
Orig = torch.optim.AdamW


class Spy(Orig):
    def zero_grad(self, *a, **k):
        log.append("z")
        return super().zero_grad(*a, **k)

    def step(self, *a, **k):
        log.append("s")
        return super().step(*a, **k)


torch.optim.AdamW = Spy
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(batch_size=2, num_epochs=2)
    m.fit(np.random.default_rng(0).standard_normal((8, 2)), (np.arange(6), np.arange(6, 8)))
s = "".join(log)
assert "ss" not in s, s
''')
seed("c28-glued-name", "C28", M, [('        with open(os.path.join(self.path, "error_recon.pkl"), "wb") as handle:\n', '        with open(f"{self.path}error_recon.pkl", "wb") as handle:\n')],
     "a directory given without a trailing slash", "error_recon.pkl is written beside the directory",
     '''from medil.models import NeuroCausalFactorAnalysis
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "out")
    m = NeuroCausalFactorAnalysis(path=p)
    m.hyperparams.update(num_epochs=1)
    m.fit(np.random.default_rng(0).standard_normal((8, 2)))
    assert os.listdir(d) == ["out"], os.listdir(d)
    assert "error_recon.pkl" in os.listdir(p)
''')
seed("c29-threshold-in-place", "C29", Z, [("        dcor_mat = (dcor_mat > thresh).astype(int)\n", "        dcor_mat[...] = dcor_mat > thresh\n")],
     "a threshold", "show_obs_dcor_mat overwrites the matrix it is given",
     '''import matplotlib
matplotlib.use("Agg")
from medil.visualize import show_obs_dcor_mat
M = np.array([[1., .3], [.3, 1.]])
show_obs_dcor_mat(M, thresh=.2)
assert M[0, 1] == .3, M
''')
seed("c29-scaled-weights", "C29", V, [("    num_latents = len(true_W)\n    zeros[:num_latents] = true_W\n    true_W = zeros\n\n    def perm_squared_l2_dist(perm):\n        perm = np.array(perm)\n        return np.sum((np.abs(pred", "    num_latents = len(true_W)\n    zeros[:num_latents] = np.abs(true_W, out=true_W)\n    true_W = zeros\n\n    def perm_squared_l2_dist(perm):\n        perm = np.array(perm)\n        return np.sum((np.abs(pred")],
     "negative true weights", "min_perm_squared_l2_dist_abs drops the signs of the caller's true weights",
     '''from medil.evaluate import min_perm_squared_l2_dist_abs
W = np.array([[1., -2.], [0., 3.]])
T = W.copy()
min_perm_squared_l2_dist_abs(W, T)
assert (T == W).all(), T
''')
seed("c30-transposed-values", "C30", Z, [("            ax.text(i, j, round(label, 2), ha='center', va='center', fontdict={'color': 'w'})\n", "            ax.text(j, i, round(label, 2), ha='center', va='center', fontdict={'color': 'w'})\n")],
     "a matrix that is not symmetric", "the printed values stand in the transposed cells",
     '''import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from medil.visualize import show_obs_dcor_mat
plt.show = lambda *a, **k: None
M = np.array([[.1, .2], [.3, .4]])
show_obs_dcor_mat(M, print_val=True)
for t in plt.gcf().axes[0].texts:
    x, y = t.get_position()
    assert float(t.get_text()) == M[int(y), int(x)], (t.get_text(), x, y)
''')
seed("c30-two-digit-index", "C30", Z, [("labels={idx+num_latent: '$M_{{{}}}$'.format(idx)", "labels={idx+num_latent: '$M_{}$'.format(idx)")],
     "more than ten measurements", "from the eleventh measurement on the labels read as another measurement's",
     '''import matplotlib.pyplot as plt
import re
from medil.visualize import show_dag
plt.show = lambda *a, **k: None
quiet(show_dag, np.ones((2, 12), bool))
got = [t.get_text() for t in plt.gca().texts]
for i in range(12):
    assert any(re.fullmatch(r"\\$?M(_\\{%d\\}|_?%d)\\$?" % (i, i), t) and ("{" in t or "$" not in t or i < 10) for t in got), (i, got)
''')
seed("c31-appends", "C31", G, [('        with open(name + ".nde", "w") as f:\n', '        with open(name + ".nde", "a") as f:\n')],
     "exporting twice to the same name", "the second export is appended to the first",
     '''from medil.graph import UndirectedDependenceGraph
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "g")
    UndirectedDependenceGraph(graph(3, [(0, 1)])).convert_to_nde(p)
    UndirectedDependenceGraph(graph(2, [])).convert_to_nde(p)
    L = open(p + ".nde").read().split("\\n")
assert L == ["2", "0 1", "1 1", "0 0", "1 1", ""], L
''')

seed("c32-shared-shuffle", "C32", S, [("        biadj[:, num_latent:] = rng.permuted(nonpure_children, axis=0)\n", "        biadj[:, num_latent:] = rng.permutation(nonpure_children, axis=0)\n")],
     "at least two latents and two children beyond the pure ones", "all additional children get the same extra latent: structures in which they differ are never generated",
     '''from medil.sample import biadj
rng = np.random.default_rng(1)
seen = set()
for _ in range(1500):
    B = biadj(4, density=0., num_latent=2, rng=rng)
    seen.add(tuple(sorted(B.sum(1))))
assert seen == {(1, 3), (2, 2)}, seen
''')
seed("c32-common-sign", "C32", S, [("        params.error_means[rng.choice((True, False), num_meas)] *= -1\n", "        params.error_means *= rng.choice((-1, 1))\n")],
     "at least two measurements", "the error means of a random model all have the same sign",
     '''from medil.sample import mcm
rng = np.random.default_rng(1)
seen = {tuple(np.sign(mcm(rng=rng, biadj=np.ones((1, 2), bool)).parameters.error_means)) for _ in range(300)}
assert len(seen) == 4, seen
''')
seed("c32-consecutive-edges", "C32", S, [("        udg[np.triu_indices(num_meas, k=1)] = rng.permutation(edges)\n", "        udg[np.triu_indices(num_meas, k=1)] = np.roll(edges, rng.integers(max_edges))\n")],
     "random graphs with at least 4 measurements and 2 edges", "only graphs whose edges are consecutive in the enumeration of pairs are generated",
     '''from medil.sample import biadj
rng = np.random.default_rng(1)
seen = set()
for _ in range(600):
    B = quiet(biadj, 4, density=2 / 6, one_pure_child=False, rng=rng).astype(int)
    U = np.triu(B.T @ B > 0, 1)
    seen.add(tuple(U[np.triu_indices(4, 1)]))
assert len(seen) == 15, len(seen)
''')
seed("c33-shared-stack", "C33", E, [("def max_cliques(nbrhood):\n", "def max_cliques(nbrhood, stack=[]):\n"), ("    ext_u = cand - adj[u]\n    stack = []\n", "    ext_u = cand - adj[u]\n")],
     "two enumerations of maximal cliques in progress at once (or one left unfinished, then another)", "the backtracking stack is shared by all enumerations",
     '''from medil.ecc_algorithms import max_cliques
A = graph(4, [(0, 1), (1, 2), (0, 2), (2, 3)])
want = sorted(map(sorted, max_cliques(A)))
a, b = max_cliques(A), max_cliques(A)
ga, gb = [], []
for _ in range(6):
    for it, got in ((a, ga), (b, gb)):
        for c in it:
            got.append(sorted(int(x) for x in c))
            break
assert sorted(ga) == want and sorted(gb) == want, (ga, gb)
''')
seed("c33-reused-means", "C33", I, [("    d_bars = np.zeros(num_feats)\n", "    d_bars = _means.setdefault(num_feats, np.zeros(num_feats))\n"), ("def dcov(samples):\n", "_means = {}  # one buffer per number of features\n\n\ndef dcov(samples):\n")],
     "keeping the mean distances of one sample while computing those of another with as many columns", "dcov hands out a buffer it reuses: the earlier result changes",
     '''from medil.independence_testing import dcov
X = np.array([[0., 1.], [2., 5.], [3., 1.]])
C, d = dcov(X)
keep = d.copy()
dcov(10 * X)
assert (d == keep).all(), (d, keep)
''')

seed("c34-global-start", "C34", M, [("        initial_D = np.abs(self.rng.standard_normal(num_meas))\n", "        initial_D = np.abs(np.random.standard_normal(num_meas))\n")],
     "fit(method='lse') twice with generators in the same state", "the starting point of the least-squares fit comes from numpy's global generator",
     '''import medil.models as md
got = []


def fake(f, x0, *a, **k):
    import types
    got.append(np.array(x0))
    return types.SimpleNamespace(x=np.array(x0), success=True, message="", fun=0.)


md.minimize = fake
X = np.array([[1., 2.], [0., 1.], [3., 5.]])
for seed in (1, 2):
    np.random.seed(seed)
    md.DevMedil(rng=np.random.default_rng(0)).fit(X, method="lse")
assert (got[0] == got[1]).all(), got
''')

seed("c35-seed-ignored", "C35", M, [("                standardized, train_size=0.7, random_state=self.seed\n", "                standardized, train_size=0.7, random_state=42\n")],
     "two fits with different seeds and no explicit indices", "the seed no longer influences the split into training and validation rows",
     '''import medil.models as md
X = np.random.default_rng(0).normal(size=(20, 2))
seen = set()
old = md.NeuroCausalFactorAnalysis._data_loader


def loader(self, sample):
    seen.add(sample.tobytes())
    raise KeyboardInterrupt


md.NeuroCausalFactorAnalysis._data_loader = loader
with tempfile.TemporaryDirectory() as d:
    for s in range(5):
        try:
            md.NeuroCausalFactorAnalysis(path=d + "/", seed=s).fit(X)
        except KeyboardInterrupt:
            pass
assert len(seen) > 1
''')
seed("c35-scaled-validation", "C35", M, [("            valid_split = dataset[split_idcs[1]]\n", "            valid_split = standardized[split_idcs[1]]\n")],
     "explicit split indices and data that is not standardised already", "with explicit indices the network is trained on the raw rows but validated on rescaled ones",
     '''import medil.models as md
X = 5 + 3 * np.random.default_rng(0).normal(size=(8, 2))
got = []
old = md.NeuroCausalFactorAnalysis._data_loader


def loader(self, sample):
    got.append(np.array(sample))
    if len(got) == 2:
        raise KeyboardInterrupt
    return old(self, sample)


md.NeuroCausalFactorAnalysis._data_loader = loader
with tempfile.TemporaryDirectory() as d:
    try:
        md.NeuroCausalFactorAnalysis(path=d + "/").fit(X, ([0, 1, 2, 3, 4], [5, 6, 7]))
    except KeyboardInterrupt:
        pass
assert np.allclose(got[0], X[:5]) and np.allclose(got[1], X[5:]), got
''')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
seed("c35-scaler-kept", "C35", M, [("        standardized = sc().fit_transform(dataset)\n", "        if not hasattr(self, \"scaler\"):\n            self.scaler = sc().fit(dataset)\n        standardized = self.scaler.transform(dataset)\n")],
     "fitting the same object a second time, to data with another location or scale", "the second fit trains on data standardised with the first data's means and scales",
     '''import medil.models as mm
from medil.models import NeuroCausalFactorAnalysis
r = np.random.default_rng(0)
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(num_epochs=1)
    seen = []
    old = m._data_loader
    m._data_loader = lambda x: (seen.append(np.array(x)), old(x))[1]
    m.fit(r.normal(size=(20, 2)))
    seen.clear()
    m.fit(r.normal(size=(30, 2)) * 5 + 10)
    Z = np.concatenate(seen)
    assert len(Z) == 30 and abs(Z.mean(0)).max() < 1e-6 and abs(Z.std(0) - 1).max() < 1e-6, (Z.mean(0), Z.std(0))
''')
seed("c22-covariance-kept", "C22", M, [("        Sigma_hat = np.cov(dataset.T)\n\n        def penalized_lse_loss", "        if not hasattr(self, \"Sigma_lse\"):\n            self.Sigma_lse = np.cov(dataset.T)\n        Sigma_hat = self.Sigma_lse\n\n        def penalized_lse_loss")],
     "fitting the same model with 'lse' twice, to different data", "the second fit optimises the loss of the first data",
     '''from medil.models import DevMedil
r = np.random.default_rng(0)
m = DevMedil(rng=np.random.default_rng(1))
for s in (1, 3):
    X = s * r.standard_normal((40, 3)) @ r.standard_normal((3, 3))
    m.fit(X, method="lse", lambda_reg=.1, mu_reg=.1)
    assert abs(m.result.fun - m.validation_lse(.1, .1, X)) < 1e-6 * max(1, m.result.fun), (s, m.result.fun, m.validation_lse(.1, .1, X))
''')
seed("c27-histories-go-on", "C27", M, [("        train_elbo, train_error = [], []\n        valid_elbo, valid_error = [], []\n", "        history = self.__dict__.setdefault(\"history\", [[] for _ in range(4)])\n        train_elbo, train_error, valid_elbo, valid_error = history\n")],
     "fitting the same object twice", "the histories of the second fit contain those of the first",
     '''from medil.models import NeuroCausalFactorAnalysis
r = np.random.default_rng(0)
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(num_epochs=2)
    for i in range(2):
        m.fit(r.normal(size=(20, 2)))
        assert all(len(v) == 2 for v in m.loss.values()), {k: len(v) for k, v in m.loss.items()}
''')
seed("c19-noise-kept", "C19", M, [("            np.diagflat(self.parameters.error_variances),\n            sample_size,\n", "            self.parameters.__dict__.setdefault(\n                \"error_cov\", np.diagflat(self.parameters.error_variances)\n            ),\n            sample_size,\n")],
     "sampling, changing the error variances (or fitting again), and sampling again", "the later samples have the old error variances",
     '''from medil.models import GaussianMCM
m = GaussianMCM(biadj=np.array([[True, True]]), rng=np.random.default_rng(0))
P = m.parameters
P.biadj_weights, P.error_means, P.error_variances = np.zeros((1, 2)), np.zeros(2), np.ones(2)
m.sample(3)
P.error_variances = np.array([9., .04])
v = m.sample(4000).var(0)
assert abs(v[0] - 9) < 1 and abs(v[1] - .04) < .01, v
''')
seed("c20-support-kept", "C20", M, [("        cov = np.cov(self.dataset, rowvar=False)\n\n        support", "        cov = self.parameters.__dict__.setdefault(\n            \"cov\", np.cov(self.dataset, rowvar=False)\n        )\n\n        support")],
     "fitting the same model twice, to different data", "the second fit is optimised for the covariance of the first data",
     '''from medil.models import GaussianMCM
import medil.models as mm
seen = {}
orig = mm.minimize


def spy(f, x0, *a, **k):
    r = orig(f, x0, *a, **k)
    seen["f"] = f(r.x)
    return r


mm.minimize = spy
g = np.random.default_rng(0)
m = GaussianMCM(biadj=np.array([[True, True, True]]))
for s in (1, 2):
    X = g.standard_normal((50, 1)) * s + g.standard_normal((50, 3)) * .5
    m.fit(X)
    P = m.parameters
    v = ((np.cov(X, rowvar=False) - P.biadj_weights.T @ P.biadj_weights - np.diag(P.error_variances)) ** 2).sum()
    assert abs(v - seen["f"]) < 1e-6, (s, v, seen["f"])
''')
seed("c36-shared-defaults", "C36", M, [("        self.hyperparams = {\n            \"heuristic\"", "        self.hyperparams = self.__class__.__dict__.get(\"defaults\") or {\n            \"heuristic\""),
      ("        self.parameters = Parameters(\"VAE\")\n        self.loss = None\n", "        type(self).defaults = self.hyperparams\n        self.parameters = Parameters(\"VAE\")\n        self.loss = None\n")],
     "changing a hyperparameter of one object while another exists or is created later", "all objects share one dictionary of hyperparameters",
     '''from medil.models import NeuroCausalFactorAnalysis
with tempfile.TemporaryDirectory() as d:
    a = NeuroCausalFactorAnalysis(path=d + "/a/")
    a.hyperparams["num_epochs"] = 3
    b = NeuroCausalFactorAnalysis(path=d + "/b/")
    b.hyperparams["batch_size"] = 7
    assert b.hyperparams["num_epochs"] == 200 and a.hyperparams["batch_size"] == 128, (a.hyperparams, b.hyperparams)
''')
seed("c36-histories-shared", "C36", M, [("        self.loss = {\n            \"elbo_train\": loss_recon[0],\n            \"elbo_valid\": loss_recon[1],\n            \"recon_train\": error_recon[0],\n            \"recon_valid\": error_recon[1],\n        }\n",
      "        if self.loss is None:\n            self.loss = _HISTORIES\n        self.loss.update(\n            elbo_train=loss_recon[0],\n            elbo_valid=loss_recon[1],\n            recon_train=error_recon[0],\n            recon_valid=error_recon[1],\n        )\n"),
      ("class NeuroCausalFactorAnalysis(MedilCausalModel):\n", "_HISTORIES = {}\n\n\nclass NeuroCausalFactorAnalysis(MedilCausalModel):\n")],
     "two objects that are both fitted", "the histories of the first object become those of the second",
     '''from medil.models import NeuroCausalFactorAnalysis
r = np.random.default_rng(0)
with tempfile.TemporaryDirectory() as d:
    ms = []
    for i in (1, 2):
        m = NeuroCausalFactorAnalysis(path=d + "/%d/" % i)
        m.hyperparams.update(num_epochs=i)
        ms.append(m.fit(r.normal(size=(12, 2))))
    assert [len(m.loss["elbo_train"]) for m in ms] == [1, 2], [m.loss for m in ms]
''')
seed("c37-schedule-per-batch", "C37", M, [("                optimizer.step()\n", "                optimizer.step()\n                scheduler.step()\n"), ("            scheduler.step()\n            train_lb = train_lb / nbatch\n", "            train_lb = train_lb / nbatch\n")],
     "more than one batch per epoch and more than 50 batches in all", "the learning rate decays by batches instead of epochs",
     '''import torch
from medil.models import NeuroCausalFactorAnalysis
rates = []
Orig = torch.optim.AdamW


class Spy(Orig):
    def step(self, *a, **k):
        rates.append(self.param_groups[0]["lr"])
        return super().step(*a, **k)


torch.optim.AdamW = Spy
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(num_epochs=30, batch_size=3)
    m.fit(np.random.default_rng(0).normal(size=(10, 2)))
assert len(rates) == 90 and set(rates) == {.005}, (len(rates), set(rates))
''')
seed("c37-biases-left-out", "C37", M, [("            model.parameters(), lr=self.hyperparams[\"lr\"], weight_decay=1e-5\n", "            [\n                {\"params\": [p for p in model.parameters() if p.dim() > 1]},\n                {\"params\": [p for p in model.parameters() if p.dim() < 2], \"lr\": 1e-3},\n            ],\n            lr=self.hyperparams[\"lr\"],\n            weight_decay=1e-5,\n")],
     "a learning rate other than 0.001", "biases are trained at a fixed learning rate",
     '''import torch
from medil.models import NeuroCausalFactorAnalysis
with tempfile.TemporaryDirectory() as d:
    m = NeuroCausalFactorAnalysis(path=d + "/")
    m.hyperparams.update(num_epochs=2, lr=0.)
    first = []
    old = m._valid_vae
    m._valid_vae = lambda model, loader: (first.append([p.detach().clone() for p in model.parameters()]), old(model, loader))[1]
    m.fit(np.random.default_rng(0).normal(size=(10, 2)))
assert all(torch.equal(a, b) for a, b in zip(*first)), "parameters move at learning rate 0"
''')


def main():
    args = sys.argv[1:]
    confirm = "-c" in args
    args = [a for a in args if a != "-c"]
    os.makedirs("/tmp/seedwork", exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in SEEDS if not args or s["id"] in args]
    with ThreadPoolExecutor(5) as ex:
        list(ex.map(lambda s: one(s, confirm), todo))


def one(s, confirm):
    if True:
        d = os.path.join("/verif/seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(dir="/tmp/seedwork")
        subprocess.run(["cp", "-a", "/repo/.", w])
        p = os.path.join(w, s["file"])
        src = open(p).read()
        for o, n in s["edits"]:
            if src.count(o) != 1:
                print(s["id"], "PATTERN x%d" % src.count(o), o)
            ln = src[:src.index(o)].count("\n") + 1
            bl = sh("git", "-C", w, "blame", "-s", "-L", "%d,+%d" % (ln, o.count("\n")), "HEAD", "--", s["file"]).stdout
            if not any(l.startswith("^") for l in bl.splitlines()):
                print(s["id"], "NOT ORIGINAL", bl)
            src = src.replace(o, n)
        open(p, "w").write(src)
        diff = sh("git", "-C", w, "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if confirm:
            env = dict(os.environ)
            a = sh("bash", d + "/demo.sh", cwd="/repo")
            b = sh("bash", d + "/demo.sh", cwd=w, timeout=250)
            t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "-p", "no:randomly", "tests", cwd=w,
                   env=dict(env, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH=w))
            print(s["id"], "demo", a.returncode, b.returncode, (a.stderr[-300:] if a.returncode else ""), "|", b.stderr.strip().split("\n")[-1][:150], "| tests", t.stdout.strip().split("\n")[-1], flush=True)
        shutil.rmtree(w)


main()
