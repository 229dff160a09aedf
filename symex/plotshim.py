"""matplotlib / seaborn / pandas / networkx as far as pictures need them: every call is recorded, nothing is drawn."""
import itertools, re
import numpy as _np
from . import core, sarray as S, snp
from .core import E, Unsupported
from .sarray import SArray
from .shims import fmod


def plots():
    return E.cfg.setdefault("plots", [])


def snap(v):
    if isinstance(v, SArray):
        return v.copy()
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return type(v)(snap(x) for x in v)
    if type(v) is dict:
        return {k: snap(x) for k, x in v.items()}
    return v


class Rec:
    """records calls by method name; children share the log"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ax = re.fullmatch(r"([xy])axis", self._n)
        if ax and n in ("set_ticks", "set_ticklabels"):
            return Rec("set_%s%s" % (ax.group(1), n[4:]))
        if ax and n.startswith("set_"):
            return Rec(self._n + "." + n)
        return Rec(n)

    def __setattr__(self, n, v):
        plots().append((n + "=", (snap(v),), {}))

    def __call__(self, *a, **k):
        plots().append((self._n, snap(a), snap(k)))
        if self._n == "subplots" and (a or k.get("nrows") or k.get("ncols")):
            raise Unsupported("several axes in one figure")
        return Rec(self._n + "()")

    def __iter__(self):
        return iter([Rec("fig"), Rec("ax")])

    def __getitem__(self, i):
        return Rec("item")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class PModule(Rec):
    pass


class Frame:
    """pandas.DataFrame of one two-dimensional array"""

    def __init__(self, data=None, columns=None, index=None, copy=None):
        if isinstance(data, dict):
            columns = list(data) if columns is None else columns
            data = snp.stack([S.to_arr(data[c]) for c in columns], axis=1)
        self.data = S.to_arr(data).copy()
        if self.data.ndim != 2:
            raise Unsupported("DataFrame of a %d-dimensional array" % self.data.ndim)
        n = self.data.el.shape[1]
        self.columns = list(range(n)) if columns is None else list(columns)
        if len(self.columns) != n:
            raise ValueError("Shape of passed values does not match the columns")

    @property
    def shape(self):
        return self.data.shape

    def head(self, n=5):
        return Frame(self.data[:n], self.columns)

    def __len__(self):
        return len(self.data)

    def __getattr__(self, n):
        raise Unsupported("DataFrame.%s" % n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Frame(self.data[i], self.columns)
        raise Unsupported("DataFrame[%r]" % (i,))


class Graph:
    directed = False

    def __init__(self, data=None, **k):
        self.n, self.e = [], {}
        if data is None:
            return
        if isinstance(data, Graph):
            self.n = list(data.n)
            for (u, v), l in data.e.items():
                self._put(u, v, l)
        elif isinstance(data, SArray) or isinstance(data, _np.ndarray):
            A = snp.concrete_pres(S.to_arr(data))
            if A.ndim != 2 or A.el.shape[0] != A.el.shape[1]:
                raise ValueError("Adjacency matrix not square")
            self.n = list(range(A.el.shape[0]))
            for i, j in itertools.product(self.n, self.n):
                self._put(i, j, core.truth(A.el[i, j]))
        elif isinstance(data, dict):
            for u, vs in data.items():
                self.add_node(u)
                for v in vs:
                    self.add_edge(u, v)
        else:
            self.add_edges_from(data)

    def _put(self, u, v, l):
        if l == 0:
            return
        for x in (u, v):
            if x not in self.n:
                self.n.append(x)
        k = (u, v)
        if not self.directed and (v, u) in self.e:
            k = (v, u)
        self.e[k] = E.aig.OR(self.e.get(k, 0), l)

    def add_node(self, u, **k):
        u = _node(u)
        if u not in self.n:
            self.n.append(u)

    def add_nodes_from(self, us, **k):
        for u in us:
            self.add_node(u[0] if isinstance(u, tuple) and len(u) == 2 and isinstance(u[1], dict) else u)

    def add_edge(self, u, v, **k):
        self._put(_node(u), _node(v), 1)

    def add_edges_from(self, es, **k):
        for e in es:
            self.add_edge(e[0], e[1])

    def remove_node(self, u):
        self.n.remove(u)
        self.e = {k: l for k, l in self.e.items() if u not in k}

    def remove_edge(self, u, v):
        del self.e[(u, v)]

    def number_of_nodes(self):
        return len(self.n)

    order = number_of_nodes

    def __len__(self):
        return len(self.n)

    def __iter__(self):
        return iter(list(self.n))

    def __contains__(self, u):
        return u in self.n

    @property
    def nodes(self):
        return _View(self.n)

    @property
    def edges(self):
        return _View([k for k, l in self.e.items() if core.fork_bool(l)])

    def has_edge(self, u, v):
        return core.mkb(self.e.get((u, v), self.e.get((v, u), 0) if not self.directed else 0))

    def copy(self):
        return type(self)(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Graph.%s" % n)


class DiGraph(Graph):
    directed = True


class _View(list):
    def __call__(self, data=False, **k):
        if data:
            raise Unsupported("graph data views")
        return self


def _node(u):
    if core.is_sym(u):
        u = snp.conc_scalar(u)
    return int(u) if isinstance(u, _np.integer) else u


def make_plot():
    mpl = fmod("matplotlib", use=lambda *a, **k: None, rcParams={})
    plt = PModule("plt")
    mpl.pyplot = plt
    d = {"matplotlib": mpl, "matplotlib.pyplot": plt}
    for n in ("colors", "cm", "ticker", "patches", "lines", "axes", "figure"):
        d["matplotlib." + n] = mpl.__dict__[n] = PModule(n)
    d["seaborn"] = PModule("sns")
    d["pandas"] = fmod("pandas", DataFrame=Frame)
    nx = fmod("networkx", Graph=Graph, DiGraph=DiGraph)

    def from_numpy(A, create_using=None, **k):
        return (create_using or Graph)(A) if not isinstance(create_using, Graph) else type(create_using)(A)
    nx.from_numpy_array = nx.from_numpy_matrix = nx.to_networkx_graph = from_numpy

    def draw(name, order):
        def f(G, *a, **k):
            k = dict(k)
            k.update(zip(order, a))
            h = G.copy()
            plots().append(("nx." + name, (h,), snap(k)))
            nodes = k.get("nodelist", h.n) if name in ("draw_networkx", "draw_networkx_nodes", "draw") else None
            c = k.get("node_color")
            if nodes is not None and isinstance(c, (list, SArray)) and len(c) != len(nodes):
                raise ValueError("'c' argument has %d elements for %d nodes" % (len(c), len(nodes)))
            return Rec("drawn")
        nx.__dict__[name] = f
    draw("draw_networkx", ("pos", "arrows", "with_labels"))
    draw("draw", ("pos", "ax"))
    draw("draw_networkx_nodes", ("pos", "nodelist", "node_size", "node_color"))
    draw("draw_networkx_edges", ("pos", "edgelist"))
    draw("draw_networkx_labels", ("pos", "labels"))
    d["networkx"] = nx
    return d
