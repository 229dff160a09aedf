"""convert_to_nde writes the vertex count, one weight line per vertex and one line per nonzero upper-triangle entry."""
import os, re, tempfile, shutil
from . import graphs as G

BOUNDS = {"quick": "every undirected graph with 1..4 vertices and arbitrary 0/1 diagonal, 5 vertices with unit diagonal (int64 and bool; also after add_edges/rm_edges); "
                   "every file name (Z3 string) and the default one"
                   "; 7 to 13 vertices with 5 free pairs",
          "thorough": "up to 5 vertices with arbitrary diagonal, 6 with unit diagonal"}
OUTSIDE = "more vertices; weighted matrices; the empty file name"


def configs(tier):
    out = []
    for n in (1, 2, 3, 4):
        for d in ("int64", "bool"):
            for edit in (0, 1):
                for c in G.cubes(n, 3 if n == 4 else 0):
                    out.append(dict(n=n, dt=d, diag="any", edit=edit, name=["sym", "default", "dots"][(n + edit) % 3], cube=c, weight=2 ** (n * (n + 1) // 2)))
    for d in ("int64", "bool"):
        out += [dict(n=5, dt=d, diag=1, edit=0, name="sym", cube=c, weight=400) for c in G.cubes(5, 4)]
    out += [dict(n=n, dt=d, diag=1, edit=e, name=nm, sparse=5, spseed=n, samples=1, weight=400) for n, d, e, nm in
            ((7, "int64", 1, "default"), (8, "bool", 1, "sym"), (11, "int64", 0, "sym"), (13, "bool", 0, "dots"))]
    if tier == "thorough":
        out += [dict(n=5, dt="int64", diag="any", edit=1, name="sym", cube=c, weight=4000) for c in G.cubes(5, 6)]
        out += [dict(n=6, dt="int64", diag=1, edit=0, name="sym", cube=c, weight=8000) for c in G.cubes(6, 7)]
    return out


def symbolic(cfg, ctx):
    import z3
    from symex import fsshim
    from symex.harness import Ob, E, core, arr, snp, np, AND, OR
    n = cfg["n"]

    def fn():
        E.cfg["token_text"] = True
        A = ctx.graph("A", n, cfg["dt"])
        if cfg["diag"] == "any":
            for i in range(n):
                A.el[i, i] = E.new_bool("A%d,%d" % (i, i))
            ctx.inputs["A"] = A.copy()
        name = fsshim.SymStr(z3.String("name"))
        E.aig.assume_z3(z3.Length(name.z) >= 1)
        if cfg["name"] == "dots":
            name = fsshim.SymStr(z3.Concat(name.z, z3.StringVal("."), z3.String("name2")))
        ctx.inputs["name"] = name
        g = ctx.world().load("medil.graph")
        u = g.UndirectedDependenceGraph(A)
        if cfg["edit"] and n > 2:
            u.add_edges(snp.array([[0, 1]]))
            u.rm_edges(snp.array([[1, 2]]))
        ref = A.copy()
        args = (name,) if cfg["name"] != "default" else ()
        u.convert_to_nde(*args)
        return ref, arr(u.adj_matrix).copy(), name, list(fsshim.files())

    def num(t):
        m = re.fullmatch("\u27e6(\\d+)\u27e7", t)
        if m:
            return E.cfg["tokens"][int(m.group(1))]
        return int(t) if re.fullmatch(r"\d+", t) else None

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        ref, A, name, log = p.value
        w = [f for f in log if f[0] == "open" and f[2][:1] in "wxa"]
        if len(w) != 1 or w[0][2][:1] == "a":
            return [Ob("file: %d files written" % len(w), False)]
        want = z3.Concat(name.z, z3.StringVal(".nde")) if cfg["name"] != "default" else z3.StringVal("temp.nde")
        obs = [Ob("file: name", fsshim.atom(fsshim.zs(w[0][1]) == want))]
        if not all(isinstance(s, str) for s in w[0][3]):
            return obs + [Ob("file: not text", False)]
        lines = "".join(w[0][3]).split("\n")
        if lines[-1] == "":
            lines.pop()
        rows = [[num(t) for t in l.split(" ")] for l in lines]
        if any(x is None for r in rows for x in r) or len(rows) < 1 + n:
            return obs + [Ob("format: lines %s" % lines[:6], False)]
        if len(rows[0]) != 1 or any(len(r) != 2 for r in rows[1:]):
            return obs + [Ob("format: fields per line", False)]
        eq = lambda a, b: core.compare("==", a, b)
        obs.append(Ob("vertices: first line", eq(rows[0][0], n)))
        for i in range(n):
            obs.append(Ob("weight: index of line %d" % i, eq(rows[1 + i][0], i)))
            t = 0
            for j in range(n):
                t = core.arith("+", t, core.merge(core.truth(ref.el[i, j]), 1, 0))
            obs.append(Ob("weight: of vertex %d" % i, eq(rows[1 + i][1], t)))
        ed = rows[1 + n:]
        hits = {}
        for u in range(n):
            for x in range(u, n):
                ls = [core.blit(AND(eq(r[0], u), eq(r[1], x))) for r in ed]
                hits[u, x] = ls
                obs.append(Ob("edge: %d,%d" % (u, x), E.aig.XOR(E.aig.ORN(ls), core.truth(ref.el[u, x])) ^ 1))
                for a in range(len(ls)):
                    for b in range(a):
                        obs.append(Ob("edge: %d,%d listed twice" % (u, x), E.aig.AND(ls[a], ls[b]) ^ 1))
        for k in range(len(ed)):
            obs.append(Ob("edge: line %d is no pair u<=v" % k, E.aig.ORN([hits[q][k] for q in hits])))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np
    from . import rp
    v = rp.V()
    n = cfg["n"]
    A = inp["A"].astype(cfg["dt"])
    name = inp["name"]
    if "\0" in name or "/" in name or not name.isprintable():
        name = "x" + str(len(name)) + "." + "".join(c for c in name if c.isalnum())
    g = rp.light("graph")
    d, cwd = tempfile.mkdtemp(), os.getcwd()
    os.chdir(d)
    try:
        try:
            u = g.UndirectedDependenceGraph(A)
            if cfg["edit"] and n > 2:
                u.add_edges(np.array([[0, 1]]))
                u.rm_edges(np.array([[1, 2]]))
            ref = A.copy()
            with open((name if cfg["name"] != "default" else "temp") + ".nde", "w") as f:
                f.write("1\n0 1\n0 0\n")
            u.convert_to_nde(*([name] if cfg["name"] != "default" else []))
        except Exception as e:
            return {"violations": ["raises: %r" % e]}
        f = (name if cfg["name"] != "default" else "temp") + ".nde"
        if not v.check(os.listdir(d) == [f], "file: wrote %s instead of %s" % (os.listdir(d), f)):
            return v
        lines = open(f).read().split("\n")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    if lines[-1] == "":
        lines.pop()
    want = [str(n)] + ["%d %d" % (i, ref[i].astype(int).sum()) for i in range(n)]
    v.check(lines[:1 + n] == want, "vertices: %s instead of %s" % (lines[:1 + n], want))
    ed = sorted("%d %d" % (i, j) for i in range(n) for j in range(i, n) if ref[i, j])
    v.check(sorted(lines[1 + n:]) == ed, "edges: %s instead of %s" % (lines[1 + n:], ed))
    return v
