"""NCFA's files: all of them inside the chosen directory, log appended, contents those of the fitted object."""
import os, pickle, shutil, sys, tempfile
from . import ncfa

NAMES = ("training.log", "model_recon.pt", "loss_recon.pkl", "error_recon.pkl")
BOUNDS = {"quick": "every path string other than slashes only (Z3 string of any length), with or without a trailing slash, "
                   "whether or not the directory exists; verbose or not; 0..2 epochs, one or two fits, on small datasets with arbitrary values and network outputs",
          "thorough": "the same with more training configurations"}
OUTSIDE = "path objects other than str, symbolic links, parents that do not exist"
ASSUMES = ["mkdir, open, os.path and pathlib behave as on POSIX"]


def configs(tier):
    c = [(2, 2, 2, 2, 1, 0), (1, 2, 1, 1, 2, 1), (1, 1, 1, 2, 0, 0), (2, 3, 2, 2, 1, 1)]
    if tier != "quick":
        c += [(1, 3, 2, 2, 3, 0), (3, 4, 2, 2, 2, 1)]
    return [dict(m=m, T=T, V=V, b=b, e=e, verbose=bool(vb), slash=s, parts=1 + (m + e + s) % 2, timeout_ms=10000)
            for m, T, V, b, e, vb in c for s in (False, True)] + [dict(m=1, T=2, V=1, b=2, e=1, verbose=False, slash=s, parts=1, again=True, timeout_ms=10000) for s in (False, True)]


def symbolic(cfg, ctx):
    import z3
    from symex import fsshim
    from symex.harness import Ob, E, core, arr, snp, np, same_array
    S = z3.StringVal
    slash = S("/")
    state = {}

    def fn():
        bs = [z3.String("base%d" % i) for i in range(cfg["parts"])]
        for b in bs:
            E.aig.assume_z3(z3.Length(b) >= 1)
            E.aig.assume_z3(z3.Not(z3.SuffixOf(slash, b)))
        E.cfg["fsbase"] = bs
        parts = [q for b in bs for q in (b, slash)]
        parts = parts if cfg["slash"] else parts[:-1]
        z = z3.Concat(*parts) if len(parts) > 1 else parts[0]
        s = fsshim.SymStr(z)
        ctx.inputs["path"] = s
        E.cfg["fsroot"], E.cfg["fsdir"] = s, ctx.bool_("dir_exists")
        state["z"] = z
        M, train, valid, ev, pen = ncfa.fit(ctx, cfg, path=s)
        return M, list(fsshim.files())

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        M, log = p.value
        z = state["z"]
        root = z if cfg["slash"] else z3.Concat(z, slash)
        atom = fsshim.atom
        obs = []
        for k, (op, path, how, data) in enumerate(log):
            if op == "mkdir":
                continue
            if op == "open" and how[:1] == "r" and "+" not in how:
                continue
            q = fsshim.oneslash(fsshim.zs(path))
            rest = z3.SubString(q, z3.Length(root), z3.Length(q) - z3.Length(root))
            inside = z3.And(z3.PrefixOf(root, q), z3.Length(q) > z3.Length(root), z3.Not(z3.Contains(rest, S(".."))))
            obs.append(Ob("inside: %s %d" % (op, k), atom(inside)))
            islog = atom(q == z3.Concat(root, S("training.log")))
            if op != "open":
                obs.append(Ob("log: %s" % op, core.b_not(islog) if core.is_sym(islog) else not islog))
                src = atom(fsshim.oneslash(fsshim.zs(how)) == z3.Concat(root, S("training.log"))) if op == "rename" else False
                obs.append(Ob("log: renamed away", core.b_not(src) if core.is_sym(src) else not src))
                continue
            if how[:1] != "a":
                obs.append(Ob("log: opened with mode %s" % how, core.b_not(islog) if core.is_sym(islog) else not islog))
        for n in NAMES:
            hit = [(atom(fsshim.oneslash(fsshim.zs(path)) == z3.Concat(root, S(n))), how, data) for op, path, how, data in log if op in ("open",) and how[:1] != "r"]
            hit += [(atom(fsshim.oneslash(fsshim.zs(path)) == z3.Concat(root, S(n))), "wb", None) for op, path, how, data in log if op == "rename"]
            obs.append(Ob("artefact: %s missing" % n, core.mkb(E.aig.ORN([core.blit(h) for h, _, _ in hit]))))
        # what was written (by the last plain write of each name that certainly goes there)
        sure = {n: [d for op, path, how, d in log if op == "open" and how[:1] == "w"
                    and core.blit(atom(fsshim.oneslash(fsshim.zs(path)) == z3.Concat(root, S(n)))) == 1] for n in NAMES}
        if M.loss:
            for n, keys in (("loss_recon.pkl", ("elbo_train", "elbo_valid")), ("error_recon.pkl", ("recon_train", "recon_valid"))):
                d = sure[n][-1] if sure[n] else None
                if d is not None and len(d) == 1 and isinstance(d[0], (list, tuple)) and len(d[0]) == 2:
                    for key, x in zip(keys, d[0]):
                        obs += same_array("content: %s %s" % (n, key), x, M.loss[key])
                elif d is not None:
                    obs.append(Ob("content: %s is not one pair of histories" % n, False))
        d = sure["model_recon.pt"][-1] if sure["model_recon.pt"] else None
        if d is not None:
            obs.append(Ob("content: saved model is not the fitted one", len(d) == 1 and d[0] is M.parameters.vae))
        text = [t for op, path, how, d in log if op == "open" and how[:1] == "a" for t in d]
        obs.append(Ob("log: entries end with a newline", all(not isinstance(t, str) or t.endswith("\n") for t in text[-1:])))
        return obs
    return ctx.run(fn, prop)


def replay(cfg, inp, draws):
    import numpy as np, torch, builtins
    from . import rp
    v = rp.V()
    s, there = inp["path"], bool(inp["dir_exists"])
    rp.light("models")
    if "\0" in s or not s.isprintable():
        raise rp.Mismatch("path")
    top = os.path.realpath(tempfile.mkdtemp())
    old_cwd = os.getcwd()
    opened, oopen, osave = [], builtins.open, torch.save
    try:
        os.mkdir(top + "/cwd")
        os.chdir(top + "/cwd")
        if s.startswith("/"):
            s = top + "/abs" + s
        d = os.path.realpath(s)
        if not (d + "/").startswith(top + "/") or max(map(len, s.split("/"))) > 200:
            raise rp.Mismatch("path")
        os.makedirs(d if there else os.path.dirname(d), exist_ok=True)
        for n in (NAMES if there else ()):
            with open(d + "/" + n, "w") as f:
                f.write("earlier\n")

        def note(p, mode):
            if isinstance(p, (str, os.PathLike)) and not os.path.realpath(p).startswith((sys.prefix, os.devnull)) and any(c in mode for c in "wax+"):
                opened.append(os.path.realpath(os.fspath(p)))

        def fopen(p, mode="r", *a, **k):
            note(p, mode)
            return oopen(p, mode, *a, **k)

        def fsave(o, p, *a, **k):
            note(p, "w")
            return osave(o, p, *a, **k)
        builtins.open, torch.save = fopen, fsave
        try:
            M, *_ = ncfa.real_fit(cfg, inp, s)
        except (ncfa.FitRaised, OSError) as e:
            v.append("raises: %s" % e)
            return v
        finally:
            builtins.open, torch.save = oopen, osave
        for p in opened:
            v.check(p.startswith(d + "/"), "inside: writes %s, the directory is %s" % (p, d))
        for base, _, fs in os.walk(top):
            for f in fs:
                v.check((base + "/").startswith(d + "/"), "inside: wrote %s/%s, the directory is %s" % (base, f, d))
        for n in NAMES:
            v.check(os.path.isfile(d + "/" + n), "artefact: %s missing" % n)
        if v:
            return v
        log = open(d + "/training.log").read()
        if there:
            v.check(log.startswith("earlier\n"), "log: earlier entries lost")
            log = log[len("earlier\n"):]
        v.check(log.endswith("\n"), "log: does not end with a newline")
        before = open(d + "/training.log").read()
        try:
            ncfa.real_fit(cfg, inp, s)
        except (ncfa.FitRaised, OSError) as e:
            v.append("raises: second run %s" % e)
            return v
        v.check(open(d + "/training.log").read().startswith(before), "log: the first run's entries lost in the second")
        for n, keys in (("loss_recon.pkl", ("elbo_train", "elbo_valid")), ("error_recon.pkl", ("recon_train", "recon_valid"))):
            try:
                with open(d + "/" + n, "rb") as f:
                    o = pickle.load(f)
            except Exception as e:
                v.append("content: %s not readable: %s" % (n, e))
                continue
            v.check(len(o) == 2 and all(np.array_equal(a, M.loss[k]) for a, k in zip(o, keys)), "content: %s" % n)
        sd = torch.load(d + "/model_recon.pt", weights_only=False).state_dict()
        mine = M.parameters.vae.state_dict()
        v.check(set(sd) == set(mine) and all(torch.equal(sd[k], mine[k]) for k in sd), "content: saved model differs from the fitted one")
    finally:
        builtins.open, torch.save = oopen, osave
        os.chdir(old_cwd)
        shutil.rmtree(top, ignore_errors=True)
    return v
