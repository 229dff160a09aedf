"""Decoder: the network blocks of different measurements are separate, complete, and consist of registered parameters."""
from . import nets

BOUNDS = {"quick": "1..3 measurements, 1..3 latents, block width 1..2 (3 with one hidden layer), 0..2 hidden layers, 1..2 rows; all real parameters and latents"
                   "; up to 11 measurements and 7 latents",
          "thorough": "up to 4 measurements, width 3, 4 hidden layers"}
OUTSIDE = "larger networks; the sigmoid is an uninterpreted function (so equality of outputs means equality of the units' inputs)"


def configs(tier):
    c = [(1, 1, 1, 1), (2, 2, 1, 1), (2, 2, 0, 2), (2, 2, 2, 1), (2, 2, 1, 2), (3, 3, 1, 1), (3, 3, 2, 2), (1, 2, 2, 2), (3, 2, 1, 2), (2, 3, 0, 1), (2, 3, 1, 2), (2, 2, 1, 3), (3, 3, 3, 1)]
    c += [(5, 7, 1, 1), (4, 11, 0, 1), (7, 3, 1, 2)]
    if tier == "thorough":
        c += [(4, 4, 2, 2), (4, 4, 1, 3), (3, 4, 3, 2), (2, 2, 4, 3), (4, 3, 4, 1)]
    return [dict(lat=a, m=m, L=L, w=w, N=N, weight=m * w * w * (L + 1) * N) for a, m, L, w in c for N in (1, 2) if N == 1 or m * w * (L + 1) <= (6 if tier == "quick" else 12)]


def symbolic(cfg, ctx):
    from symex.harness import Ob, E, core, arr, snp, np
    lat, m, L, w, N = (cfg[k] for k in ("lat", "m", "L", "w", "N"))

    def fn():
        wd = ctx.world()
        M, names = nets.build(ctx, wd, lat, m, L, w)
        z = ctx.reals("z", (N, lat))
        T = wd.load("medil.vae").torch.Tensor(z.copy())
        out = []
        for mode in (True, False):
            M.train(mode)
            a, b = M.decoder(T)
            out.append((arr(a.a), arr(b.a)))
        return M, names, z, out

    def prop(p):
        if p.exc is not None:
            return [Ob("raises %r" % p.exc, False)]
        M, names, z, outs = p.value
        D = M.decoder
        dec = {v for v, (nm, i) in names.items() if nm.startswith("decoder.")}
        reg = set(M.state_dict())
        zs = {str(x.z): i for i, x in np.ndenumerate(z.el)}
        obs = [Ob("every parameter requires gradients", all(q.requires_grad for q in M.parameters())),
               Ob("every parameter is saved", {nm for nm, _ in names.values()} <= reg)]
        expect = w * lat + w + L * (w * w + w) + w + 1
        for kind in (0, 1):
            for oo in outs:
                o = oo[kind]
                if o.el.shape != (N, m):
                    return obs + [Ob("shape %s" % (o.el.shape,), False)]
            for i in np.ndindex(N, m):
                obs.append(close_("same output in both modes %d%s" % (kind, i), outs[0][kind].el[i], outs[1][kind].el[i]))
        for r in range(N):
            dep = {}
            for kind, nm in ((0, "mean"), (1, "log-variance")):
                o = outs[0][kind]
                for j in range(m):
                    vs = nets.variables(o.el[r, j])
                    par = {v for v in vs if v in dec}
                    dep[kind, j] = par
                    loose = 0
                    for v in sorted(vs):
                        if v in dec or loose > 3:
                            continue
                        loose += v not in zs
                        if v in zs:
                            if zs[v][0] != r:
                                obs.append(Ob("%s of row %d depends on row %d of the latents" % (nm, r, zs[v][0]), nets.independent(o.el[r, j], [vs[v]])))
                        else:
                            obs.append(Ob("%s %d depends on %s, which is not a registered parameter" % (nm, j, v.split("[")[0]), nets.independent(o.el[r, j], [vs[v]])))
                    att = getattr(D, ("mean" if kind == 0 else "cov") + "_linear_fulcon", None)
                    if att is not None and hasattr(att, "weight") and att.weight.a.el.shape == (m * w, lat):
                        far = 0
                        for u in range(m * w):
                            for q in att.weight.a.el[u]:
                                if u // w != j and str(q.z) in vs and far < 2:
                                    far += 1
                                    obs.append(Ob("%s %d depends on hidden unit %d" % (nm, j, u), nets.independent(o.el[r, j], [q.z])))
                                if u // w == j and str(q.z) not in vs:
                                    obs.append(Ob("%s %d ignores its hidden unit %d" % (nm, j, u), False))
                    obs.append(Ob("%s %d uses its whole block (%d of %d parameters)" % (nm, j, len(par), expect), len(par) >= expect))
                    for i in range(lat):
                        if str(z.el[r, i].z) not in vs:
                            obs.append(Ob("%s %d ignores latent %d" % (nm, j, i), False))
            for k1, j1 in dep:
                for k2, j2 in dep:
                    if j1 < j2:
                        for v in sorted(dep[k1, j1] & dep[k2, j2])[:2]:
                            a, b = outs[0][k1].el[r, j1], outs[0][k2].el[r, j2]
                            x = nets.variables(a)[v]
                            obs.append(Ob("measurements %d and %d share parameter %s" % (j1, j2, v), E.aig.OR(nets.independent(a, [x]), nets.independent(b, [x]))))
            obs = _cap(obs)
        return obs

    def close_(l, a, b):
        from symex.harness import close
        return close(l, a, b)
    return ctx.run(fn, prop)


def _cap(obs, n=24):
    from symex.harness import E
    keep, hard = [], 0
    for o in obs:
        if E.aig.fold(o.ok) > 1:
            hard += 1
            if hard > n:
                continue
        keep.append(o)
    return keep


def replay(cfg, inp, draws):
    import torch
    from . import rp
    v = rp.V()
    lat, m, L, w, N = (cfg[k] for k in ("lat", "m", "L", "w", "N"))
    try:
        M = nets.real(lat, m, L, w, 0)
        nets.randomise(M, 1)
        z = torch.randn((N, lat), dtype=torch.float64, generator=torch.Generator().manual_seed(2))
        outs = {}

        def out(mode=False):
            M.train(mode)
            with torch.no_grad():
                a, b = M.decoder(z)
            return torch.stack([a, b])
        base = out()
    except Exception as e:
        return {"violations": ["raises: %r" % e]}
    if not v.check(tuple(base.shape) == (2, N, m), "shape: %s" % (tuple(base.shape),)):
        return v
    v.check(torch.equal(base, out(True)), "modes: the decoder differs between the modes")
    v.check(all(p.requires_grad for p in M.parameters()), "grad: a parameter does not require gradients")
    dep = [set() for _ in range(m)]
    cnt = torch.zeros(2, m)
    fan = {}
    for nm, p in M.named_parameters():
        if not nm.startswith("decoder."):
            continue
        flat = p.data.view(-1)
        for i in range(flat.numel()):
            old = flat[i].item()
            flat[i] = old + 1.5
            d = (out() != base).any(1)
            flat[i] = old
            for k in range(2):
                for j in range(m):
                    if d[k, j]:
                        dep[j].add((nm, i))
                        cnt[k, j] += 1
                        fan.setdefault((k, j), set()).add((nm, i))
    for a in range(m):
        for b in range(a):
            s = dep[a] & dep[b]
            v.check(not s, "share: measurements %d and %d both depend on %s" % (b, a, sorted(s)[:3]))
    expect = w * lat + w + L * (w * w + w) + w + 1
    v.check(bool((cnt >= expect).all()), "block: number of parameters used %s, block has %d" % (cnt.tolist(), expect))
    for k, n in ((0, "mean_linear_fulcon"), (1, "cov_linear_fulcon")):
        att = getattr(M.decoder, n, None)
        if att is not None and tuple(att.weight.shape) == (m * w, lat):
            for j in range(m):
                rows = {i // lat for nm, i in fan.get((k, j), ()) if nm == "decoder.%s.weight" % n}
                v.check(rows == set(range(j * w, j * w + w)), "units: measurement %d depends on hidden units %s" % (j, sorted(rows)))
    for r in range(N):
        for i in range(lat):
            keep = z[r, i].item()
            z[r, i] = keep + 1.5
            d = (out() != base)
            z[r, i] = keep
            v.check(not d[:, [q for q in range(N) if q != r]].any() and bool(d[:, r].all()), "latent: rows or latents are mixed up")
    # a model whose saved parameters are loaded gives the same outputs
    M2 = nets.real(lat, m, L, w, 77)
    nets.randomise(M2, 5)
    M2.load_state_dict(M.state_dict())
    M2.eval()
    with torch.no_grad():
        a, b = M2.decoder(z)
    v.check(torch.allclose(torch.stack([a, b]), base), "saved: outputs depend on something that is not a saved parameter")
    return v
