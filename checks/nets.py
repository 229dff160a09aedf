"""Building the autoencoder symbolically (all parameters arbitrary) and for real (for replay)."""


# ------------------------------------------------------------------ solver side
def build(ctx, w, lat, m, L, width, whole=False):
    """(model, {variable name: (parameter name, index)}): every registered parameter arbitrary"""
    from symex.harness import E, np, SArray, core
    from symex.core import SR
    import z3
    vae = w.load("medil.vae")
    M = vae.VariationalAutoencoder(lat, m, L, width)
    names = {}
    for nm, p in M.named_parameters():
        el = np.empty(p.a.el.shape, object)
        for i in np.ndindex(*el.shape):
            s = "p:%s%s" % (nm, list(i))
            el[i] = SR(z3.Real(s))
            names[s] = (nm, i)
        p.a = SArray(el, float)
        ctx.inputs["p:" + nm] = p.a.copy()
    return M, names


def term(x):
    from symex import core
    import z3
    return z3.simplify(core.real_z3(x)) if core.is_sym(x) else None


def variables(x):
    from .moments import _vars
    z = term(x)
    return {} if z is None else {str(v): v for v in _vars(z)}


def independent(x, vs):
    """literal: the value of x does not depend on the variables vs"""
    import z3
    from symex import core
    z = term(x)
    z2 = z3.substitute(z, *[(v, z3.FreshReal("alt")) for v in vs])
    return core.blit(core.compare("==", core.SR(z), core.SR(z2)))


# ------------------------------------------------------------------ replay side
def real(lat, m, L, width, seed=0):
    import torch
    from . import rp
    torch.set_default_dtype(torch.float64)
    vae = rp.light("vae")
    torch.manual_seed(seed)
    return vae.VariationalAutoencoder(lat, m, L, width)


def randomise(M, seed):
    import torch
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in M.parameters():
            p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float64))
