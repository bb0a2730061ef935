"""Contracts of T-ISS (C01 linear filter, C02 update rule, C03 projection back)."""
from vt.harness import contract, OpaqueModel
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh, same_size
from vt.ints import ip, c_eq
from vt import tensor as tz

from .common import *

FN = ["torchiva.t_iss." + x for x in (
    "T_ISS.forward", "over_iss_t_one_iter", "over_iss_t_one_iter_dmc", "iss_updates_with_H", "iss_block_update_type_1",
    "iss_block_update_type_2", "iss_block_update_type_3", "background_update", "demix_derev", "demix_background",
    "projection_back_weights")] + ["torchiva.linalg." + x for x in ("divide", "mag_sq", "hankel_view", "solve_loaded_general")] + [
    "torchiva.base.DRBSSBase._set_params", "torchiva.base.DRBSSBase._reset"]


class Problem:
    """symbolic sizes and inputs of a T-ISS call"""

    def __init__(self, S, case=("determined", "overdetermined"), dmc=None, dtype=None):
        self.S = S
        self.batch = S.batch()
        self.C, self.F, self.N = S.size("n_chan"), S.size("n_freq"), S.size("n_frames")
        det = S.choose("case", list(case))
        if det == "determined":
            self.K = self.C
            self.arg = None
        else:
            self.K = S.size("n_src")
            S.assume(self.K < self.C)
            self.arg = self.K
        self.over = det == "overdetermined"
        self.taps, self.delay = S.size("n_taps", 0), S.size("n_delay", 0)
        if not S.sym:
            self.N = self.N + S.rng.choice([3, 8, 20])
        self.X = S.cplx("X", self.batch + (self.C, self.F, self.N), dtype)
        self.Xbar = lagged(S, self.X, self.taps, self.delay)
        self.model = S.model()
        self.eps = S.eps("eps")
        self.dmc = S.choose("dmc", [False, True]) if dmc is None else dmc

    def demix(self, W, H):
        return demix(self.S, self.X, self.Xbar, W, H)

    def sizes(self):
        return {"W": (self.K, self.F, self.C), "H": (self.K, self.F, self.C, self.taps),
                "J": (self.C - self.K, self.F, self.K), "Y": (self.K, self.F, self.N)}

    def role(self, t):
        if not isinstance(t, Tensor):
            return None
        for r, s in self.sizes().items():
            if r == "J" and not self.over:
                continue
            if sizes_match(t, s) and len(t.axes) == len(s) + len(self.batch):
                if r == "Y" and t.dtype.cat != 3:
                    continue
                return r
        return None


class FilterPlan(Plan):
    """invariant of every loop: the current estimate is the linear filter (W, H) of the
    input; C02 adds the update rule of a generic iteration"""

    def __init__(self, P, loop, rules):
        self.P, self.rules = P, rules
        self.names = {}
        for n, v in loop.entry.items():
            r = P.role(v)
            if r:
                self.names[n] = r
        self.hi = loop.hi
        got = set(self.names.values())
        if "W" not in got and "H" not in got and "Y" not in got:
            raise Unsupported("loop state not recognised at %s" % loop.site)
        self.epoch = same_size(ip(loop.hi), ip(P.n_iter)) if hasattr(P, "n_iter") else False
        self.track_Y = not (self.epoch and P.dmc)

    def find(self, vals, role):
        for n, r in self.names.items():
            if r == role and n in vals:
                return vals[n]
        return None

    def frame(self, loop):
        """values of the roles: in the loop state or in the enclosing scope"""
        out = {}
        for r in ("W", "H", "J", "Y"):
            v = self.find(loop.entry, r)
            if v is None:
                for n, x in loop.env.items():
                    if n not in loop.entry and self.P.role(x) == r and x is not self.P.X:
                        v = x
            out[r] = v
        return out

    def entry(self, loop):
        S, P = self.P.S, self.P
        v = self.frame(loop)
        if self.track_Y and v["Y"] is not None and v["W"] is not None and v["H"] is not None:
            S.eq("loop %s entry: estimate is the filtered input" % label(loop, P), v["Y"], P.demix(v["W"], v["H"]))
        if self.rules:
            self.rules.entry(self, loop, v)

    def state(self, loop, i):
        P = self.P
        tag = "@%d" % loop.c.count("state")
        v = self.frame(loop)
        st = {}
        cur = dict(v)
        for n, r in self.names.items():
            if r in ("W", "H", "J"):
                s = P.batch + P.sizes()[r]
                cur[r] = fresh(r + tag, s, P.X.dtype)
                st[n] = cur[r]
        if cur["W"] is None or cur["H"] is None:
            raise Unsupported("filter not found at %s" % loop.site)
        for n, r in self.names.items():
            if r == "Y" and self.track_Y:
                cur["Y"] = P.demix(cur["W"], cur["H"])
                st[n] = cur["Y"]
        self.cur = {k: (x.clone() if isinstance(x, Tensor) else x) for k, x in cur.items()}
        if self.rules:
            self.rules.state(self, loop, i)
        return st

    def step(self, loop, i, end):
        S, P = self.P.S, self.P
        new = dict(self.cur)
        for r in ("W", "H", "J", "Y"):
            x = self.find(end, r)
            if x is not None:
                new[r] = x
        if self.track_Y:
            S.eq("loop %s: estimate stays the filtered input" % label(loop, P), new["Y"], P.demix(new["W"], new["H"]))
        for r in ("W", "H", "Y"):
            if new[r] is not None and (r != "Y" or self.track_Y):
                S.dtype("loop %s: dtype of %s" % (label(loop, P), r), new[r], P.X.dtype)
        if self.rules:
            self.rules.step(self, loop, i, new)

    def final(self, loop):
        P = self.P
        tag = "@%d" % loop.c.count("state")
        fin = {}
        v = dict(self.cur)
        for n, r in self.names.items():
            if r in ("W", "H", "J"):
                v[r] = fresh(r + tag, P.batch + P.sizes()[r], P.X.dtype)
                fin[n] = v[r]
        for n, r in self.names.items():
            if r == "Y" and self.track_Y:
                fin[n] = P.demix(v["W"], v["H"])
        return fin


def label(loop, P):
    for n, s in (("over iterations", getattr(P, "n_iter", None)), ("over sources", P.K), ("over background", P.C - P.K),
                 ("over channels", P.C), ("over taps", P.taps)):
        if s is not None and same_size(ip(loop.hi), ip(s)):
            return n
    return "at %s" % loop.site


def call(S, P, n_iter, proj):
    ti = S.mod("t_iss")
    return S.call(ti.T_ISS, P.X, n_iter=n_iter, n_taps=P.taps, n_delay=P.delay, n_src=P.arg, model=P.model, proj_back_mic=proj,
                  use_dmc=P.dmc, eps=P.eps)


def tiss_filter(S, case, dmc):
    P = Problem(S, (case,), dmc)
    P.n_iter = S.size("n_iter", 0)
    S.loops(lambda loop: FilterPlan(P, loop, None))
    proj = S.choose("proj", [None, "mic"])
    if proj == "mic":
        proj = S.size("ref", 0, P.C)
    alg, Y = call(S, P, P.n_iter, proj)
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))
    S.shape("stored demixing filter shape", alg.W, P.batch + (P.K, P.F, P.C))
    S.shape("stored dereverberation filter shape", alg.H, P.batch + (P.K, P.F, P.C, P.taps))
    Z = P.demix(alg.W, alg.H)
    if proj is None or bool(P.n_iter == 0):
        S.eq("output is the input filtered by the stored filters", Y, Z)
    else:
        i, j = S.size("i", 0, P.N), S.size("j", 0, P.N)
        S.eq("output is the filtered input up to a gain constant in time", Y[..., i] * Z[..., j], Y[..., j] * Z[..., i])
    S.true("the model was reset", P.model.resets >= 1)
    S.unchanged()


# ------------------------------------------------------------------ update rule
class Rules:
    """C02: order and form of the steering updates inside one iteration"""

    def __init__(self, P):
        self.P = P
        self.phase = []

    # the weighted statistics are divided by max(., eps)
    def steer(self, w, Y, U, avg):
        """v_k = sum_n w_k y_k conj(u) / max(sum_n w_k |u|^2, eps)"""
        S, P = self.P.S, self.P
        T = S.T
        num = T.einsum("...kfn,...kfn,...fn->...kf", w, Y, U.conj())
        den = T.einsum("...kfn,...fn->...kf", w, power(U))
        if avg:
            num, den = num / P.N, den / P.N
        return num / T.clamp(den, min=P.eps), den

    def weights(self, loop):
        P = self.P
        for n, x in loop.env.items():
            if isinstance(x, Tensor) and x.dtype.cat == 2 and sizes_match(x, (P.K, P.F, P.N)) and len(x.axes) == len(P.batch) + 3:
                return x
        raise Unsupported("weights not found at %s" % loop.site)

    def entry(self, plan, loop, v):
        S, P = self.P.S, self.P
        T = S.T
        if plan.epoch:
            S.eq("initial demixing filter selects the first channels", v["W"],
                 (S.eye(P.K, P.C)[:, None, :]).expand(P.batch + (P.K, P.F, P.C)))
            S.eq("initial dereverberation filter is zero", v["H"], 0 * v["H"])
            return
        ph = self.kind(loop)
        if ph is not None:
            self.phase.append(ph)
        if ph == "sources":
            # one iteration starts from the state of the epoch loop
            e = self.epoch
            Y0, W0, H0 = P.demix(e["W"], e["H"]), e["W"], e["H"]
            g = T.clamp(power(Y0).mean(dim=(-2, -1), keepdim=True), min=P.eps)
            d = T.clamp(T.sqrt(g), min=P.eps)
            S.eq("sources are normalised to unit variance", v["Y"], Y0 / d)
            S.eq("demixing filter follows the normalisation", v["W"], W0 / d)
            S.eq("dereverberation filter follows the normalisation", v["H"], H0 / d[..., None])
            S.eq("weights of the model rescaled by the variance", self.weights(loop), P.model(Y0) * g)
            if P.over:
                J = self.back(loop)
                S.eq("background is made uncorrelated with the sources", J,
                     background(S, v["W"], v["H"], P.X, P.Xbar, P.K, 1e-3))

    def back(self, loop):
        P = self.P
        for n, x in loop.env.items():
            if P.role(x) == "J":
                return x
        raise Unsupported("background filter not found")

    def kind(self, loop):
        P = self.P
        hi = ip(loop.hi)
        if loop.parent is not None and same_size(ip(loop.parent.hi), ip(P.C)) and same_size(hi, ip(P.taps)):
            return "taps"
        if P.over:
            if same_size(hi, ip(P.K)):
                return "sources"
            if same_size(hi, ip(P.C - P.K)):
                return "background"
            if same_size(hi, ip(P.C)):
                return "channels"
        else:
            if same_size(hi, ip(P.C)):
                return "sources" if "sources" not in self.phase else "channels"
        return None

    def state(self, plan, loop, i):
        if plan.epoch:
            self.epoch = dict(plan.cur)
            self.phase = []
        loop.vt_kind = None if plan.epoch else self.phase[-1] if self.phase else None

    def step(self, plan, loop, i, new):
        S, P = self.P.S, self.P
        T = S.T
        cur = plan.cur
        if plan.epoch:
            want = ["sources"] + (["background"] if P.over else []) + ["channels"]
            S.true("order of the updates: sources, background, taps", [p for p in self.phase if p != "taps"] == want, repr(self.phase))
            return
        k = loop.vt_kind
        w = None
        if k == "sources":
            w = self.weights(loop)
            Y = cur["Y"]
            U = Y[..., i, :, :]
            v, den = self.steer(w, Y, U, True)
            own = 1.0 - 1.0 / T.sqrt(T.clamp(den[..., i, :], min=P.eps))
            sel = one_hot(S, P.K, i)[:, None]
            v = v * (1 - sel) + own[..., None, :] * sel
            S.eq("source update of the estimate", new["Y"], Y - v[..., None] * U[..., None, :, :])
            S.eq("source update of the demixing filter", new["W"], cur["W"] - v[..., None] * cur["W"][..., i, :, :][..., None, :, :])
            S.eq("source update of the dereverberation filter", new["H"],
                 cur["H"] - v[..., None, None] * cur["H"][..., i, :, :, :][..., None, :, :, :])
        elif k == "background":
            w = self.weights(loop)
            J = self.back(loop)
            Z = T.einsum("...bfk,...kfn->...bfn", J, P.X[..., : P.K, :, :]) - P.X[..., P.K :, :, :]
            U = Z[..., i, :, :]
            v, den = self.steer(w, cur["Y"], U, False)
            S.eq("background update of the estimate", new["Y"], cur["Y"] - v[..., None] * U[..., None, :, :])
            row = T.cat([J[..., i, :, :], (-one_hot(S, P.C - P.K, i)).expand(P.batch + (P.F, P.C - P.K))], dim=-1)
            S.eq("background update of the demixing filter", new["W"], cur["W"] - v[..., None] * row[..., None, :, :])
        elif k == "taps":
            w = self.weights(loop)
            c = loop.parent.i
            U = P.Xbar[..., c, :, i, :]
            v, den = self.steer(w, cur["Y"], U, False)
            S.eq("tap update of the estimate", new["Y"], cur["Y"] - v[..., None] * U[..., None, :, :])
            S.eq("tap update of the dereverberation filter", new["H"], cur["H"] + v[..., None, None] * one_hot2(S, P.C, P.taps, c, i))
            S.eq("tap update leaves the demixing filter", new["W"], cur["W"])


def one_hot(S, n, i):
    e = S.eye(n)
    return e[..., i]


def one_hot2(S, n, m, i, j):
    return S.eye(n)[..., i][:, None] * S.eye(m)[..., j]


def tiss_rule(S, case, dmc):
    P = Problem(S, (case,), dmc)
    P.n_iter = S.size("n_iter", 1)
    rules = Rules(P)
    S.loops(lambda loop: FilterPlan(P, loop, rules))
    alg, Y = call(S, P, P.n_iter, None)
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))


def tiss_pb(S, case, dmc):
    P = Problem(S, (case,), dmc)
    P.n_iter = S.size("n_iter", 1)
    S.loops(lambda loop: FilterPlan(P, loop, None))
    ref = S.size("ref", 0, P.C)
    alg, Y = call(S, P, P.n_iter, ref)
    lhs, rhs = pb_matrix(S, alg.W, alg.J if P.over else None, P.K, P.C, ref)
    a = ls_general(S, lhs, rhs)  # (..., f, s, 1)
    S.eq("scales solve the mixing equations of the reference microphone", Y,
         a.transpose(-3, -2) * P.demix(alg.W, alg.H))


MODEL_ASSUME = ["the source model is an arbitrary real function of the current estimate with an output of the same shape"]

for _case in ("determined", "overdetermined"):
    for _dmc in (False, True):
        for _prop, _name, _fn in (("C01", "output is a linear filter of the input", tiss_filter),
                                  ("C02", "update rule", tiss_rule), ("C03", "projection back", tiss_pb)):
            contract(_prop, "T-ISS %s (%s%s)" % (_name, _case, ", checkpointed" if _dmc else ""), FN, modes="sym", views=("C09", "C10", "C17"), weight=5,
                     assumes=MODEL_ASSUME)(lambda S, f=_fn, c=_case, d=_dmc: f(S, c, d))


# ------------------------------------------------------------------ concrete reference
def ref_tiss(S, X, Xbar, n_src, model, n_iter, eps):
    """textbook T-ISS, written from the update equations"""
    T = S.T
    C, F, N = X.shape[-3:]
    b = tuple(X.shape[:-3])
    K = n_src
    taps = Xbar.shape[-2]
    W = T.eye(K, C, dtype=X.dtype)[:, None, :].expand(b + (K, F, C)).clone()
    H = X.new_zeros(b + (K, F, C, taps))
    over = K < C
    J = background(S, W, H, X, Xbar, K, eps) if over else None
    Y = demix(S, X, Xbar, W, H)
    for _ in range(n_iter):
        w = model(Y)
        g = T.clamp(power(Y).mean(dim=(-2, -1), keepdim=True), min=eps)
        d = T.sqrt(g)
        Y, W, H, w = Y / d, W / d, H / d[..., None], w * g
        if over:
            J = background(S, W, H, X, Xbar, K, 1e-3)
        for s in range(K):
            U = Y[..., s, :, :].clone()
            num = (w * Y * U.conj()[..., None, :, :]).mean(dim=-1)
            den = (w * power(U)[..., None, :, :]).mean(dim=-1)
            v = num / T.clamp(den, min=eps)
            v[..., s, :] = (1 - 1 / T.sqrt(T.clamp(den[..., s, :], min=eps))).to(v.dtype)
            Y = Y - v[..., None] * U[..., None, :, :]
            W = W - v[..., None] * W[..., s : s + 1, :, :]
            H = H - v[..., None, None] * H[..., s : s + 1, :, :, :]
        if over:
            Z = T.einsum("...bfk,...kfn->...bfn", J, X[..., :K, :, :]) - X[..., K:, :, :]
            for m in range(C - K):
                U = Z[..., m, :, :]
                v = (w * Y * U.conj()[..., None, :, :]).sum(dim=-1) / T.clamp((w * power(U)[..., None, :, :]).sum(dim=-1), min=eps)
                Y = Y - v[..., None] * U[..., None, :, :]
                W = W.clone()
                W[..., :K] -= v[..., None] * J[..., m, :, :][..., None, :, :]
                W[..., K + m] += v
        for c in range(C):
            for t in range(taps):
                U = Xbar[..., c, :, t, :]
                v = (w * Y * U.conj()[..., None, :, :]).sum(dim=-1) / T.clamp((w * power(U)[..., None, :, :]).sum(dim=-1), min=eps)
                Y = Y - v[..., None] * U[..., None, :, :]
                H = H.clone()
                H[..., c, t] += v
    return Y, W, H, J


class Cfg:
    pass


def concrete_problem(S):
    P = Problem(S)
    if P.over:
        S.assume(P.C <= 5)
    # coloured, correlated channels; sometimes a silent or duplicated channel
    T = S.T
    P.sp = S.choose("special", ["none"] * 6 + ["silent channel", "silent frames"])
    X = P.X
    X = X + 0.5 * X.roll(1, -3) + 0.4 * X.roll(1, -1)
    if P.sp == "silent channel" and P.C > 1:
        X = X.clone()
        X[..., -1, :, :] = 0
    if P.sp == "silent frames":
        X = X.clone()
        X[..., : min(3, P.N - 1)] = 0
    P.X = S.owned(X, "X")
    P.Xbar = lagged(S, P.X, P.taps, P.delay)
    P.eps = S.choose("epsilon", [1e-5, 1e-3, 1e-2])
    return P


@contract(("C01", "C02", "C03"), "T-ISS against the textbook reference", FN, modes="con", weight=5, trials=60)
def tiss_concrete(S):
    T = S.T
    P = concrete_problem(S)
    n_iter = S.choose("n_iter", [0, 1, 1, 2, 3])
    proj = S.choose("proj", [None, 0, "any"])
    if proj == "any":
        proj = S.size("ref", 0, P.C)
    Yr, Wr, Hr, Jr = well_posed(
        S, lambda X: ref_tiss(S, X, lagged(S, X, P.taps, P.delay), P.K, P.model, n_iter, P.eps), P.X)
    how = S.choose("parameters", ["constructor", "call"])
    ti = S.mod("t_iss")
    if how == "constructor":
        alg = ti.T_ISS(n_iter=n_iter, n_taps=P.taps, n_delay=P.delay, n_src=P.arg, model=P.model, proj_back_mic=proj,
                       use_dmc=P.dmc, eps=P.eps)
        Y = alg(P.X)
    else:
        alg = ti.T_ISS(n_iter=7, n_taps=2, n_delay=3, n_src=None, proj_back_mic=None)
        kw = {} if proj is None else {"proj_back_mic": proj}
        Y = alg(P.X, n_iter=n_iter, n_taps=P.taps, n_delay=P.delay, n_src=P.arg if P.arg is not None else P.C, model=P.model,
                use_dmc=P.dmc, eps=P.eps, **kw)
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))
    S.dtype("dtype", Y, S.c128)
    # C01
    Z = P.demix(alg.W, alg.H)
    if proj is None or n_iter == 0:
        S.eq("output is the input filtered by the stored filters", Y, Z, tol=1e-5)
    if S.prop in ("C01",) and not S.gradient:
        dot = (Y * Z.conj()).sum(-1)
        pw = power(Y).sum(-1) * power(Z).sum(-1)
        coh = T.where(pw > 1e-12, dot.abs() ** 2 / T.clamp(pw, min=1e-12), T.ones_like(pw))
        S.eq("output is the filtered input up to a gain constant in time", coh, T.ones_like(coh), tol=1e-5)
    if S.prop == "C02" or S.prop == "C01":
        S.eq("demixing filter", alg.W, Wr, tol=1e-7)
        S.eq("dereverberation filter", alg.H, Hr, tol=1e-7)
        if proj is None or n_iter == 0:
            S.eq("separated signals", Y, Yr, tol=1e-7)
    if S.prop == "C03" and proj is not None and n_iter > 0:
        lhs, rhs = pb_matrix(S, alg.W, alg.J if P.over else None, P.K, P.C, proj)
        a = ls_general(S, lhs, rhs).transpose(-3, -2)
        S.eq("scales solve the mixing equations of the reference microphone", Y, a * Z, tol=1e-7)
        if not P.over and P.taps == 0 and P.sp == "none":
            if solvable(S, lhs):
                S.eq("the outputs add up to the reference microphone", Y.sum(dim=-3), P.X[..., proj, :, :], tol=2e-2)
    S.unchanged()
