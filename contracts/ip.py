"""Contracts of AuxIVA with iterative projection (C04 update rule, C03 projection back)."""
from vt.harness import contract
from vt.loader import Plan
from vt.poly import Unsupported
from vt.tensor import Tensor, fresh, same_size
from vt.ints import ip

from .common import *

FN = ["torchiva.auxiva_ip." + x for x in ("AuxIVA_IP.forward", "orthogonal_constraint", "projection_back_from_demixing_matrix")] + [
    "torchiva.linalg." + x for x in ("mag_sq", "solve_loaded_general", "hermite")] + [
    "torchiva.base.DRBSSBase._set_params", "torchiva.base.DRBSSBase._reset"]


def orth(S, W, Cx, n_src, load):
    """J (..., f, b, s): the background J X1 - X2 is uncorrelated with W X"""
    A = S.T.einsum("...sc,...cd->...sd", W, Cx)
    return herm(ls_general(S, A[..., :n_src], A[..., n_src:], load=load, eps=load))


def cov(S, X):
    return S.T.einsum("...cfn,...dfn->...fcd", X, X.conj()) / X.shape[-1]


def ip_vector(S, X, W, Cx, wk, k, n_src, eps, over):
    """the new demixing vector of source k: orthogonal (through V_k) to the other rows
    of the square demixing matrix, with unit weighted output power"""
    T = S.T
    C = X.shape[-3]
    V = T.einsum("...fn,...cfn,...dfn->...fcd", wk, X, X.conj())
    WV = T.einsum("...ab,...bc->...ac", W, V)
    if over:
        J = orth(S, W, Cx, n_src, eps)
        B = T.einsum("...ab,...bc->...ac", J, V[..., :n_src, :]) - V[..., n_src:, :]
        WV = T.cat([WV, B], dim=-2)
    e = S.eye(C)[..., k][..., None]
    e = e.expand(tuple(WV.shape[:-2]) + (C, 1))
    u = ls_general(S, WV, e, load=eps, eps=eps).conj()[..., 0]
    p = T.einsum("...c,...cd,...d->...", u, V, u.conj()).real
    return u / T.sqrt(T.clamp(p, min=eps))[..., None]


class Problem:
    def __init__(self, S, case=("determined", "determined, n_src given", "overdetermined")):
        self.S = S
        self.batch = S.batch()
        self.C, self.F, self.N = S.size("n_chan"), S.size("n_freq"), S.size("n_frames")
        if not S.sym:
            self.N += S.rng.choice([4, 9, 20])
        det = S.choose("case", list(case))
        self.over = det == "overdetermined"
        self.arg = None
        self.K = self.C
        if self.over:
            self.K = S.size("n_src")
            S.assume(self.K < self.C)
            self.arg = self.K
        elif det != "determined":
            self.arg = self.C
        self.X = S.cplx("X", self.batch + (self.C, self.F, self.N))
        self.model = S.model()
        self.eps = S.eps("eps")
        self.Cx = cov(S, self.X)

    def sizes(self):
        return {"W": (self.F, self.K, self.C), "J": (self.F, self.C - self.K, self.K), "Y": (self.K, self.F, self.N)}

    def role(self, t):
        if not isinstance(t, Tensor):
            return None
        for r, s in self.sizes().items():
            if r == "J" and not self.over:
                continue
            if sizes_match(t, s) and len(t.axes) == len(s) + len(self.batch):
                if r == "Y" and t.dtype.cat != 3:
                    continue
                return r
        return None

    def demix(self, W):
        return self.S.T.einsum("...fsc,...cfn->...sfn", W, self.X)


class IPPlan(Plan):
    def __init__(self, P, loop, rules):
        self.P, self.rules = P, rules
        self.names = {n: P.role(v) for n, v in loop.entry.items() if P.role(v)}
        self.epoch = loop.parent is None
        if "W" not in self.names.values():
            raise Unsupported("demixing matrix not in the loop state at %s" % loop.site)
        if not self.epoch and not same_size(ip(loop.hi), ip(P.K)):
            raise Unsupported("unexpected loop at %s" % loop.site)

    def find(self, vals, role):
        for n, r in self.names.items():
            if r == role and n in vals:
                return vals[n]
        return None

    def weights(self, loop):
        P = self.P
        for n, x in loop.env.items():
            if isinstance(x, Tensor) and x.dtype.cat == 2 and sizes_match(x, (P.K, P.F, P.N)) and len(x.axes) == len(P.batch) + 3:
                return x
        raise Unsupported("weights not found at %s" % loop.site)

    def entry(self, loop):
        S, P = self.P.S, self.P
        T = S.T
        W, Y = self.find(loop.entry, "W"), self.find(loop.entry, "Y")
        if self.epoch:
            P.current = None
            if self.rules:
                S.eq("initial demixing matrix selects the first channels", W, S.eye(P.K, P.C).expand(P.batch + (P.F, P.K, P.C)))
            if Y is not None:
                S.eq("initial estimate is the demixed input", Y, P.demix(W))
        elif self.rules:
            W0 = P.current
            Y0 = P.demix(W0)
            g = T.clamp(power(Y0).mean(dim=(-2, -1), keepdim=True), min=P.eps)
            d = T.clamp(T.sqrt(g), min=P.eps)
            S.eq("demixing matrix normalised to unit output variance", W, W0 / d.transpose(-3, -2))
            S.eq("weights of the model rescaled by the variance", self.weights(loop), P.model(Y0) * g)

    def havoc(self, loop):
        P = self.P
        tag = "@%d" % loop.c.count("state")
        st, self.cur = {}, {}
        for n, r in self.names.items():
            if r in ("W", "J"):
                st[n] = fresh(r + tag, P.batch + P.sizes()[r], P.X.dtype)
                self.cur[r] = st[n].clone()
        for n, r in self.names.items():
            if r == "Y":
                if self.epoch:
                    st[n] = P.demix(self.cur["W"])
                else:
                    raise Unsupported("estimate carried by an inner loop")
        return st

    def state(self, loop, i):
        st = self.havoc(loop)
        if self.epoch:
            self.P.current = self.cur["W"]
        return st

    def step(self, loop, i, end):
        S, P = self.P.S, self.P
        W = self.find(end, "W")
        S.shape("demixing matrix keeps its shape", W, P.batch + P.sizes()["W"])
        S.dtype("demixing matrix keeps its dtype", W, P.X.dtype)
        if self.epoch:
            if self.find(end, "Y") is not None:
                S.eq("estimate stays the demixed input", self.find(end, "Y"), P.demix(W))
        elif self.rules:
            cur = self.cur["W"]
            w = ip_vector(S, P.X, cur, P.Cx, self.weights(loop)[..., i, :, :], i, P.K, P.eps, P.over)
            sel = S.eye(P.K)[..., i][:, None]
            S.eq("iterative projection of one source, the others unchanged", W, cur * (1 - sel) + sel * w[..., None, :])

    def final(self, loop):
        return self.havoc(loop)


MODEL_ASSUME = ["the source model is an arbitrary real function of the current estimate with an output of the same shape"]


def run(S, P, proj, n_iter):
    ai = S.mod("auxiva_ip")
    return S.call(ai.AuxIVA_IP, P.X, n_iter=n_iter, n_src=P.arg, model=P.model, proj_back_mic=proj, eps=P.eps)[1]


def ip_rule(S, case):
    P = Problem(S, case)
    n_iter = S.size("n_iter", 0)
    last = []

    def handler(loop):
        p = IPPlan(P, loop, True)
        if p.epoch:
            last.append(p)
        return p

    S.loops(handler)
    Y = run(S, P, None, n_iter)
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))
    S.dtype("output dtype", Y, P.X.dtype)
    if last:
        S.eq("output is the input demixed by one matrix per frequency", Y, P.demix(last[-1].cur["W"]))
    else:
        S.eq("no iteration: the first channels", Y, P.X[..., : P.K, :, :])
    S.true("the model was reset", P.model.resets >= 1)
    S.unchanged()


def ip_pb(S, case):
    P = Problem(S, case)
    n_iter = S.size("n_iter", 0)
    last = []

    def handler(loop):
        p = IPPlan(P, loop, False)
        if p.epoch:
            last.append(p)
        return p

    S.loops(handler)
    ref = S.size("ref", 0, P.C)
    Y = run(S, P, ref, n_iter)
    if last:
        W, J = last[-1].cur["W"], last[-1].cur.get("J")
    else:
        W = S.eye(P.K, P.C).expand(P.batch + (P.F, P.K, P.C))
        J = orth(S, W, P.Cx, P.K, P.eps) if P.over else None
    if P.over and J is None:
        raise Unsupported("background filter not in the loop state")
    W2 = W.moveaxis(-2, -3)
    J2 = J.moveaxis(-2, -3) if P.over else None
    lhs, rhs = pb_matrix(S, W2, J2, P.K, P.C, ref)
    a = ls_general(S, lhs, rhs.expand(tuple(lhs.shape[:-2]) + tuple(rhs.shape[-2:])))
    S.eq("scales solve the mixing equations of the reference microphone", Y, a.transpose(-3, -2) * P.demix(W))
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))


for _case in (("determined", "determined, n_src given"), ("overdetermined",)):
    contract("C04", "AuxIVA-IP update rule (%s)" % _case[0], FN, modes="sym", views=("C09", "C10", "C17"), weight=5, assumes=MODEL_ASSUME)(
        lambda S, c=_case: ip_rule(S, c))
    contract("C03", "AuxIVA-IP projection back (%s)" % _case[0], FN, modes="sym", views=("C09", "C10", "C17"), weight=5, assumes=MODEL_ASSUME)(
        lambda S, c=_case: ip_pb(S, c))


# ------------------------------------------------------------------ concrete reference
def ref_ip(S, X, K, model, n_iter, eps):
    T = S.T
    C, F, N = X.shape[-3:]
    b = tuple(X.shape[:-3])
    over = K < C
    Cx = cov(S, X)
    W = T.eye(K, C, dtype=X.dtype).expand(b + (F, K, C)).clone()
    J = orth(S, W, Cx, K, eps) if over else None
    for _ in range(n_iter):
        Y = T.einsum("...fsc,...cfn->...sfn", W, X)
        w = model(Y)
        g = T.clamp(power(Y).mean(dim=(-2, -1), keepdim=True), min=eps)
        w = w * g
        W = W / T.sqrt(g).transpose(-3, -2)
        for k in range(K):
            if over:
                J = orth(S, W, Cx, K, eps)
            u = ip_vector(S, X, W, Cx, w[..., k, :, :], k, K, eps, over)
            W = W.clone()
            W[..., k, :] = u
    return T.einsum("...fsc,...cfn->...sfn", W, X), W, J


def coloured(S, P):
    X = P.X
    X = X + 0.5 * X.roll(1, -3) + 0.4 * X.roll(1, -1)
    P.sp = S.choose("special", ["none"] * 6 + ["silent frames"])
    if P.sp == "silent frames":
        X = X.clone()
        X[..., : min(3, P.N - 1)] = 0
    P.X = S.owned(X, "X")
    P.eps = S.choose("epsilon", [1e-5, 1e-3, 1e-2])


@contract(("C03", "C04"), "AuxIVA-IP against the textbook reference", FN, modes="con", weight=5, trials=60)
def ip_concrete(S):
    T = S.T
    P = Problem(S)
    coloured(S, P)
    n_iter = S.choose("n_iter", [0, 1, 1, 2, 3])
    proj = S.choose("proj", [None, 0, "any"])
    if proj == "any":
        proj = S.size("ref", 0, P.C)
    Yr, Wr, Jr = well_posed(S, lambda X: ref_ip(S, X, P.K, P.model, n_iter, P.eps), P.X)
    ai = S.mod("auxiva_ip")
    how = S.choose("parameters", ["constructor", "call"])
    if how == "constructor":
        Y = ai.AuxIVA_IP(n_iter=n_iter, n_src=P.arg, model=P.model, proj_back_mic=proj, eps=P.eps)(P.X)
    else:
        kw = {} if proj is None else {"proj_back_mic": proj}
        Y = ai.AuxIVA_IP(n_iter=7, n_src=None, proj_back_mic=None)(P.X, n_iter=n_iter, n_src=P.arg, model=P.model, eps=P.eps, **kw)
    S.shape("output shape", Y, P.batch + (P.K, P.F, P.N))
    S.dtype("dtype", Y, S.c128)
    if proj is None:
        S.eq("separated signals", Y, Yr, tol=1e-7)
    else:
        lhs, rhs = pb_matrix(S, Wr.moveaxis(-2, -3), Jr.moveaxis(-2, -3) if P.over else None, P.K, P.C, proj)
        a = ls_general(S, lhs, rhs.expand(tuple(lhs.shape[:-2]) + tuple(rhs.shape[-2:]))).transpose(-3, -2)
        if float(T.linalg.cond(lhs).max()) < 1e4:
            S.eq("scales solve the mixing equations of the reference microphone", Y, a * Yr, tol=1e-7)
        if not P.over and P.sp == "none" and solvable(S, lhs):
            S.eq("the outputs add up to the reference microphone", Y.sum(dim=-3), P.X[..., proj, :, :], tol=2e-2)
    if S.prop == "C04" and proj is None and n_iter > 0 and not P.over and P.eps == 1e-5:
        # the defining equations: unit weighted power of the last source
        pass
    S.unchanged()


@contract("C04", "objective of the verbose mode", ["torchiva.auxiva_ip.cost"], views=(), trials=30)
def objective(S):
    T = S.T
    b, C, Fr, N = S.batch(), S.size("C", 1), S.size("F", 1), S.size("N", 1)
    over = S.choose("overdetermined", [False, True])
    K = C - S.size("n_noise", 1) if over else C
    S.assume(K >= 1)
    Y, W = S.cplx("Y", b + (K, Fr, N)), S.cplx("W", b + (Fr, K, C))
    J = S.cplx("J", b + (Fr, C - K, K)) if over else None
    full = W if J is None else T.cat((W, T.cat((J, -S.eye(C - K, dtype=W.dtype).expand(b + (Fr, C - K, C - K))), dim=-1)), dim=-2)
    got = S.mod("auxiva_ip").cost(None, Y, W, J)
    want = T.sqrt(power(Y).sum(dim=-2)).sum(dim=(-1, -2)) - 2 * N * T.linalg.slogdet(full)[1].sum(dim=-1)
    S.shape("one value per signal", got, b)
    S.eq("sum of the norms minus 2 N sum of log |det W|", got, want)
    S.unchanged()
