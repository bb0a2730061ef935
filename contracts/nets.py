"""Contracts of the mask networks (C22)."""
from vt.harness import contract, Reject

ASSUME = ["torch.nn / torchaudio layers in evaluation mode: Linear, Conv1d, ConvTranspose1d, BatchNorm1d, MaxPool1d, LSTM and MelScale act "
          "on each element of their batch dimension separately, with the documented output sizes (assumed contracts); sigmoid maps into [0, 1]"]


def M(mod, *names):
    return ["torchiva.models.%s.%s" % (mod, n) for n in names]


def evalmode(S, net):
    if not S.sym:
        import torch

        with torch.no_grad():
            g = S.rng.choice([1.0, 1.0, 5.0, 0.2])
            for p in net.parameters():
                p.copy_(g * torch.randn(p.shape, generator=S.g) * 0.5)
            for n, b in net.named_buffers():
                if "running_mean" in n:
                    b.copy_(torch.randn(b.shape, generator=S.g))
                elif "running_var" in n:
                    b.copy_(0.1 + torch.rand(b.shape, generator=S.g))
    return net.eval()


def signal(S, b, F, N):
    X = S.cplx("X", b + (F, N), S.c64)
    if not S.sym:
        T = S.T
        n = 1
        for k in b:
            n *= k
        lv = [S.rng.choice([1.0, 1.0, 1e-3, 100.0, 0.0]) for _ in range(n)]
        S.log["levels"] = lv
        X = S.owned(X * T.tensor(lv, dtype=T.float32).reshape(b + (1, 1)), "X")
    return X


def masks(S, net, X, b, shape, lo, hi):
    if not S.sym:
        import torch

        with torch.no_grad():
            out = net(X)
    else:
        out = net(X)
    S.shape("shape of the masks", out, b + shape)
    S.dtype("the masks are real", out, S.f32)
    S.bounds("range of the masks", out, lo, hi)
    S.local("masks of each signal", out)
    S.unchanged()
    if not S.sym and not S.view:
        import itertools
        import torch

        S.true("finite", bool(torch.isfinite(out).all()))
        pos = list(itertools.product(*[range(n) for n in b]))
        for i in S.rng.sample(pos, min(2, len(pos))):
            with torch.no_grad():
                one = net(X[i].clone())
            S.shape("shape of the masks of one signal", one, shape)
            e = float((one - out[i]).abs().max())
            # normalisation layers amplify the rounding errors of a constant signal
            tol = 2e-4 if float(X[i].abs().max()) > 0 else 1e-2
            S.true("masks of one signal do not depend on the batch", e < tol, "difference %g of element %s of the batch %s" % (e, i, b))
    return out


def sizes(S):
    if S.sym:
        return S.batch(), S.size("n_freq"), S.size("n_frames")
    return S.batch(), S.choose("n_freq", [9, 17, 5]), S.choose("n_frames", [3, 7, 12, 1])


@contract("C22", "BLSTMMask", M("blstm", "BLSTMMask.__init__", "BLSTMMask.forward"), trials=60, assumes=ASSUME)
def blstm(S):
    b, F, N = sizes(S)
    mel, hid = (S.size("n_mel"), S.size("n_hidden")) if S.sym else (S.choose("n_mel", [2, 4]), S.choose("n_hidden", [3, 5]))
    kw = dict(mag_spec=S.choose("mag_spec", [True, False]), log_spec=S.choose("log_spec", [True, False]), n_hidden=hid)
    net = evalmode(S, S.mod("models.blstm").BLSTMMask(F, mel, **kw))
    masks(S, net, signal(S, b, F, N), b, (F, N), 1e-5, 1.0)


@contract("C22", "MaskMVDRSupport", M("blstm", "MaskMVDRSupport.__init__", "MaskMVDRSupport.forward"), trials=60, assumes=ASSUME)
def mvdr_support(S):
    b, F, N = sizes(S)
    if S.sym:
        hid, K, Q, eps = S.size("n_hidden"), S.size("n_src"), S.size("n_masks"), S.eps("eps")
    else:
        hid, K, Q = S.choose("n_hidden", [3, 6]), S.choose("n_src", [1, 2, 3]), S.choose("n_masks", [1, 2, 3, 4])
        eps = S.choose("eps", [1e-3, 1e-2, 0.3, 1e-5])
    layers = S.choose("layers", [1, 3])
    net = evalmode(S, S.mod("models.blstm").MaskMVDRSupport(n_src=K, n_masks=Q, n_input=F, n_hidden=hid, n_layers=layers, eps=eps))
    masks(S, net, signal(S, b, F, N), b, (K, Q, F, N), eps, 1.0)


@contract("C22", "GLUMask", M("glu", "GLUMask.__init__", "GLUMask.forward", "GLULayer.__init__", "GLULayer.forward"), trials=60, weight=2, assumes=ASSUME)
def glu(S):
    b, F, N = sizes(S)
    H = S.size("n_bottleneck") if S.sym else S.choose("n_bottleneck", [2, 4, 20])
    kw = dict(pool_size=S.choose("pool_size", [2, 3, 1]), kernel_size=S.choose("kernel_size", [3, 1, 5]), n_sublayers=S.choose("n_sublayers", [1, 2]),
              mag_spec=S.choose("mag_spec", [True, False]), log_spec=S.choose("log_spec", [True, False]))
    net = evalmode(S, S.mod("models.glu").GLUMask(F, H, **kw))
    masks(S, net, signal(S, b, F, N), b, (F, N), 1e-5, 1.0)


@contract("C22", "SimpleModel", M("simple", "SimpleModel.__init__", "SimpleModel.forward"), trials=60, assumes=ASSUME)
def simple(S):
    b, F, N = sizes(S)
    mel = S.size("n_mels") if S.sym else S.choose("n_mels", [2, 4])
    hid = S.choose("n_hidden", [None, "given"])
    hid = None if hid is None else (S.size("n_hidden") if S.sym else 5)
    net = evalmode(S, S.mod("models.simple").SimpleModel(n_freq=F, n_mels=mel, n_hidden=hid, eps=S.eps("eps")))
    masks(S, net, signal(S, b, F, N), b, (F, N), 0.0, 1.0)
