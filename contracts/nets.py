"""Specification of fully-connected networks, shared by the contracts."""
import torch
from engine.cases import System


class Net:
    """A network of the code under test with its independent specification."""

    def __init__(self, H, name, widths, act="relu", bias=True, slope=None,
                 last="linear"):
        self.H = H
        self.widths = widths
        n = len(widths) - 2
        # the slope of every hidden layer: the leaky ones differ, so that a
        # layer's own slope matters
        given = [slope] * n if slope is not None else [
            0.1 + 0.15 * i for i in range(n)]
        if act == "steep":
            given = [1.5 - 0.5 * i for i in range(n)]
        kinds = {"relu": [False] * n, "leaky": [True] * n,
                 "steep": [True] * n,
                 "relu, leaky": [i % 2 == 1 for i in range(n)],
                 "leaky, relu": [i % 2 == 0 for i in range(n)]}[act]
        self.c = [k if q else 0. for q, k in zip(kinds, given)]
        biased = {"first": [True] + [False] * n,
                  "rest": [False] + [True] * n,
                  "last": [False] * n + [True]}.get(
                      bias, [bool(bias)] * (n + 1))
        self.W, self.b = [], []
        layers = []
        for i in range(len(widths) - 1):
            lin = torch.nn.Linear(widths[i], widths[i + 1],
                                  bias=biased[i],
                                  dtype=torch.float64)
            W = H.tensor(f"{name}.W{i}", widths[i + 1], widths[i])
            lin.weight.data = W
            self.W.append(H.matl(W))
            if biased[i]:
                b = H.tensor(f"{name}.b{i}", widths[i + 1])
                lin.bias.data = b
                self.b.append(H.vecl(b))
            else:
                self.b.append([H.num(0.)] * widths[i + 1])
            layers.append(lin)
            if i < len(widths) - 2:
                layers.append(torch.nn.LeakyReLU(self.c[i]) if kinds[i] else
                              torch.nn.ReLU())
        self.model = torch.nn.Sequential(*layers)

    def act(self, v, i=0):
        return self.H.leaky(v, self.c[i])

    def trace(self, x):
        """([pre of each hidden layer], [post of each], output)"""
        H = self.H
        z = H.vecl(x)
        pre, post = [], []
        for i in range(len(self.W)):
            v = [H.dot(r, z) + bi for r, bi in zip(self.W[i], self.b[i])]
            if i < len(self.W) - 1:
                pre.append(v)
                z = [self.act(t, i) for t in v]
                post.append(z)
            else:
                z = v
        return pre, post, z

    def value(self, x):
        return self.trace(x)[2]

    def units(self):
        return sum(self.widths[1:-1])

    def pattern_gradient(self, beta):
        """gradient for activations beta[layer][unit] (0/1 scalars)"""
        H = self.H
        G = None
        for i in range(len(self.W)):
            if G is None:
                G = [list(r) for r in self.W[0]]
            else:
                G = [[sum((self.W[i][r][k] * G[k][j]
                           for k in range(len(G))), H.num(0.))
                      for j in range(len(G[0]))]
                     for r in range(len(self.W[i]))]
            if i < len(self.W) - 1:
                G = [[(self.c[i] + (1 - self.c[i]) * beta[i][k]) * g
                      for g in G[k]] for k in range(len(G))]
        return G


def flat(ll):
    return [v for l in ll for v in l]


def only_rows(sysm, keep):
    """The rows that speak of no unknown outside keep (dropping rows is
    sound for entailment)."""
    return System(sysm.kinds,
                  [r for r in sysm.rows if all(i in keep for i in r[0])],
                  sysm.names)


def restrict(H, sysm, given, keep):
    """Substitute known values and keep the unknowns in keep only; returns a
    smaller system over keep (in order)."""
    pos = {g: i for i, g in enumerate(keep)}
    rows = []
    for co, sense, rhs, nm in sysm.rows:
        if all(_zero(k) or i in pos or i in given for i, k in co.items()):
            d = {}
            r = rhs
            for i, k in co.items():
                if _zero(k):
                    continue
                if i in pos:
                    d[pos[i]] = k
                else:
                    r = r - k * given[i]
            rows.append((d, sense, r, nm))
    return System([sysm.kinds[g] for g in keep], rows)


def _zero(k):
    if isinstance(k, (int, float)):
        return k == 0
    return k.is_const() and k.sp is None and k.const() == 0


def network_solutions(H, name, sysm, groups, expected, out=()):
    """Layer by layer, every solution of the system has the expected slacks.

    groups:   [(slack indices, binary indices)] per layer
    expected: [[values]] per layer
    """
    if not H.sym:
        # one query per unknown over the whole system
        for (ss, _), ex in zip(groups, expected):
            for i, e in zip(ss, ex):
                H.entail(f"{name}.s{i}", sysm, {i: 1.}, 0., e)
        return
    given = {}
    for (ss, zs), ex in zip(groups, expected):
        # the unknowns of one unit occur with nothing but the units before
        for s, z, e in zip(ss, zs, ex):
            sub = restrict(H, sysm, given, [s, z])
            H.entail(f"{name}.s{s}", sub, {0: 1.}, 0., e)
        for s, e in zip(ss, ex):
            given[s] = H.scalar(e)
    return given


def activation_witness(H, pre, beta=None):
    """0/1 value of a unit: 1 if pre > 0, 0 if pre < 0, either at 0."""
    return H.ite(pre >= 0, 1., 0.)
