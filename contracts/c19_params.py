"""Networks as parameter vectors and as a structure."""
import types
import torch
from engine.cases import case
from contracts.c10_hybrid import patched
import neural_network_lyapunov.utils as utils

F = torch.float64
U = "utils."
LAYOUTS = [(1, 1), (3, 2), (1, 2, 1), (2, 3, 2), (2, 2, 3, 1), (1, 1, 2, 2, 1)]


def size(widths, bias):
    return sum(a * b + (b if bias else 0)
               for a, b in zip(widths, widths[1:]))


def layers(H, widths, bias, v):
    """[(W, b)]: layer by layer, the weights row by row, then the bias."""
    v, out, k = H.vecl(v), [], 0
    for a, b in zip(widths, widths[1:]):
        W = [v[k + i * a:k + (i + 1) * a] for i in range(b)]
        k += a * b
        out.append((W, v[k:k + b] if bias else [H.num(0.)] * b))
        k += b if bias else 0
    return out


def value(H, ls, x, slope):
    z = H.vecl(x)
    for i, (W, b) in enumerate(ls):
        z = [H.dot(r, z) + t for r, t in zip(W, b)]
        if i < len(ls) - 1:
            z = [H.leaky(t, slope) for t in z]
    return z


def by_hand(H, widths, bias, ls, act):
    mods = []
    for i, (W, b) in enumerate(ls):
        lin = torch.nn.Linear(widths[i], widths[i + 1], bias=bias, dtype=F)
        lin.weight.data = torch.stack([vec(r) for r in W])
        if bias:
            lin.bias.data = vec(b)
        mods.append(lin)
        if i < len(ls) - 1:
            mods.append(torch.nn.ReLU() if act == "relu" else
                        torch.nn.LeakyReLU(act))
    return torch.nn.Sequential(*mods)


def vec(vs):
    return torch.stack([t if hasattr(t, "detach") else
                        torch.tensor(t, dtype=F) for t in vs])


def linears(net):
    return [m for m in net if isinstance(m, torch.nn.Linear)]


def holds(H, name, net, widths, bias, ls):
    """The network has these parameters, each of its type and shape."""
    got = linears(net)
    H.true(name + " layers", len(got) == len(widths) - 1)
    for i, (m, (W, b)) in enumerate(zip(got, ls)):
        sh = (widths[i + 1], widths[i])
        H.true(f"{name} weight {i}", tuple(m.weight.shape) == sh and
               (m.out_features, m.in_features) == sh and
               m.weight.dtype == F and
               isinstance(m.weight, torch.nn.Parameter))
        H.eqv(f"{name} weight {i} values", m.weight.detach().reshape((-1, )),
              [t for r in W for t in r])
        H.true(f"{name} bias {i}", (m.bias is not None) == bias)
        if bias:
            H.true(f"{name} bias {i} shape", tuple(m.bias.shape) ==
                   (widths[i + 1], ) and m.bias.dtype == F and
                   isinstance(m.bias, torch.nn.Parameter))
            H.eqv(f"{name} bias {i} values", m.bias.detach(), b)


def disturb(net, d):
    """What an optimiser does: write into the parameters."""
    for p in net.parameters():
        p.data.add_(d)


PARAMS = [(w, b) for w in LAYOUTS for b in (True, False)]


@case("C19", [U + f for f in ("setup_relu", "update_relu_params",
                              "extract_relu_parameters")], params=PARAMS,
      scope="the layouts listed")
def round_trip(H, widths, bias):
    slope = H.real("slope", 0., 1.)
    n = size(widths, bias)
    v, w, x = (H.tensor(nm, k) for nm, k in (("v", n), ("w", n),
                                             ("x", widths[0])))
    v0, w0 = H.vecl(v), H.vecl(w)
    d = H.real("d")
    H.cover()
    net = utils.setup_relu(widths, params=v, negative_slope=slope, bias=bias,
                           dtype=F)
    H.true("sequence", isinstance(net, torch.nn.Sequential) and
           [isinstance(m, torch.nn.Linear) for m in net] ==
           [i % 2 == 0 for i in range(2 * len(widths) - 3)])
    ls = layers(H, widths, bias, v0)
    holds(H, "set up", net, widths, bias, ls)
    H.eqv("function", net(x), value(H, ls, x, slope))
    # A caller who names no slope gets that of the signature.
    net0 = utils.setup_relu(widths, params=v, bias=bias, dtype=F)
    H.eqv("function of the default slope", net0(x), value(H, ls, x, 0.01))
    if bias:
        held = utils.setup_relu(widths, params=v, dtype=F)
        H.eqv("biased unless told otherwise", utils.extract_relu_parameters(
            held), v0)
    got = utils.extract_relu_parameters(net)
    H.true("read", tuple(got.shape) == (n, ) and got.dtype == F)
    H.eqv("read back", got, v0)
    disturb(net, d)
    H.eqv("given vector kept", v, v0)
    H.eqv("read vector kept", got, v0)
    utils.update_relu_params(net, w)
    ls = layers(H, widths, bias, w0)
    holds(H, "updated", net, widths, bias, ls)
    H.eqv("updated function", net(x), value(H, ls, x, slope))
    got = utils.extract_relu_parameters(net)
    H.eqv("updated read back", got, w0)
    disturb(net, d)
    H.eqv("update vector kept", w, w0)
    H.eqv("update read kept", got, w0)
    # save and restore
    utils.update_relu_params(net, got)
    disturb(net, d)
    utils.update_relu_params(net, got)
    H.eqv("restored", utils.extract_relu_parameters(net), w0)


@case("C19", [U + f for f in ("extract_relu_parameters_grad",
                              "network_zero_grad")], params=PARAMS,
      scope="the layouts listed")
def gradients(H, widths, bias):
    """In the order of the parameters; what has none counts as zero."""
    n = size(widths, bias)
    v = H.tensor("v", n)
    before = H.vecl(v)
    net = utils.setup_relu(widths, params=v,
                           **({} if bias else dict(bias=False)))
    ps = [p for m in linears(net) for p in (m.weight, m.bias)
          if p is not None]
    want = []
    for i, p in enumerate(ps):
        has = H.bit(f"has{i}") if i < 4 else True
        g = H.tensor(f"g{i}", *p.shape)
        p.grad = g if has else None
        want += H.vecl(g.reshape((-1, ))) if has else \
            [H.num(0.)] * len(H.vecl(g.reshape((-1, ))))
    if H.bit("frozen since"):  # a gradient may outlive the training
        ps[0].requires_grad_(False)
    H.cover()
    got = utils.extract_relu_parameters_grad(net)
    H.true("shape", tuple(got.shape) == (n, ) and got.dtype == F)
    H.eqv("gradients", got, want)
    utils.network_zero_grad(net)
    H.eqv("cleared", utils.extract_relu_parameters_grad(net), [0.] * n)
    H.eqv("parameters kept", utils.extract_relu_parameters(net),
          before)


@case("C19", [U + "extract_relu_structure", U + "setup_relu",
              U + "extract_relu_parameters"],
      params=[(w, b, a) for w, b in PARAMS for a in ("relu", 0.25)],
      scope="the layouts listed, an activation between each two layers")
def structure(H, widths, bias, act):
    n = size(widths, bias)
    v, x = H.tensor("v", n), H.tensor("x", widths[0])
    ls = layers(H, widths, bias, H.vecl(v))
    net = by_hand(H, widths, bias, ls, act)
    c = 0. if act == "relu" else act
    H.cover()
    w, s, b = utils.extract_relu_structure(net)
    H.true("widths", isinstance(w, tuple) and w == widths)
    H.true("slope", s == c if len(widths) > 2 else s is None)
    H.true("bias", b is bias)
    again = utils.setup_relu(w, utils.extract_relu_parameters(net), s, b)
    H.eqv("function", again(x), value(H, ls, x, c))
    H.eqv("same", again(x), H.vecl(net(x)))


class Other(torch.nn.Module):

    def forward(self, x):
        return x


BAD = {
    "slopes": lambda: [torch.nn.Linear(1, 1), torch.nn.LeakyReLU(0.1),
                       torch.nn.Linear(1, 1), torch.nn.LeakyReLU(0.2),
                       torch.nn.Linear(1, 1)],
    "kinds": lambda: [torch.nn.Linear(1, 1), torch.nn.LeakyReLU(0.1),
                      torch.nn.Linear(1, 1), torch.nn.ReLU(),
                      torch.nn.Linear(1, 1)],
    "kinds2": lambda: [torch.nn.Linear(1, 1), torch.nn.ReLU(),
                       torch.nn.Linear(1, 1), torch.nn.LeakyReLU(0.1),
                       torch.nn.Linear(1, 1)],
    "bias": lambda: [torch.nn.Linear(1, 1), torch.nn.ReLU(),
                     torch.nn.Linear(1, 1, bias=False)],
    "bias2": lambda: [torch.nn.Linear(1, 1, bias=False), torch.nn.ReLU(),
                      torch.nn.Linear(1, 1)],
    "layer": lambda: [torch.nn.Linear(1, 1), Other(),
                      torch.nn.Linear(1, 1)],
}


@case("C19", [U + "extract_relu_structure"], params=sorted(BAD))
def no_structure(H, what):
    """No width, slope and flag describe this network: refused."""
    net = torch.nn.Sequential(*BAD[what]())
    H.cover()
    H.raises("refused", lambda: utils.extract_relu_structure(net))


@case("C19", [U + f for f in ("save_lyapunov_model", "save_controller_model",
                              "save_second_order_forward_model",
                              "extract_relu_structure")],
      params=[((2, 3, 1), True), ((1, 2, 2, 1), False)],
      scope="the layouts listed")
def saved(H, widths, bias):
    """What is written rebuilds the network and holds the other values."""
    n = size(widths, bias)
    v, x = H.tensor("v", n), H.tensor("x", widths[0])
    slope = 0.25
    ls = layers(H, widths, bias, H.vecl(v))
    net = by_hand(H, widths, bias, ls, slope)
    val = {k: H.tensor(k, 2) for k in ("x_lo", "x_up", "u_lo", "u_up",
                                       "q_equilibrium", "u_equilibrium")}
    num = {k: H.real(k) for k in ("V_lambda", "lyapunov_positivity_epsilon",
                                  "lyapunov_derivative_epsilon", "dt")}
    R, par = H.tensor("R", 2, 2), H.tensor("par", 3)
    opt = types.SimpleNamespace(R=lambda: R, fixed_R=False,
                                extract_params=lambda: {"more": par})
    eps = object()
    H.cover()
    out = []
    with patched(torch, save=lambda data, path: out.append((data, path))):
        utils.save_lyapunov_model(net, num["V_lambda"],
                                  num["lyapunov_positivity_epsilon"],
                                  num["lyapunov_derivative_epsilon"], eps,
                                  opt, "one")
        utils.save_controller_model(net, val["x_lo"], val["x_up"],
                                    val["u_lo"], val["u_up"], "two")
        utils.save_second_order_forward_model(
            net, val["q_equilibrium"], val["u_equilibrium"], num["dt"],
            "three")
    H.true("files", [p for _, p in out] == ["one", "two", "three"])
    for k, (data, _) in enumerate(out):
        again = utils.setup_relu(tuple(data["linear_layer_width"]), None,
                                 data["negative_slope"], data["bias"], F)
        again.load_state_dict(data["state_dict"])
        H.eqv(f"network {k}", again(x), value(H, ls, x, slope))
        rest = {a: b for a, b in data.items() if a not in (
            "linear_layer_width", "negative_slope", "bias", "state_dict")}
        want = [dict({a: num[a] for a in num if a != "dt"}, R=R, more=par,
                     fixed_R=False, eps_type=eps),
                {a: val[a] for a in ("x_lo", "x_up", "u_lo", "u_up")},
                dict(q_equilibrium=val["q_equilibrium"], dt=num["dt"],
                     u_equilibrium=val["u_equilibrium"])][k]
        H.true(f"fields {k}", set(want) <= set(rest))
        for a, b in want.items():
            if isinstance(b, torch.Tensor):
                H.eqv(f"{k} {a}", rest[a].reshape((-1, )),
                      H.vecl(b.reshape((-1, ))))
            elif a in num:
                H.eq(f"{k} {a}", rest[a], b)
            else:
                H.true(f"{k} {a}", rest[a] is b)
