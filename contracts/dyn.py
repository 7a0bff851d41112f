"""A network known by its contract only: an arbitrary function phi, and a set
of mixed-integer constraints that defines it (property C01)."""
import types
import torch
from engine.stubs import stands_for
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.mip_utils as mip_utils

F = torch.float64
UNITS = ("relu_input_lo", "relu_input_up", "relu_output_lo", "relu_output_up")
IA, LP, MIP, IA_MIP = (mip_utils.PropagateBoundsMethod.IA,
                       mip_utils.PropagateBoundsMethod.LP,
                       mip_utils.PropagateBoundsMethod.MIP,
                       mip_utils.PropagateBoundsMethod.IA_MIP)


def T(v):
    return v if hasattr(v, "detach") else torch.tensor(v, dtype=F)


def vec(vals):
    return torch.stack([T(v) for v in vals])


class Phi(torch.nn.Sequential):
    """An arbitrary function R^nin -> R^nout."""

    def __init__(self, H, name, nin, nout):
        super().__init__()
        self.H, self.name, self.nin, self.nout = H, name, nin, nout

    def __getitem__(self, i):
        return types.SimpleNamespace(in_features=self.nin,
                                     out_features=self.nout)

    def value(self, x):
        x = self.H.vecl(x)
        assert len(x) == self.nin, "the network's input has another size"
        return [self.H.uninterp(f"{self.name}{j}", *x)
                for j in range(self.nout)]

    def __call__(self, x):
        assert x.shape[-1] == self.nin, "the network's input size"
        if len(x.shape) == 1:
            return vec(self.value(x))
        return torch.stack([self(x[i]) for i in range(x.shape[0])])


@stands_for(rto.ReLUFreePattern)
class Pattern:
    """Stands for ReLUFreePattern(phi): its output_constraint returns
    arbitrary constraints, of which (s, z) are the values at the input."""

    def __init__(self, phi, dtype=None):
        self.model = phi
        self.name = phi.name
        self.dtype = dtype
        self.calls = []
        phi.pattern = self

    def at(self, xin, ns=1, nz=1, nineq=1, neq=1):
        """Fix the input of which the constraints are the encoding."""
        H = self.model.H
        self.xin = H.vecl(xin)
        self.s = [H.real(f"{self.name}.s{i}") for i in range(ns)]
        self.z = [H.choice(f"{self.name}.z{i}", [0., 1.])
                  for i in range(nz)]
        self.n = (nineq, neq)

    def output_constraint(self, x_lo, x_up, method):
        """The encoding for the box, with the bounds of its units."""
        self.calls.append((x_lo.detach().clone(), x_up.detach().clone(),
                           method))
        c = self._encoding()
        c.nn_input_lo, c.nn_input_up = x_lo, x_up
        c.nn_output_lo, c.nn_output_up = self.output_bounds()
        for a, v in zip(UNITS, self.units()):
            setattr(c, a, v)
        # what the caller was given: the row data it has to keep
        self.ret = c
        self.bounds = {a: getattr(c, a) for a in (
            "nn_input_lo", "nn_input_up", "nn_output_lo", "nn_output_up") +
            UNITS}
        return c

    def _compute_layer_bound(self, x_lo, x_up, method,
                             create_prog_callback=None):
        """The bounds of the units over the box (restricted to the points of
        the program of the callback, if one is given)."""
        self.calls.append((x_lo.detach().clone(), x_up.detach().clone(),
                           method))
        self.callback = create_prog_callback
        return self.units()

    def _compute_network_output_bounds(
            self, previous_neuron_input_lo, previous_neuron_input_up,
            network_input_lo, network_input_up, method,
            create_prog_callback=None):
        self._units_given(previous_neuron_input_lo, previous_neuron_input_up,
                          network_input_lo, network_input_up)
        self.model.H.true(self.name + ".one method",
                    method == self.calls[-1][2])
        return self.output_bounds()

    def _output_constraint_given_bounds(self, z_pre_relu_lo, z_pre_relu_up,
                                        x_lo, x_up):
        self._units_given(z_pre_relu_lo, z_pre_relu_up, x_lo, x_up)
        self.encoded = getattr(self, "encoded", 0) + 1
        c = self._encoding()
        c.nn_input_lo, c.nn_input_up = x_lo, x_up
        c.relu_input_lo, c.relu_input_up = z_pre_relu_lo, z_pre_relu_up
        self.ret = c
        return c

    def _units_given(self, lo, up, x_lo, x_up):
        """The bounds of units are those computed for this box."""
        H, nm = self.model.H, self.name
        H.true(nm + ".bounds computed", len(self.calls) == 1)
        u = self.units()
        H.same_tensor(nm + ".unit lower", lo, u[0])
        H.same_tensor(nm + ".unit upper", up, u[1])
        H.eqv(nm + ".box lower", x_lo, self.calls[0][0])
        H.eqv(nm + ".box upper", x_up, self.calls[0][1])

    def units(self):
        if not hasattr(self, "_units"):
            H = self.model.H
            self._units = tuple(H.tensor(f"{self.name}.{a}",
                                         len(self.s)) for a in UNITS)
        return self._units

    def output_bounds(self):
        if not hasattr(self, "_out"):
            H, nm = self.model.H, self.name
            y = self.model.value(self.xin)
            self._out = (vec([a - H.real(f"{nm}.lo{i}", 0.)
                              for i, a in enumerate(y)]),
                         vec([a + H.real(f"{nm}.up{i}", 0.)
                              for i, a in enumerate(y)]))
        return self._out

    def _encoding(self):
        H, phi, nm = self.model.H, self.model, self.name
        c = rto.ReLUMixedIntegerConstraintsReturn()
        nin, nout = phi.nin, phi.nout
        ns, nz = len(self.s), len(self.z)
        y = phi.value(self.xin)
        if not hasattr(self, "rows"):
            self.rows = {}
            for kind, n in (("in", self.n[0]), ("eq", self.n[1])):
                M = (H.tensor(f"{nm}.A{kind}_x", n, nin),
                     H.tensor(f"{nm}.A{kind}_s", n, ns),
                     H.tensor(f"{nm}.A{kind}_z", n, nz))
                g = [a + b + d for a, b, d in zip(
                    H.mv(M[0], self.xin), H.mv(M[1], self.s),
                    H.mv(M[2], self.z))]
                if kind == "in":
                    t = H.vecl(H.tensor(f"{nm}.t", n, lo=0.))
                    g = [a + b for a, b in zip(g, t)]
                self.rows[kind] = M + (vec(g), )
            self.Aout = H.tensor(f"{nm}.Aout_s", nout, ns)
            self.Cout = vec([a - b for a, b in
                             zip(y, H.mv(self.Aout, self.s))])
        for kind, M in self.rows.items():
            for a, t in zip(("input", "slack", "binary"), M):
                setattr(c, f"A{kind}_{a}", t.detach().clone())
            setattr(c, f"rhs_{kind}", M[3].detach().clone())
        c.Aout_slack = self.Aout.detach().clone()
        c.Cout = self.Cout.detach().clone()
        return c

    def gaps(self, xin, s, z):
        """[(sense, gap)] of the rows of the encoding."""
        H = self.model.H
        out = []
        for k, sense in (("in", "<"), ("eq", "=")):
            Mx, Ms, Mz, b = self.rows[k]
            for a, e, d, r in zip(H.mv(Mx, xin), H.mv(Ms, s), H.mv(Mz, z),
                                  H.vecl(b)):
                out.append((sense, a + e + d - r))
        return out

    def contains(self, name, xin, method=None):
        """The one call asked for a box with this point."""
        H = self.model.H
        H.true(name + ".once", len(self.calls) == 1)
        a, b, m = self.calls[0]
        H.lev(name + ".lo", a, xin)
        H.lev(name + ".up", xin, b)
        H.true(name + ".method", method is None or m == method)

    def domain(self, name, lo, up, method):
        """The one call asked for this box and method."""
        H = self.model.H
        H.true(name + ".once", len(self.calls) == 1)
        a, b, m = self.calls[0]
        H.eqv(name + ".lo", a, lo)
        H.eqv(name + ".up", b, up)
        H.true(name + ".method", m == method)


def stub_networks():
    """ReLUFreePattern -> its contract."""
    from contracts.c10_hybrid import patched
    return patched(rto, ReLUFreePattern=Pattern)
