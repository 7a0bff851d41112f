"""Image encoders and decoders: the layout of what they return."""
import torch
from engine.cases import case
from contracts.c10_hybrid import patched
import neural_network_lyapunov.encoders as encoders

E = "encoders."
LAYERS = ("Linear", "Conv2d", "ConvTranspose2d", "MaxPool2d", "Upsample")


def pair(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


class Stub:
    """Layers by contract: any function of their input, of the documented
    shape.  While .live is set, inputs and outputs are recorded."""

    def __init__(self, H):
        self.H = H
        self.live = False
        self.seen = []      # (kind, input shape, input, output)
        self.made = []
        stub = self

        class Layer(torch.nn.Module):
            kind = ""

            def forward(self, x):
                sh = self.out(tuple(x.shape))
                if not stub.live:
                    return torch.zeros(sh)
                k = len(stub.seen)
                y = self.value(x, sh, f"y{k}")
                stub.seen.append((self, tuple(x.shape), x, y))
                return y

            def value(self, x, sh, name):
                return H.tensor(name, *sh)

        class Linear(Layer):
            def __init__(self, i, o, bias=True):
                super().__init__()
                self.i, self.o = i, o
                stub.made.append(("Linear", i, o))

            def out(self, sh):
                H.true("linear fits", sh[-1] == self.i)
                return sh[:-1] + (self.o, )

        class Conv2d(Layer):
            def __init__(self, i, o, kernel_size, stride=1, padding=0):
                super().__init__()
                self.i, self.o = i, o
                self.k, self.s, self.p = map(pair, (kernel_size, stride,
                                                    padding))

            def out(self, sh):
                H.true("convolution fits", len(sh) == 4 and sh[1] == self.i)
                return (sh[0], self.o) + tuple(
                    (n + 2 * p - k) // s + 1 for n, k, s, p in
                    zip(sh[2:], self.k, self.s, self.p))

        class ConvTranspose2d(Conv2d):
            def out(self, sh):
                H.true("convolution fits", len(sh) == 4 and sh[1] == self.i)
                return (sh[0], self.o) + tuple(
                    (n - 1) * s - 2 * p + k for n, k, s, p in
                    zip(sh[2:], self.k, self.s, self.p))

        class MaxPool2d(Layer):
            def __init__(self, kernel_size, stride=None):
                super().__init__()
                self.k = pair(kernel_size)
                self.s = pair(stride or kernel_size)

            def out(self, sh):
                return sh[:2] + tuple((n - k) // s + 1 for n, k, s in
                                      zip(sh[2:], self.k, self.s))

            def value(self, x, sh, name):
                # the largest of rectified values
                return torch.relu(H.tensor(name, *sh))

        class Upsample(Layer):
            def __init__(self, scale_factor=None):
                super().__init__()
                self.f = scale_factor

            def out(self, sh):
                return sh[:2] + tuple(int(n * self.f) for n in sh[2:])

        self.kw = dict(Linear=Linear, Conv2d=Conv2d, MaxPool2d=MaxPool2d,
                       ConvTranspose2d=ConvTranspose2d, Upsample=Upsample)


def same(H, name, got, want):
    """Two long vectors agree: their products with any weights do."""
    got, want = H.vecl(got), H.vecl(want)
    H.true(name + " size", len(got) == len(want))
    if not H.sym:
        H.true(name, all(abs(a - b) < 1e-6 for a, b in zip(got, want)))
        return
    for k in range(0, len(want), 500):
        a, b = got[k:k + 500], want[k:k + 500]
        w = [H.fresh("w") for _ in a]
        H.eq(f"{name}[{k}:]", H.dot(w, a), H.dot(w, b))


def chain(H, S, x, rectify):
    """Each layer is given what the previous one returned, rectified where
    there is a rectifier (a vector is an image flattened in order)."""
    prev = H.vecl(x)
    for i, (layer, sh, got, y) in enumerate(S.seen):
        H.true(f"batch {i}", sh[0] == x.shape[0])
        same(H, f"input of layer {i}", got, prev)
        prev = H.vecl(y)
        if rectify(S, i):
            prev = [H.relu(v) for v in prev]
    return prev


ENC = [("LinearEncoder1", 2, 2, 3, 1, 2), ("LinearEncoder1", 3, 2, 1, 0, 1),
       ("CNNEncoder1", 2, 4, 8, 1, 2), ("CNNEncoder1", 3, 4, 4, 0, 1),
       ("CNNEncoder1", 2, 5, 4, 1, 1), ("CNNEncoder1", 1, 12, 8, 1, 1),
       ("CNNEncoder2", 2, 33, 33, 1, 1)]
NL = {"LinearEncoder1": 3, "CNNEncoder1": 5, "CNNEncoder2": 6,
      "LinearDecoder1": 3, "CNNDecoder1": 3, "CNNDecoder2": 8}


@case("C22", [E + "Encoder.__init__", E + "Encoder.layers_output_shape",
              E + "LinearEncoder1.__init__", E + "LinearEncoder1.forward",
              E + "CNNEncoder1.__init__", E + "CNNEncoder1.forward",
              E + "CNNEncoder2.__init__", E + "CNNEncoder2.forward"],
      params=ENC, thorough=[("LinearEncoder1", 5, 4, 4, 1, 3)],
      scope="the image sizes and batches listed; layers by contract (any "
            "function of their input)")
def encode(H, cls, nz, w, h, gray, batch):
    ch = 2 if gray else 6
    x = H.tensor("x", batch, ch, w, h)
    S = Stub(H)
    H.cover()
    with patched(torch.nn, **S.kw):
        e = getattr(encoders, cls)(nz, w, h, bool(gray))
        S.live = True
        r = e(x)
    H.true("pair", len(r) == 2)
    mean, logvar = r
    H.true("layers", len(S.seen) == NL[cls])
    last = chain(H, S, x, lambda S, i: i < len(S.seen) - 1 and
                 type(S.seen[i][0]).__name__ != "MaxPool2d")
    H.shape("mean shape", mean, (batch, nz))
    H.shape("log variance shape", logvar, (batch, nz))
    for b in range(batch):
        row = last[2 * nz * b:2 * nz * (b + 1)]
        H.eqv(f"mean {b}", mean[b], row[:nz])
        H.eqv(f"log variance {b}", logvar[b], row[nz:])


DEC = [("LinearDecoder1", 2, 2, 3, 1, 2), ("LinearDecoder1", 3, 2, 1, 0, 1),
       ("CNNDecoder1", 2, 4, 8, 1, 2), ("CNNDecoder1", 3, 4, 4, 0, 1),
       ("CNNDecoder1", 1, 12, 8, 1, 1),
       ("CNNDecoder2", 2, 32, 36, 1, 1)]


@case("C22", [E + "Decoder.__init__",
              E + "LinearDecoder1.__init__", E + "LinearDecoder1.forward",
              E + "CNNDecoder1.__init__", E + "CNNDecoder1.forward",
              E + "CNNDecoder2.__init__", E + "CNNDecoder2.forward"],
      params=DEC, thorough=[("LinearDecoder1", 5, 4, 4, 1, 3)],
      scope="the image sizes and batches listed; layers by contract (any "
            "function of their input)")
def decode(H, cls, nz, w, h, gray, batch):
    ch = 2 if gray else 6
    z = H.tensor("z", batch, nz)
    S = Stub(H)
    H.cover()
    with patched(torch.nn, **S.kw):
        d = getattr(encoders, cls)(nz, w, h, bool(gray))
        S.live = True
        y = d(z)
    H.true("layers", len(S.seen) == NL[cls])
    nlin = sum(1 for s in S.seen if type(s[0]).__name__ == "Linear")

    def rectify(S, i):
        # not after the last linear layer before the convolutions
        return i < len(S.seen) - 1 and i != nlin - 1

    last = chain(H, S, z, rectify)
    H.shape("image shape", y, (batch, ch, w, h))
    same(H, "image", y, [1 / (1 + H.exp(-v)) for v in last])
    for i, v in enumerate(H.vecl(y)[:3]):
        H.true(f"pixel {i} in range", H.and_(v >= 0., v <= 1.))
