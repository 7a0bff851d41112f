"""The training loops."""
import types
import numpy as np
import torch
from engine.cases import case
from engine.stubs import stub
from contracts.c10_hybrid import patched
from contracts.c20_trainer import (TR, AnySystem, AnyR, same_rows_of,
                                   rows_of)
import neural_network_lyapunov.train_lyapunov_barrier as train
import neural_network_lyapunov.feedback_system as feedback_system
import neural_network_lyapunov.r_options as r_options
import neural_network_lyapunov.hybrid_linear_system as hls

F = torch.float64


def net(H, name):
    lin = torch.nn.Linear(1, 1, dtype=F)
    lin.weight.data = H.tensor(name + ".w", 1, 1)
    lin.bias.data = H.tensor(name + ".b", 1)
    m = torch.nn.Sequential(lin)
    for p in m.parameters():
        p.requires_grad_(True)
    return m


class Plant(AnySystem):
    """A plant; a closed loop's step depends on the state of training."""

    def __init__(self, H, nx, run):
        super().__init__(H, nx)
        self.run = run

    def next(self, x, mode=None):
        return super().next(x, self.run.version if self.run.feedback else
                            None)


class Loop(Plant, feedback_system.FeedbackSystem):

    def __init__(self, H, nx, run):
        Plant.__init__(self, H, nx, run)
        self.controller_network = net(H, "controller")


def within(H, k, limit):
    """The loop ends: its body runs at most as often as the limit says."""
    H.true("ends within the limit", k < limit)
    if k >= limit:
        raise AssertionError(f"iteration {k + 1} of {limit}")


class Run:
    """A trainer, and the history of what it trains: `version` counts the
    updates of the parameters, and `values` keeps their values."""

    def __init__(self, H, feedback=False, search=True, fixed=False):
        self.H, self.feedback, self.version = H, feedback, 0
        self.log = []
        t = self.t = train.Trainer()
        nx = 1
        sys_ = (Loop if feedback else Plant)(H, nx, self)
        t.lyapunov_hybrid_system = types.SimpleNamespace(
            system=sys_, lyapunov_relu=net(H, "lyapunov"))
        t.R_options = r_options.FixedROptions(H.tensor("R", nx, nx)) \
            if fixed else AnyR(H, nx)
        t.search_controller = search
        t.lyapunov_positivity_sample_cost_weight = H.real("weight P")
        t.lyapunov_derivative_sample_cost_weight = H.real("weight D")
        t.lyapunov_positivity_convergence_tol = H.real("tol P")
        t.lyapunov_derivative_convergence_tol = H.real("tol D")
        t.lyapunov_positivity_mip_cost_weight = H.real("mip weight P")
        t.lyapunov_derivative_mip_cost_weight = H.real("mip weight D")
        t.learning_rate = H.real("learning rate")
        t.momentum = H.real("momentum")
        self.all = list(t.lyapunov_hybrid_system.lyapunov_relu.parameters())
        if feedback and search:
            self.all += list(sys_.controller_network.parameters())
        if not fixed:
            self.all += [t.R_options.variables()[0]]
        self.frozen = list(sys_.controller_network.parameters()) \
            if feedback and not search else []
        self.values = [self.read()]
        self.due = None
        self.nloss = 0

    def read(self):
        return [self.H.vecl(p.detach()) for p in self.all + self.frozen]

    def loss(self, name, value, on=None):
        """A loss of this value whose gradient is any vector."""
        H = self.H
        out = torch.tensor(value, dtype=F)
        g = []
        for i, p in enumerate(self.all):
            c = H.tensor(f"{name}.gradient{i}", *p.shape)
            g.append(H.vecl(c))
            out = out + torch.sum(c * (p - p.detach()))
        return out, g

    def update(self):
        self.version += 1
        for i, p in enumerate(self.all):
            p.data.copy_(self.H.tensor(f"step{self.version}.{i}", *p.shape))
        self.values.append(self.read())

    def at(self, name, version):
        H, now = self.H, self.read()
        for i, (a, b) in enumerate(zip(now, self.values[version])):
            H.eqv(f"{name}[{i}]", a, b)
        ps = self.t._training_params()
        H.true(name + " trainable", len(ps) == len(self.all) and
               all(a is b for a, b in zip(ps, self.all)) and
               all(p.requires_grad for p in ps))

    def optimizer(self, kind):
        run = self

        class Optimizer:

            def __init__(self, params, lr=None, momentum=0.):
                ps = list(params)
                H = run.H
                H.true("optimizes the parameters", len(ps) == len(
                    run.all) and all(a is b for a, b in zip(ps, run.all)))
                H.eq("learning rate", lr, run.t.learning_rate)
                if kind == "SGD":
                    H.eq("momentum", momentum, run.t.momentum)
                self.ps = ps
                run.log.append(("optimizer", kind))

            def zero_grad(self, set_to_none=True):
                for p in self.ps:
                    p.grad = None

            def step(self, closure=None):
                H = run.H
                H.true("step is due", run.due is not None)
                for i, (p, g) in enumerate(zip(self.ps, run.due[1])):
                    H.true(f"step {run.version} has a gradient {i}",
                           p.grad is not None)
                    H.eqv(f"step {run.version} gradient {i}",
                          p.grad.reshape((-1, )), g)
                run.due = None
                run.update()

        return Optimizer

    def optimizers(self):
        return patched(torch.optim, Adam=self.optimizer("Adam"),
                       SGD=self.optimizer("SGD"))


LOOPS = [(1, False, True, False, "Adam", 0), (2, False, True, True, "SGD", 2),
         (3, False, False, False, "SGD", 1), (2, True, True, False, "Adam", 1),
         (2, True, False, False, "Adam", 2), (1, True, True, True, "SGD", 0),
         (1, False, False, False, "Adam", 3)]


@case("C20", [TR + "train", TR + "_training_params"], params=LOOPS,
      scope="up to 3 iterations; networks of 2 parameters, states of size 1, "
      "up to 3 initial samples")
def training(H, limit, feedback, search, fixed, kind, n):
    R = Run(H, feedback, search, fixed)
    t = R.t
    t.optimizer, t.max_iterations = kind, limit
    gapw = t.boundary_value_gap_mip_cost_weight = H.real("gap weight")
    X = H.tensor("samples", n, 1)
    sys_ = t.lyapunov_hybrid_system.system
    given = []

    def total(P, D, DN, *w):
        k = len(given)
        within(H, k, limit)
        H.true(f"{k}: previous step taken", R.due is None and
               R.version == k)
        names = ("P", "D", "Dnext")
        if k == 0:
            want = [rows_of(X), rows_of(X), [sys_.next(x) for x in
                                             rows_of(X)]]
        else:
            want = [rows_of(M) for M in given[-1][2]]
            if feedback:
                want[2] = [sys_.next(x) for x in want[1]]
        for a, M, e in zip(names, (P, D, DN), want):
            same_rows_of(H, f"{k} {a}", M, e)
        for i, (a, e) in enumerate(zip(w, (
                t.lyapunov_positivity_sample_cost_weight,
                t.lyapunov_derivative_sample_cost_weight,
                t.lyapunov_positivity_mip_cost_weight,
                t.lyapunov_derivative_mip_cost_weight, gapw))):
            H.eq(f"{k} weight {i}", a, e)
        val = H.real(f"loss{k}")
        loss = R.due = R.loss(f"loss{k}", val)
        ll = train.Trainer.LyapLoss()
        ll.positivity_mip_obj = H.real(f"positivity{k}")
        ll.derivative_mip_obj = H.real(f"derivative{k}")
        # a solver may find one more state for each pool
        pools = [torch.cat((P, H.tensor(f"new P{k}", 1, 1))),
                 torch.cat((D, H.tensor(f"new D{k}", 1, 1))),
                 torch.cat((DN, H.tensor(f"new Dnext{k}", 1, 1)))]
        (ll.positivity_state_samples, ll.derivative_state_samples,
         ll.derivative_state_samples_next) = pools
        ll.gap_mip_loss = 0.
        given.append((val, ll, pools, R.version))
        return train.Trainer.TotalLossReturn(
            loss[0], ll, train.Trainer.BarrierLoss())

    stub(t, total_loss=total)
    H.cover()
    with R.optimizers():
        r = t.train(X)
    val, ll, _, version = given[-1]
    ok = H.and_(
        ll.positivity_mip_obj <= t.lyapunov_positivity_convergence_tol,
        ll.derivative_mip_obj <= t.lyapunov_derivative_convergence_tol)
    H.true("result", r[0] is True or r[0] is False)
    if r[0]:
        H.true("success is verified", ok)
        H.true("verified parameters", R.version == version)
    else:
        H.true("failure is unverified", H.not_(ok))
        H.true("iterations", len(given) == limit and R.version == limit and
               R.due is None)
    R.at("parameters", R.version)
    H.eq("loss", r[1], val)
    H.eq("positivity objective", r[2], ll.positivity_mip_obj)
    H.eq("derivative objective", r[3], ll.derivative_mip_obj)
    H.eqv("samples kept", X.reshape((-1, )), H.vecl(X))
    t.optimizer = "LBFGS"
    H.raises("unknown optimizer", lambda: t.train(X))


@case("C20", [TR + "_get_current_training_params",
              TR + "_set_training_params", TR + "_training_params"],
      params=[(f, s, x) for f, s in ((False, True), (True, True),
                                     (True, False)) for x in (False, True)],
      scope="networks of 2 parameters")
def saved_parameters(H, feedback, search, fixed):
    R = Run(H, feedback, search, fixed)
    H.cover()
    R.at("start", 0)
    a = R.t._get_current_training_params()
    R.update()
    b = R.t._get_current_training_params()
    R.update()
    R.at("updates do not restore", 2)
    R.t._set_training_params(a)
    R.at("restored", 0)
    R.t._set_training_params(b)
    R.at("restored another", 1)
    R.t._set_training_params(a)
    R.update()
    R.t._set_training_params(a)
    R.at("saved values are kept", 0)


class Loader:
    """Batches of a dataset, in any order (here: the given one)."""

    def __init__(self, dataset, batch_size=1, shuffle=False, **k):
        self.dataset, self.batch_size = dataset, int(batch_size)
        if self.batch_size <= 0:
            raise ValueError("batch_size")

    def __len__(self):
        return -(-len(self.dataset) // self.batch_size)

    def __iter__(self):
        n = len(self.dataset)
        for k in range(0, n, self.batch_size):
            ix = range(k, min(k + self.batch_size, n))
            items = [self.dataset[i] for i in ix]
            yield [torch.stack([it[j] for it in items])
                   for j in range(len(items[0]))]


class Dataset:

    def __init__(self, *tensors):
        assert len({t.shape[0] for t in tensors}) == 1
        self.tensors = tensors

    def __len__(self):
        return self.tensors[0].shape[0]

    def __getitem__(self, i):
        return tuple(t[i] for t in self.tensors)


def split(dataset, sizes):
    out, k = [], 0
    for n in sizes:
        out.append(Dataset(*[t[k:k + n] for t in dataset.tensors]))
        k += n
    return out


@case("C20", [TR + "_batch_descent_on_samples"],
      params=[(1, 2, 2, 1, False, True, False),
              (2, 2, 2, 1, False, True, True),
              (3, 1, 1, 1, False, True, False),
              (2, 2, 3, 2, True, True, False),
              (2, 1, 2, 1, True, False, False),
              (1, 3, 3, 3, False, True, False)],
      scope="up to 3 epochs of up to 3 batches, up to 3 samples")
def descent(H, epochs, nP, nD, batches, feedback, search, fixed):
    R = Run(H, feedback, search, fixed)
    t = R.t
    P, D = H.tensor("P", nP, 1), H.tensor("D", nD, 1)
    opt = train.Trainer.AdversarialTrainingOptions()
    opt.num_batches, opt.num_epochs_per_mip = batches, epochs
    evals = {}
    sys_ = t.lyapunov_hybrid_system.system
    per = [len(Loader(X, int(np.ceil(len(X) / batches)))) for X in (
        Dataset(P), Dataset(D))]
    steps = min(per)

    def losses(p, d, dn, wP, wD):
        H.eq("positivity weight", wP,
             t.lyapunov_positivity_sample_cost_weight)
        H.eq("derivative weight", wD,
             t.lyapunov_derivative_sample_cost_weight)
        same_rows_of(H, "next states", dn, [sys_.next(x) for x in
                                            rows_of(d)])
        H.true("step taken before", R.due is None)
        v, i = divmod(R.version, steps)
        whole = p.shape[0] == nP and d.shape[0] == nD and (
            i == 0 and v not in evals)
        n = f"loss at {R.version}" + (".all" if whole else "")
        val = [H.real(f"{n}.{j}", 0.) for j in range(2)]
        if whole:
            same_rows_of(H, "all P", p, rows_of(P))
            same_rows_of(H, "all D", d, rows_of(D))
            evals[v] = val
            return [torch.tensor(x, dtype=F) for x in val]
        parts = [R.loss(f"{n}.{j}", val[j]) for j in range(2)]
        R.due = (None, [[a + b for a, b in zip(x, y)] for x, y in zip(
            parts[0][1], parts[1][1])])
        return [a for a, _ in parts]

    stub(t, lyapunov_sample_loss=losses)
    H.cover()
    with R.optimizers(), patched(torch.utils.data, TensorDataset=Dataset,
                                 DataLoader=Loader):
        o = torch.optim.SGD(R.all, lr=t.learning_rate, momentum=t.momentum)
        t._batch_descent_on_samples(P, D, o, torch.ones(nP, dtype=F),
                                    torch.ones(nD, dtype=F), opt)
    H.true("evaluated", sorted(evals) == list(range(len(evals))))
    done = R.version // steps
    H.true("whole epochs", R.version == done * steps and R.due is None)
    H.true("each epoch evaluated", len(evals) == done + 1)
    tot = {v: a + b for v, (a, b) in evals.items()}
    # the parameters have the least loss of all evaluations: the first such,
    # or the last when nothing is left to descend on
    best = 0
    for v in range(1, done + 1):
        if H.holds(tot[v] < tot[best]):
            best = v
    if done < epochs or done and H.holds(tot[done] == 0.):
        H.eq("stops at zero", tot[done], 0.)
        best = done
    R.at("best parameters", best * steps)


@case("C20", [TR + "train_lyapunov_on_samples"],
      params=[(1, False, True, False), (2, False, True, False),
              (2, False, True, True), (3, True, True, False),
              (2, True, False, False)],
      scope="up to 3 epochs of 2 batches; 5 samples")
def on_samples(H, epochs, feedback, search, fixed):
    R = Run(H, feedback, search, fixed)
    t = R.t
    X = H.tensor("samples", 5, 1)
    sys_ = t.lyapunov_hybrid_system.system
    steps, evals = 2, []

    def total(P, D, DN, wP, wD, lyap_positivity_mip_cost_weight,
              lyap_derivative_mip_cost_weight,
              boundary_value_gap_mip_cost_weight):
        H.true("no program", lyap_positivity_mip_cost_weight is None and
               lyap_derivative_mip_cost_weight is None and
               boundary_value_gap_mip_cost_weight == 0)
        H.eq("positivity weight", wP,
             t.lyapunov_positivity_sample_cost_weight)
        H.eq("derivative weight", wD,
             t.lyapunov_derivative_sample_cost_weight)
        same_rows_of(H, "both conditions", D, rows_of(P))
        same_rows_of(H, "next states", DN, [sys_.next(x) for x in
                                            rows_of(D)])
        H.true("step taken before", R.due is None)
        k = len(evals)
        val = H.real(f"loss at {R.version}.{k}")
        loss = R.loss(f"loss at {R.version}.{k}", val)
        if R.version == (k + 1) * steps:
            same_rows_of(H, "test samples", P, [X[4]])
            evals.append((val, R.version))
        else:
            R.due = loss
        return types.SimpleNamespace(loss=loss[0])

    stub(t, total_loss=total)
    H.cover()
    with R.optimizers(), patched(
            torch.utils.data, TensorDataset=Dataset, DataLoader=Loader,
            random_split=split):
        t.train_lyapunov_on_samples(X, epochs, 2)
    H.true("epochs", len(evals) == epochs)
    best = 0
    for k in range(1, epochs):
        if H.holds(evals[k][0] < evals[best][0]):
            best = k
    R.at("best parameters", evals[best][1])


@case("C20", [TR + "train_adversarial"],
      params=[(1, False, 9, 9, None, 0), (2, False, 3, 2, None, 0),
              (2, True, 9, 2, 0.3, 0), (2, True, 2, 4, None, 2)],
      scope="up to 2 iterations; pools of up to 9 states of size 1")
def adversarial(H, limit, feedback, poolP, poolD, radius, perturb):
    R = Run(H, feedback, True, False)
    t = R.t
    t.optimizer = kind = "SGD" if poolP == poolD or perturb else "Adam"
    t.max_iterations = limit
    P, D = H.tensor("P", 2, 1), H.tensor("D", 3, 1)
    opt = train.Trainer.AdversarialTrainingOptions()
    opt.positivity_samples_pool_size = poolP
    opt.derivative_samples_pool_size = poolD
    opt.perturb_derivative_sample_count = perturb
    std = opt.perturb_derivative_sample_std = H.real("std")
    if radius is not None:
        opt.adversarial_cluster_radius = radius
    pools = [rows_of(P), rows_of(D)]
    objs, noise, clustered, descents = [], [], [], []

    def solve(n, j, *more):

        def f():
            k = len(objs) if j == 0 else len(objs) - 1
            if j == 0:
                within(H, k, limit)
                objs.append([None, None, R.version])
            H.true("solved at the current parameters",
                   objs[k][2] == R.version == k)
            o = objs[k][j] = H.real(f"{n}{k}")
            adv = H.tensor(f"{n}{k}.states", 2, 1)
            objs[k].append(adv)
            return ("program", o, adv) + more

        return f

    stub(t, solve_positivity_mip=solve("positivity", 0))
    stub(t, solve_lyap_derivative_mip=solve("derivative", 1, None))
    t.add_derivative_adversarial_state = True
    t.add_positivity_adversarial_state = True

    def cluster(states, r):
        clustered.append(r)
        return states[:1], torch.tensor([2.], dtype=F)

    def randn(*shape, **k):
        if len(shape) == 1 and not isinstance(shape[0], int):
            shape = tuple(shape[0])
        noise.append(H.tensor(f"noise{len(noise)}", *shape))
        return noise[-1]

    def expected():
        k = len(objs) - 1
        for j in range(2):
            adv = rows_of(objs[k][3 + j])
            if radius is not None:
                adv = adv[:1]
            if j == 1 and perturb:
                H.true(f"noise {k}", tuple(noise[k].shape) == (
                    perturb, len(adv), 1))
                adv = adv + [a + noise[k][c][i] * std for c in range(
                    perturb) for i, a in enumerate(adv)]
            pools[j] = (pools[j] + adv)[-(poolP, poolD)[j]:]

    def descend(p, d, optimizer, rP, rD, options):
        k = len(descents)
        H.true(f"descent {k} follows the programs", len(objs) == k + 1 and
               R.version == k and options is opt)
        expected()
        same_rows_of(H, f"{k} P", p, pools[0])
        same_rows_of(H, f"{k} D", d, pools[1])
        H.eqv(f"{k} weights P", rP, [1.] * len(pools[0]))
        H.eqv(f"{k} weights D", rD, [1.] * len(pools[1]))
        descents.append(optimizer)
        R.update()

    stub(t, _batch_descent_on_samples=descend)
    H.cover()
    with R.optimizers(), patched(torch, randn=randn), patched(
            train, _cluster_adversarial_states=cluster):
        r = t.train_adversarial(P, D, opt)
    ok = H.and_(objs[-1][0] < t.lyapunov_positivity_convergence_tol,
                objs[-1][1] < t.lyapunov_derivative_convergence_tol)
    if r[0]:
        H.true("success is verified", ok)
        H.true("verified parameters", R.version == objs[-1][2])
        expected()
    else:
        H.true("failure is unverified", H.not_(ok))
        H.true("iterations", len(objs) == limit == R.version)
    R.at("parameters", R.version)
    same_rows_of(H, "P", r[1], pools[0])
    same_rows_of(H, "D", r[2], pools[1])
    H.true("optimizers", R.log == [("optimizer", kind)] * R.version)
    H.true("radius", all(c == radius for c in clustered) and len(
        clustered) == (0 if radius is None else 2 * len(objs)))
    for a in ("add_derivative_adversarial_state",
              "add_positivity_adversarial_state"):
        setattr(t, a, False)
        H.raises(a, lambda: t.train_adversarial(P, D, opt))
        setattr(t, a, True)


@case("C20", ["train_lyapunov_barrier.TrainValueApproximator." + f for f in (
    "__init__", "train_with_cost_to_go")],
      params=[(1, 1, True), (2, 2, False), (3, 1, False), (1, 2, False),
              (1, 3, True)],
      scope="up to 3 samples, 3 epochs, a network of 2 or 3 parameters")
def approximator(H, n, epochs, identity):
    nx = 1 if identity else 2
    a = train.TrainValueApproximator()
    a.max_epochs, tol = epochs, H.real("tolerance")
    a.convergence_tolerance, a.learning_rate = tol, H.real("rate")
    lin = torch.nn.Linear(nx, 1, dtype=F)
    lin.weight.data, lin.bias.data = H.tensor("w", 1, nx), H.tensor("b", 1)
    for p in lin.parameters():
        p.requires_grad_(True)
    X, v = H.tensor("x", n, nx), H.tensor("value", n)
    xeq, lam = H.tensor("xeq", nx), H.real("lambda")
    R = None if identity else H.tensor("R", 3, nx)
    history = []

    def read():
        return H.vecl(lin.weight.detach()) + H.vecl(lin.bias.detach())

    class Optimizer:

        def __init__(self, params, lr=None):
            ps = list(params)
            H.true("optimizes the network", len(ps) == 2 and all(
                p is q for p, q in zip(ps, lin.parameters())))
            H.eq("learning rate", lr, a.learning_rate)

        def zero_grad(self):
            for p in lin.parameters():
                p.grad = None

        def step(self):
            # the gradient of the mean square
            e, g = errors(), [H.num(0.)] * nx
            for j in range(nx):
                g[j] = sum((2. * e[i] * (H.el(X, i, j) - H.el1(xeq, j)) / n
                            for i in range(n)), H.num(0.))
            H.eqv("weight gradient", lin.weight.grad.reshape((-1, )), g)
            k = len(history)
            history.append(None)
            lin.weight.data.copy_(H.tensor(f"w{k}", 1, nx))
            lin.bias.data.copy_(H.tensor(f"b{k}", 1))

    def errors():
        w = read()
        out = []
        for i in range(n):
            d = [H.el(X, i, j) - H.el1(xeq, j) for j in range(nx)]
            r = d if R is None else H.mv(R, d)
            out.append(H.dot(w[:nx], d) + lam * sum(
                (abs(z) for z in r), H.num(0.)) - H.el1(v, i))
        return out

    H.cover()
    with patched(torch.optim, Adam=Optimizer):
        ok, loss = a.train_with_cost_to_go(
            lin, [(X[i], v[i]) for i in range(n)], lam, xeq, R)
    if ok:
        e = errors()
        H.eq("loss", loss, H.dot(e, e) / n)
        H.le("converged", loss, tol)
        H.true("steps", len(history) < epochs)
    else:
        H.true("steps", len(history) == epochs)
        H.lt("not converged", tol, loss)


@case("C20", ["train_lyapunov_barrier.TrainValueApproximator.train"],
      params=[(n, nx, R, opt) for n, nx, R, opt in (
          (1, 1, None, 0), (2, 2, 3, 1), (3, 1, 2, 0))],
      scope="up to 3 initial states of dimension up to 2")
def approximator_samples(H, n, nx, r, given):
    a = train.TrainValueApproximator()
    sys_ = hls.AutonomousHybridLinearSystem(nx, F)
    network = object()
    X, xeq, lam = H.tensor("x0", n, nx), H.tensor("xeq", nx), \
        H.real("lambda")
    R = None if r is None else H.tensor("R", r, nx)
    cost, goal, pruner = (lambda x: None), H.tensor("goal", nx), \
        (lambda x: True)
    T, discrete = (3, True) if given else (1.5, False)
    samples = [(H.tensor(f"s{k}", nx), H.tensor(f"v{k}")) for k in range(2)]
    answer = [True, H.real("loss")]
    log = []

    def generate(dut, initial_states, T, instantaneous_cost_fun,
                 discrete_time_flag, x_goal=None, pruner=None):
        H.true("system", dut is sys_)
        H.true("initial states", len(initial_states) == n)
        for i, x in enumerate(initial_states):
            H.eqv(f"initial state {i}", x, [H.el(X, i, j) for j in
                                            range(nx)])
        H.true("horizon", T == want[0] and instantaneous_cost_fun is cost
               and bool(discrete_time_flag) == discrete)
        H.true("options", x_goal is want[1] and pruner is want[2])
        log.append("generate")
        return samples

    def fit(network_, x0_value_samples, V_lambda, x_equilibrium, R_):
        H.true("network", network_ is network)
        H.true("samples", x0_value_samples is samples)
        H.eq("lambda", V_lambda, lam)
        H.true("equilibrium", x_equilibrium is xeq and R_ is R)
        log.append("fit")
        return answer

    want = (T, goal if given else None, pruner if given else None)
    stub(a, train_with_cost_to_go=fit)
    H.cover()
    with patched(hls, generate_cost_to_go_samples=generate):
        out = a.train(sys_, network, lam, xeq, cost, X, T, discrete, R,
                      *((goal, pruner) if given else ()))
    H.true("trained on them", log == ["generate", "fit"] and out is answer)


SAVES = [(f, n, k) for f in (False, True) for n, k in ((1, 3), (2, 4),
                                                       (3, 7), (None, 2))]


@case("C20", [TR + "_save_network"], params=SAVES,
      scope="up to 7 iterations; networks of 2 parameters")
def snapshots(H, feedback, every, last):
    R = Run(H, feedback)
    t = R.t
    saved = []
    t.save_network_path = None if every is None else "/nowhere"
    if every is not None:
        t.save_network_iterations = every
    sys_ = t.lyapunov_hybrid_system.system
    H.cover()
    with patched(torch, save=lambda obj, f, *a, **k: saved.append((f, obj))):
        for i in range(last + 1):
            del saved[:]
            t._save_network(i)
            if every is None or i % every:
                H.true(f"{i}: not due", saved == [])
                continue
            got = {f: o for f, o in saved}
            names = ["lyapunov.pt", "R.pt"] + ["controller.pt"] * feedback
            H.true(f"{i}: files", sorted(got) == sorted(
                "/nowhere/" + n for n in names) and len(saved) == len(names))
            H.true(f"{i}: network", got["/nowhere/lyapunov.pt"] is
                   t.lyapunov_hybrid_system.lyapunov_relu)
            H.eqv(f"{i}: R", got["/nowhere/R.pt"].reshape((-1, )),
                  H.vecl(t.R_options.R()))
            if feedback:
                H.true(f"{i}: controller", got["/nowhere/controller.pt"] is
                       sys_.controller_network)


@case("C20", [TR + "add_lyapunov", TR + "add_barrier"],
      params=[(o, s) for o in ("both", "reverse", "lyapunov", "barrier")
              for s in (True, False)])
def subjects(H, order, same):
    t = train.Trainer()
    H.cover()
    plant = AnySystem(H, 2)
    other = plant if same else object()
    xeq, xstar = H.tensor("xeq", 2), H.tensor("xstar", 2)
    lam, c, eps = H.real("lambda"), H.real("c"), H.real("epsilon", 0.)
    validated = []
    V = types.SimpleNamespace(
        system=plant, validate_x_equilibrium=lambda x: validated.append(x))
    B = types.SimpleNamespace(system=other)
    opt = r_options.FixedROptions(H.tensor("R", 2, 2))
    H.true("none yet", t.lyapunov_hybrid_system is None and
           t.barrier_system is None)

    def lyap():
        t.add_lyapunov(V, lam, xeq, opt)

    def barrier():
        t.add_barrier(B, xstar, c, eps)

    steps = {"both": [lyap, barrier], "reverse": [barrier, lyap],
             "lyapunov": [lyap], "barrier": [barrier]}[order]
    if len(steps) == 2 and not same:
        steps[0]()
        H.raises("two systems", steps[1])
        return
    for f in steps:
        f()
    if lyap in steps:
        H.true("the function", t.lyapunov_hybrid_system is V and
               t.R_options is opt and t.x_equilibrium is xeq)
        H.eq("lambda", t.V_lambda, lam)
        H.true("validated", len(validated) == 1 and validated[0] is xeq)
        H.raises("options of R", lambda: t.add_lyapunov(
            V, lam, xeq, torch.eye(2)))

        def refuse(x):
            raise AssertionError("outside")

        V.validate_x_equilibrium = refuse
        H.raises("invalid equilibrium", lyap)
    if barrier in steps:
        H.true("the barrier", t.barrier_system is B and
               t.barrier_x_star is xstar)
        H.eq("c", t.barrier_c, c)
        H.eq("epsilon", t.barrier_epsilon, eps)
        H.raises("negative epsilon", lambda: t.add_barrier(
            B, xstar, c, -eps - 1.))
