"""Data sets of simulated motion: the physics engine by contract."""
import types
import numpy as np
import torch
from engine.cases import case
from engine.stubs import stub
from contracts.c10_hybrid import patched
import neural_network_lyapunov.pybullet_data_generation as pdg

F = torch.float64
P = "pybullet_data_generation."
GEN = P + "PybulletSampleGenerator."
STEP = 1. / 240.


class Physics:
    """The engine: what it is asked, and arbitrary answers.  Two questions
    about the same moment have the same answer; other moments any other."""
    GUI, DIRECT, VELOCITY_CONTROL, POSITION_CONTROL = "GUI", "DIRECT", 0, 2

    def __init__(self, H, joints):
        self.H, self.n = H, joints
        self.set, self.motors, self.loaded = {}, {}, []
        self.saved, self.pictures, self.pics = [], [], {}
        self.now = self.fresh()
        self.moments = {}

    def fresh(self):
        return dict(steps=0, placed={}, origin=None)

    # ---- the world
    def connect(self, method):
        self.set["connect"] = method
        return "client"

    def disconnect(self, physicsClientId=None):
        pass

    def setGravity(self, gravX, gravY, gravZ):
        self.set["gravity"] = (gravX, gravY, gravZ)

    def setTimeStep(self, timeStep):
        self.set["step"] = timeStep

    def setPhysicsEngineParameter(self, **k):
        pass

    def computeViewMatrix(self, cameraEyePosition, cameraTargetPosition,
                          cameraUpVector):
        return ("view", tuple(cameraEyePosition), tuple(cameraTargetPosition),
                tuple(cameraUpVector))

    def computeProjectionMatrixFOV(self, fov, aspect, nearVal, farVal):
        return ("projection", fov, aspect, nearVal, farVal)

    def load(self, client):
        self.H.true("world built in this engine", client is self or
                    isinstance(client, Module))
        self.loaded.append(1)
        return 7

    def robot(self, r):
        self.H.true("the robot", r == 7)

    def getNumJoints(self, bodyUniqueId):
        self.robot(bodyUniqueId)
        return self.n

    def setJointMotorControl2(self, bodyUniqueId, jointIndex, controlMode,
                              force=None, **k):
        self.robot(bodyUniqueId)
        self.motors[jointIndex] = (controlMode, force)

    def stepSimulation(self):
        self.now["steps"] += 1

    def saveState(self):
        self.saved.append(dict(self.now))
        return len(self.saved) - 1

    def restoreState(self, stateId):
        self.now = self.fresh()
        self.now["origin"] = stateId

    # ---- placing the robot
    def place(self, k, v):
        self.H.true("placed before it moves", self.now["steps"] == 0)
        self.now["placed"][k] = v

    def resetJointState(self, bodyUniqueId, jointIndex, targetValue,
                        targetVelocity=0.):
        self.robot(bodyUniqueId)
        s = self.H.scalar
        self.place(jointIndex, (s(targetValue), s(targetVelocity)))

    def getQuaternionFromEuler(self, eulerAngles):
        e = self.H.vecl(eulerAngles)
        return tuple(self.H.uninterp(f"quat{j}", *e) for j in range(4))

    def resetBasePositionAndOrientation(self, bodyUniqueId, posObj, ornObj):
        self.robot(bodyUniqueId)
        self.place("pose", (self.H.vecl(posObj), list(ornObj)))
        # placing a body stops it
        self.place("velocity", ([self.H.num(0.)] * 3, [self.H.num(0.)] * 3))

    def resetBaseVelocity(self, objectUniqueId, linearVelocity=None,
                          angularVelocity=None):
        self.robot(objectUniqueId)
        v, w = self.now["placed"].get("velocity", (None, None))
        if linearVelocity is not None:
            v = self.H.vecl(linearVelocity)
        if angularVelocity is not None:
            w = self.H.vecl(angularVelocity)
        self.place("velocity", (v, w))

    # ---- answers
    def answer(self, what, n):
        k = (what, self.now["steps"])
        if k not in self.moments:
            self.moments[k] = [self.H.real(
                f"{what}.{self.now['steps']}.{j}") for j in range(n)]
        return tuple(self.moments[k])

    def getJointStates(self, bodyUniqueId, jointIndices):
        self.robot(bodyUniqueId)
        a = self.answer("joints", 2 * self.n)
        return tuple((a[2 * j], a[2 * j + 1], (0., ) * 6, 0.)
                     for j in jointIndices)

    def getJointState(self, bodyUniqueId, jointIndex):
        return self.getJointStates(bodyUniqueId, [jointIndex])[0]

    def getBasePositionAndOrientation(self, bodyUniqueId):
        self.robot(bodyUniqueId)
        return self.answer("position", 3), self.answer("quaternion", 4)

    def getEulerFromQuaternion(self, quaternion):
        for a, b in zip(quaternion, self.answer("quaternion", 4)):
            self.H.true("orientation of the moment", a is b or a == b)
        return self.answer("euler", 3)

    def getBaseVelocity(self, bodyUniqueId):
        self.robot(bodyUniqueId)
        return self.answer("velocity", 3), self.answer("spin", 3)

    def getCameraImage(self, width, height, viewMatrix=None,
                       projectionMatrix=None, **k):
        self.pictures.append((width, height, viewMatrix, projectionMatrix))
        s = self.now["steps"]
        if s not in self.pics:
            a = self.H.nparr(f"image{s}", height, width, 4, lo=0., up=255.)
            if not self.H.sym:
                a = np.floor(a)
            self.pics[s] = a
        return width, height, self.pics[s], None, None


SERVER = 3      # others were connected before


class Module:
    """The module pybullet: servers are named in each call."""

    def __init__(self, W):
        self.W = W

    def __getattr__(self, k):
        W = self.W
        if k.startswith("__") or not callable(getattr(W, k)):
            return getattr(W, k)

        def call(*a, physicsClientId=0, **kw):
            if k == "connect":
                W.connect(*a, **kw)
                return SERVER
            if not k.startswith(("compute", "getQuat", "getEuler")):
                W.H.true("its own server", physicsClientId == SERVER)
            return getattr(W, k)(*a, **kw)

        return call


def engine(W):
    """The engine under every name the module knows it by."""

    def client(connection_mode=None):
        W.connect(connection_mode)
        return W

    m = Module(W)
    u = types.SimpleNamespace(BulletClient=client, pybullet=m)
    u.bullet_client = u
    names = {}
    for n, v in vars(pdg).items():
        of = getattr(v, "__name__", None)
        of = of if isinstance(of, str) else ""
        if of.startswith("pybullet_utils"):
            names[n] = client if of.endswith("BulletClient") else u
        elif of == "pybullet":
            names[n] = m
    return patched(pdg, **names)


def generator(H, joints, gray, w=2, h=2, **k):
    W = Physics(H, joints)
    with engine(W):
        g = pdg.PybulletSampleGenerator(W.load, joints is not None, w, h,
                                        gray, **k)
    return W, g


@case("C28", [GEN + "__init__"],
      params=[(j, g, u) for j in (None, 1, 2) for g in (0, 1)
              for u in (0, 1)] + [(3, 0, 0)],
      scope="robots of 1 to 3 joints, or one body")
def world(H, joints, gray, gui):
    H.real("any")
    H.cover()
    W, g = generator(H, joints, bool(gray), gui=bool(gui))
    H.true("engine", W.set["connect"] == ("GUI" if gui else "DIRECT"))
    H.true("gravity", W.set["gravity"] == (0, 0, -9.8))
    H.true("time step", W.set["step"] == STEP and g.timestep == STEP)
    H.true("one world", len(W.loaded) == 1)
    H.true("dimension", g.x_dim == (12 if joints is None else 2 * joints))
    H.true("channels", g.num_channels == (1 if gray else 3))
    H.true("no motor", joints is None or all(
        W.motors.get(j) == (W.VELOCITY_CONTROL, 0) for j in range(joints)))
    H.true("settled", len(W.saved) == 1 and W.saved[0]["steps"] == 120)


@case("C28", [GEN + "__init__", GEN + "generate_sample"], params=[0, 1],
      scope="a robot of 2 joints, or one body")
def unsaid(H, joint_space):
    """What a caller leaves unsaid: colour pictures of 80 by 80 from the
    camera of the signature, and no window."""
    W = Physics(H, 2 if joint_space else None)
    asked = []

    def picture(width, height, viewMatrix=None, projectionMatrix=None, **k):
        asked.append((width, height, viewMatrix))
        return width, height, np.zeros((height, width, 4)), None, None

    W.getCameraImage = picture
    with engine(W):
        g = pdg.PybulletSampleGenerator(W.load, bool(joint_space))
        x0 = H.tensor("x0", g.x_dim)
        H.cover()
        _, X, Xn = g.generate_sample(x0, .05)
    H.true("no window", W.set["connect"] == "DIRECT")
    H.true("images", tuple(X.shape) == (6, 80, 80))
    H.true("next images", tuple(Xn.shape) == (3, 80, 80))
    H.true("camera", len(asked) > 0 and all(
        (w, h) == (80, 80) and v == ("view", (0, -3, 0), (0, 0, 0), (0, 0, 1))
        for w, h, v in asked))


@case("C28", [GEN + "generate_sample"],
      params=[(1, 0, .1), (2, 0, .05), (3, 1, .02), (None, 0, .04),
              (None, 1, .1), (2, 0, 0.), (1, 0, .03)],
      scope="robots of 1 to 3 joints, or one body; images of 2 by 2; the "
      "durations listed")
def sample(H, joints, gray, dt):
    W, g = generator(H, joints, bool(gray), camera_eye_position=[0, -2, 1],
                     camera_target_position=[0, 0, 1],
                     camera_up_vector=[0, 1, 0])
    n = g.x_dim
    x0 = H.tensor("x0", n)
    xl = H.vecl(x0)
    W.now["steps"] = 5      # whatever was done before
    half = int(dt * 120 + 1e-9)
    H.cover()
    with engine(W):
        x1, X, Xn = g.generate_sample(x0, dt)
    now = W.now
    H.true("from the settled world", now["origin"] == 0)
    if joints is not None:
        H.true("every joint placed", set(now["placed"]) == set(range(joints)))
        for j in range(joints):
            H.eqv(f"joint {j}", list(now["placed"][j]),
                  [xl[j], xl[joints + j]])
    else:
        H.true("body placed", set(now["placed"]) == {"pose", "velocity"})
        p, q = now["placed"]["pose"]
        H.eqv("position", p, xl[:3])
        H.eqv("orientation", q, [H.uninterp(f"quat{j}", *xl[3:6])
                                 for j in range(4)])
        v, s = now["placed"]["velocity"]
        H.eqv("velocity", v, xl[6:9])
        H.eqv("spin", s, xl[9:])
    H.true("duration", now["steps"] == 2 * half)
    for p in W.pictures:
        H.true("picture", p == (2, 2, ("view", (0, -2, 1), (0, 0, 1),
                                       (0, 1, 0)),
                                ("projection", 45., 1., .1, 3.1)))
    H.true("three moments", set(W.pics) == {0, half, 2 * half})
    if joints is not None:
        a = W.answer("joints", 2 * joints)
        want = list(a[::2]) + list(a[1::2])
    else:
        want = [v for k, m in (("position", 3), ("euler", 3),
                               ("velocity", 3), ("spin", 3))
                for v in W.answer(k, m)]
    H.true("state", tuple(x1.shape) == (n, ))
    H.eqv("next state", x1, want)
    c = 1 if gray else 3
    H.true("images", tuple(X.shape) == (2 * c, 2, 2) and
           tuple(Xn.shape) == (c, 2, 2))
    H.true("types", X.dtype == F and Xn.dtype == F and x1.dtype == F)
    for nm, T, moments in (("before", X, (0, half)),
                           ("after", Xn, (2 * half, ))):
        for k, s in enumerate(moments):
            a = W.pics[s]
            for r in range(2):
                for q in range(2):
                    px = [H.scalar(a[r, q, i]) for i in range(3)]
                    if gray:
                        px = [px[0] * .2989 + px[1] * .5870 + px[2] * .1140]
                    H.eqv(f"{nm}.{k}[{r},{q}]",
                          [T[k * c + i, r, q] for i in range(c)],
                          [v / 255. for v in px], tol=1e-6)


@case("C28", [GEN + "generate_sample"], params=[(3, 2), (1, 2)],
      scope="the sizes listed")
def wide_image(H, w, h):
    """Images that are not square: as documented, width before height."""
    W, g = generator(H, 1, False, w, h)
    x0 = H.tensor("x0", 2)
    H.cover()
    with engine(W):
        _, X, Xn = g.generate_sample(x0, .05)
    H.true("images", tuple(X.shape) == (6, w, h) and
           tuple(Xn.shape) == (3, w, h))


class Frames:
    """generate_sample by its contract: any function of the state."""

    def __init__(self, H, g, c, shape):
        self.H, self.c, self.shape, self.calls = H, c, shape, []
        self.nx = g.x_dim

    def same(self, a, b):
        return a is b or (a == b if not self.H.sym else
                          (a - b).is_const() and (a - b).const() == 0)

    def at(self, x):
        x = self.H.vecl(x)
        for y, s in self.calls:
            if all(map(self.same, x, y)):
                return s

    def __call__(self, x0, dt):
        H, k = self.H, len(self.calls)
        H.true("duration", dt == .25)
        s = self.at(x0)
        if s is None:
            s = (H.tensor(f"x1.{k}", self.nx),
                 H.tensor(f"X.{k}", 2 * self.c, *self.shape),
                 H.tensor(f"Xn.{k}", self.c, *self.shape))
            self.calls.append((H.vecl(x0), s))
        return tuple(t.clone() for t in s)


@case("C28", [GEN + "generate_rollout", GEN + "data_to_rollouts"],
      params=[(j, g, n) for j in (1, 2) for g in (0, 1) for n in (0, 1, 3)],
      scope="robots of 1 or 2 joints; images of 2 by 2; up to 3 steps")
def rollout(H, joints, gray, N):
    W, g = generator(H, joints, bool(gray), 2, 2)
    c = 1 if gray else 3
    S = Frames(H, g, c, (2, 2))
    stub(g, generate_sample=S)
    many = H.bit("several")
    x0 = H.tensor("x0", 3, g.x_dim)
    H.cover()
    if many:
        xs, Xs = g.data_to_rollouts(x0, .25, N)
        H.true("every start", len(xs) == 3 and len(Xs) == 3)
        outs = list(zip(xs, Xs))
    else:
        outs = [g.generate_rollout(x0[0], .25, N)]
    for k, (x, X) in enumerate(outs):
        H.shape(f"states {k}", x, (N + 1, g.x_dim))
        H.shape(f"images {k}", X, (N + 2, c, 2, 2))
        H.eqv(f"start {k}", x[0], H.vecl(x0[k]))
        s = S.at(x0[k])
        H.true(f"asked at the start {k}", s is not None)
        H.eqv(f"first {k}", X[0], H.vecl(s[1][:c]))
        H.eqv(f"second {k}", X[1], H.vecl(s[1][c:]))
        for i in range(N):
            s = S.at(x[i])
            H.true(f"asked at {i}", s is not None)
            H.eqv(f"state {k}.{i + 1}", x[i + 1], H.vecl(s[0]))
            H.eqv(f"image {k}.{i + 2}", X[i + 2], H.vecl(s[2]))


@case("C28", [GEN + "generate_dataset"],
      params=[(j, g, n, m) for j, g in ((1, 0), (2, 1)) for n in (1, 2)
              for m in ("box", "normal")],
      scope="robots of 1 or 2 joints; images of 2 by 2; 2 rollouts of 1 or 2 "
      "steps")
def dataset(H, joints, gray, N, how):
    W, g = generator(H, joints, bool(gray), 2, 2)
    c, nx, R = 1 if gray else 3, g.x_dim, 2
    lo = H.tensor("lo", nx)
    up = lo + H.tensor("width", nx, lo=0.)
    kw = {}
    if how == "normal":
        kw = dict(x_mean=H.tensor("mean", nx),
                  x_std=H.tensor("std", nx, lo=0.))
    draws, rolls = [], []

    def draw(*shape, dtype=None):
        t = H.tensor(f"draw{len(draws)}", *shape,
                     **(dict(lo=0., up=1.) if how == "box" else {}))
        t = t.to(dtype or torch.get_default_dtype())
        draws.append(H.vecl(t))
        if how == "box":
            for v in draws[-1]:
                H.assume(H.and_(v >= 0., v <= 1.))
        return t

    def roll(x0, dt, n):
        k = len(rolls)
        s = (H.tensor(f"x{k}", n + 1, nx), H.tensor(f"X{k}", n + 2, c, 2, 2))
        rolls.append((H.vecl(x0), dt, n) + s)
        return s

    stub(g, generate_rollout=roll)
    H.cover()
    with patched(torch, **{"rand" if how == "box" else "randn": draw}):
        x, xn, X, Xn = g.generate_dataset(lo, up, .5, N, R, **kw)
    H.true("rollouts", len(rolls) == R and all(
        r[1:3] == (.5, N) for r in rolls))
    H.true("draws", len(draws) == R)
    ll, ul = H.vecl(lo), H.vecl(up)
    for k, (r, d) in enumerate(zip(rolls, draws)):
        if how == "box":
            want = [a + v * (b - a) for a, b, v in zip(ll, ul, d)]
        else:
            want = [H.max(a, H.min(b, m + s * v)) for a, b, v, m, s in zip(
                ll, ul, d, H.vecl(kw["x_mean"]), H.vecl(kw["x_std"]))]
        H.eqv(f"start {k}", r[0], want)
        H.lev(f"start {k} above", ll, r[0])
        H.lev(f"start {k} below", r[0], ul)
    H.shape("states", x, (R * N, nx))
    H.shape("next states", xn, (R * N, nx))
    H.shape("images", X, (R * N, 2 * c, 2, 2))
    H.shape("next images", Xn, (R * N, c, 2, 2))
    for k in range(R):
        xs, Xs = rolls[k][3:]
        for i in range(N):
            j = k * N + i
            H.eqv(f"x {j}", x[j], H.vecl(xs[i]))
            H.eqv(f"x next {j}", xn[j], H.vecl(xs[i + 1]))
            H.eqv(f"X {j}", X[j], H.vecl(Xs[i]) + H.vecl(Xs[i + 1]))
            H.eqv(f"X next {j}", Xn[j], H.vecl(Xs[i + 2]))


@case("C28", [P + "add_noise"], params=[(1, 1), (2, 2), (3, 1)],
      scope="the numbers of samples and dimensions listed")
def noise(H, n, d):
    x, std = H.tensor("x", n, d), H.tensor("std", d, lo=0.)
    eps = []

    def randn(*shape, dtype=None):
        if len(shape) == 1 and not isinstance(shape[0], int):
            shape = tuple(shape[0])
        eps.append(H.tensor("eps", *shape).to(
            dtype or torch.get_default_dtype()))
        return eps[-1]

    was = H.matl(x)
    H.cover()
    with patched(torch, randn=randn):
        y = pdg.add_noise(x, std)
    H.true("one draw", len(eps) == 1 and tuple(eps[0].shape) == (n, d))
    H.shape("shape", y, (n, d))
    e, s = H.matl(eps[0]), H.vecl(std)
    for j in range(d):
        m = sum((H.absv(was[i][j]) for i in range(1, n)),
                H.absv(was[0][j])) / n
        for i in range(n):
            H.eq(f"y[{i},{j}]", H.el(y, i, j),
                 was[i][j] + e[i][j] * s[j] * m)
    H.eqv("data untouched", x, [v for r in was for v in r])


@case("C28", [P + "get_dataloader"], params=[0])
def loader(H, _):
    x, y = H.tensor("x", 3, 2), H.tensor("y", 3, 1)
    size = H.choice("batch", [1, 2])
    made, asked = [], []

    class Set:
        def __init__(self, *t):
            made.append(t)

    def load(dataset, batch_size=1, shuffle=False, **k):
        asked.append((dataset, batch_size, shuffle))
        return "loader"

    H.cover()
    with patched(pdg, TensorDataset=Set, DataLoader=load):
        r = pdg.get_dataloader(x, y, size)
    H.true("pairs", len(made) == 1 and made[0][0] is x and made[0][1] is y)
    H.true("batches in random order", len(asked) == 1 and isinstance(
        asked[0][0], Set) and asked[0][1:] == (size, True))
    H.true("loader", r == "loader")
