"""C16: results depend only on arguments; randomness only from NumPy's seedable stream."""
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from .. import calls, forked, gen, kinds
from ..lib import Violation

ID = "C16"
BUDGET = {"quick": 900, "thorough": 4000}
RULE = ("case = a call of some library function (filter histories and network training included), made alone and made "
        "again after and between other calls with other random states elsewhere; results have to be bit-identical "
        "(a part of the cases: several calls, most of nearly equal data, in both orders in two processes; another part: calls with "
        "argument objects that had other content in earlier calls), "
        "NumPy's global stream untouched by calls that draw nothing, and drawing calls reproducible from its seed. "
        "Non-trivial: other calls are made in between")


@st.composite
def cases_(draw, tier):
    if draw(st.integers(0, 24)) == 0:
        return {"shuffled": {"rows": gen.tail(draw, 20, 60, 300, "ann"), "epochs": draw(st.integers(1, 3)),
                             "act": draw(st.sampled_from(["sigmoid", "tanh"]))}, "seed": draw(gen.SEEDS)}
    if draw(st.integers(0, 199)) == 77:
        return {"processes": draw(st.lists(calls.call(calls.ALL + ["LDA", "LDA_discriminants"] * 3), min_size=8, max_size=24)),
                "seed": draw(gen.SEEDS)}
    case = {"call": draw(calls.call(calls.ALL + ["mlp_train", "mlp_train"])), "between": draw(st.lists(calls.call(), max_size=3)),
            "seed": draw(gen.SEEDS), "reps": draw(st.sampled_from([1, 1, 1, 2, 5])),
            "inside": draw(st.booleans()), "again": draw(st.sampled_from([None, "array", "list"]))}
    if draw(st.integers(0, 3)) == 0:         # nearly equal calls in both orders
        many = []
        for c in draw(st.lists(calls.call(), min_size=2, max_size=6)):
            c["pat"] = draw(st.sampled_from([c["pat"], "ints"]))
            many += [c, dict(c, var="inner"), calls.twin(draw, c)]
        at = draw(st.integers(0, len(many) - 1))
        case["orders"] = many[at:] + many[:at]
        return case
    if draw(st.integers(0, 2)) == 0:         # another call of the function, and then a call nearly like this one
        far = calls.twin(draw, case["call"])
        far["var"], far["seed"] = "neg", far["seed"] // 2 + 1
        far.pop("vary", None)
        case["between"] += [far, calls.twin(draw, case["call"])]
        return case
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        case["between"].insert(draw(st.integers(0, len(case["between"]))), calls.twin(draw, case["call"]))
    return case


def cases(tier):
    return cases_(tier)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def drawn(c, seed):
    """Every weight that is drawn, is drawn from NumPy's stream: none is the same after other seeds."""
    if c["fn"] in calls.FIL:
        def make():
            return [kinds.cls(c["kind"])(n=c["n"] + 3, w="random").w]
        what = "starting weights of %s" % c["kind"]
    else:
        layers = [v + seed % 9 for v in c["layers"]] + [8]
        out = c["out"] + seed % 5

        def make():
            nn = calls.pa.ann.NetworkMLP(layers, c["n"] + seed % 7, outputs=out, activation=c["act"])
            return [layer.w for layer in nn.layers] + [nn.w]
        what = "starting weights of a network with the layers %s" % layers
    runs = []
    for s in (seed, seed + 1, seed):
        np.random.seed(s % 2 ** 32)
        runs.append([np.array(w, dtype=float) for w in make()])
    for a, b, again in zip(*runs):
        if not np.array_equal(a, again):
            raise Violation("the %s are not reproducible from the seed" % what)
        if np.any(a == b) or len(np.unique(a)) < a.size:
            raise Violation("the %s are not all drawn from NumPy's random stream" % what)


def shuffled(c, seed):
    """The order of shuffled training comes from NumPy's stream, whatever the number of samples."""
    rs = np.random.RandomState(seed % 2 ** 31)
    N = c["rows"]
    x, d = rs.normal(0, 1, (N, 2)), np.arange(N) * 10.0
    runs = []
    for s in (seed, seed + 1, seed):
        np.random.seed(7)
        nn = calls.pa.ann.NetworkMLP([2], 2, activation=c["act"], mu=1e-9)
        np.random.seed(s % 2 ** 32)
        start = state()
        e, _ = nn.train(x, d, epochs=c["epochs"], shuffle=True)
        if state() == start:
            raise Violation("shuffled training on %d samples draws nothing from NumPy's random stream" % N)
        runs.append(np.array(e))
    if not np.array_equal(runs[0], runs[2]):
        raise Violation("shuffled training on %d samples is not reproducible from the seed" % N)
    for k in range(c["epochs"]):        # (the chance of equal orders is 1/N!)
        if np.array_equal(np.rint(runs[0][k * N:(k + 1) * N] / 10), np.rint(runs[1][k * N:(k + 1) * N] / 10)):
            raise Violation("the order of shuffled training on %d samples (epoch %d) does not depend on the seed" % (N, k))


def in_order(cs):
    out = {}
    for i, c in cs:
        np.random.seed(c["seed"] % 2 ** 32)
        try:
            out[i] = calls.frozen(calls.execute(c, calls.arrays(c)))
        except Exception as exc:        # (nearly equal data may be data that the function refuses)
            out[i] = ["%s" % type(exc).__name__]
    return out


def any_order(cs):
    """The calls in one order and in the other, each in a process of its own."""
    cs = list(enumerate(cs))
    both = [forked.apart(lambda: in_order(cs)), forked.apart(lambda: in_order(cs[::-1]))]
    for how, got in both:
        if how != "ok":
            raise Violation("calls of %s: %s" % (", ".join(c["fn"] for _, c in cs), got))
    for i, c in cs:
        a, b = both[0][1][i], both[1][1][i]
        for j, (p, q) in enumerate(zip(a, b)):
            if isinstance(p, str) or isinstance(q, str):
                if not (isinstance(p, str) and isinstance(q, str) and p == q):
                    raise Violation("%s raises an exception depending on what is called before" % c["fn"])
            elif p.shape != q.shape or not np.array_equal(p, q, equal_nan=True):
                raise Violation("%s: result %d of the same call depends on what is called before (of the calls %s)"
                                % (c["fn"], j, [k["fn"] for _, k in cs]))


def elsewhere(cs, hashseed, other=False):
    """The results of the calls in a new interpreter, or in one that is started in another way, place and environment."""
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = "import sys, json; sys.path.insert(0, %r); from pbt.props import c16; c16.tell(json.load(sys.stdin))" % root
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    if other:
        env.update(TZ="Asia/Tokyo", LANG="C", LC_ALL="C", HOME="/", USER="nobody", COLUMNS="40", TERM="dumb", DEBUG="1")
    p = subprocess.run([sys.executable] + (["-O"] if other else []) + ["-c", code] + (["--fast", "data"] if other else []),
                       input=json.dumps(cs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/" if other else root,
                       env=env)
    if p.returncode:
        raise Violation("calls of %s in a new process: %s" % (", ".join(c["fn"] for c in cs), p.stderr.decode()[-300:]))
    return pickle.loads(p.stdout)


def tell(cs):
    out = os.dup(1)
    os.dup2(2, 1)
    r = in_order(list(enumerate(cs)))
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(r))


def processes(cs, seed):
    """The same calls in two interpreters that differ in the seed of Python's hashes, in options, folder and environment."""
    a, b = elsewhere(cs, seed % 1000 + 1), elsewhere(cs, seed % 1000 + 2, True)
    for i, c in enumerate(cs):
        for j, (p, q) in enumerate(zip(a[i], b[i])):
            if isinstance(p, str) and p == q if isinstance(p, str) or isinstance(q, str) else \
                    p.shape == q.shape and np.array_equal(p, q, equal_nan=True):
                continue
            raise Violation("%s: result %d of the same call differs from process to process" % (c["fn"], j))


def listable(c, key):
    """Whether a list is as good for this argument as an array."""
    fn = c["fn"]
    return key in ("labels", "alpha") or fn in calls.MET or fn.startswith("standardize") or fn == "input_from_history" or \
        fn in ("filter_run", "pretrained_run") or (fn in calls.FIL and key == "w")


def reused(c, args, how):
    """The same objects as arguments, with other content at first: only the content counts."""
    held = {k: v.tolist() if how == "list" and listable(c, k) else v.copy() for k, v in args.items()}

    def fill(values):
        for k, v in values.items():
            if isinstance(held[k], list):
                held[k][:] = v.tolist()
            else:
                held[k][...] = v
    rs = np.random.RandomState(c["seed"] % 2 ** 31)
    one = sorted(args)[c["seed"] % len(args)]
    for keys in ([one], sorted(args)):
        other = dict(args)
        for k in keys:
            v = args[k]
            other[k] = rs.permutation(v) if v.dtype.kind != "f" or k == "alpha" and c["seed"] % 2 else \
                np.abs(rs.normal(1, 1, v.shape)) * 1.5 if k == "alpha" else v * rs.choice([-1.0, 0.7, 1.3], v.shape)
        fill(other)
        keep = np.random.get_state()
        try:
            calls.execute(c, held)
        except Exception:       # (other content may be refused)
            pass
        np.random.set_state(keep)
        fill(args)
    return calls.frozen(calls.execute(c, held))


def check(case):
    if case.get("processes"):
        processes(case["processes"], case["seed"])
        return {"labels": ["processes"], "nontrivial": True}
    if case.get("shuffled"):
        shuffled(case["shuffled"], case["seed"])
        return {"labels": ["shuffled"], "nontrivial": True}
    if case.get("orders"):
        any_order(case["orders"])
        return {"labels": ["fn:" + c["fn"] for c in case["orders"]] + ["any order"], "nontrivial": True}
    c = case["call"]
    args = calls.arrays(c)
    fresh = lambda: {k: v.copy() for k, v in args.items()}  # noqa: E731
    np.random.seed(case["seed"] % 2 ** 32)
    random.seed(1)
    before = state()
    py = random.getstate()
    base = calls.frozen(calls.execute(c, fresh()))
    after = state()
    if not calls.draws_randomness(c) and after != before:
        raise Violation("%s consumes or reseeds NumPy's random stream" % c["fn"])
    if random.getstate() != py:
        raise Violation("%s uses Python's random stream" % c["fn"])
    for i in range(case["reps"]):
        for o in case["between"]:
            calls.execute(o, calls.arrays(o))
        random.seed(1000 + i)
        np.random.seed(case["seed"] % 2 ** 32)

        def others(*_):
            keep = np.random.get_state()
            for o in case["between"]:
                calls.execute(o, calls.arrays(o))
            np.random.set_state(keep)

        touched = [0]

        def touch(*_):
            touched[0] += 1
            if case["inside"] and touched[0] <= 3:
                others()

        got = calls.execute(c, fresh(), touch)
        for j, (a, b) in enumerate(zip(base, got)):
            if np.shape(a) != np.shape(b) or not np.array_equal(a, b, equal_nan=True):
                raise Violation("%s: repeating the call with the same arguments%s gives another result %d"
                                % (c["fn"], " and the same seed" if calls.draws_randomness(c) else "", j))
        if state() != after:
            raise Violation("%s: the state of NumPy's random stream after the call is not reproducible" % c["fn"])
    if case.get("again"):
        np.random.seed(case["seed"] % 2 ** 32)
        for j, (a, b) in enumerate(zip(base, reused(c, args, case["again"]))):
            if np.shape(a) != np.shape(b) or not np.array_equal(a, b, equal_nan=True):
                raise Violation("%s: result %d depends on what its arguments (of type %s) contained in an earlier call"
                                % (c["fn"], j, case["again"]))
    if c["fn"] in calls.ANN + calls.FIL and case["reps"] == 1:
        drawn(c, case["seed"])
    if calls.draws_randomness(c) and case["reps"] == 1:
        # other seeds give other drawn weights
        np.random.seed((case["seed"] + 1) % 2 ** 32)
        got = calls.execute(c, fresh())
        if c["fn"] != "pretrained_run":         # (pretraining may forget all of them)
            same = all(np.array_equal(a, b) for a, b in zip(base, got))
            if same and any(np.any(a) for a in base):
                raise Violation("%s: the seed of NumPy's random stream has no effect on the drawn weights" % c["fn"])
    return {"labels": ["fn:" + c["fn"]] + (["draws"] if calls.draws_randomness(c) else []),
            "nontrivial": bool(case["between"] or case.get("again"))}
