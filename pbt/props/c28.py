"""C28: the network's prediction, batch run and batch test agree and do not learn."""
import numpy as np
from hypothesis import strategies as st

from .. import net
from ..lib import Violation

ID = "C28"
BUDGET = {"quick": 900, "thorough": 8000}
RULE = ("case = (network shape, outputs, activation, data, sequence of predict/run/test/train calls): every output "
        "against the layered computation in extended precision from the weights at that time, which may be changed by "
        "training only. Non-trivial: outputs are not all equal and at least two kinds of calls are made")


@st.composite
def cases_(draw, tier):
    c = draw(net.shape())
    N = net.rows(draw)
    if N > 300:
        c["layers"] = c["layers"][:2]
    ops = draw(st.lists(st.sampled_from(["predict", "run", "test", "run", "test", "train", "step"]), min_size=1,
                        max_size=7))
    return {"net": c, "N": N, "data": draw(net.data_spec()), "ops": ops,
            "as": draw(st.sampled_from(["array", "array", "list", "fortran", "int"])),
            "weights": draw(st.sampled_from(net.PATTERNS)), "gain": draw(st.sampled_from([1.0, 1.0, 3.0, 0.1]))}


def cases(tier):
    return cases_(tier)


def check(case):
    c, N = case["net"], case["N"]
    nn = net.make(c)
    if case["gain"] != 1.0:
        net.set_weights(nn, [w * case["gain"] for w in net.weights(nn)])
    net.pattern(nn, case.get("weights"))
    x, d = net.data(case["data"], N, c["n"], c["out"])
    xa = x
    if case["as"] == "list":
        xa = x.tolist()
    elif case["as"] == "fortran":
        xa = np.asfortranarray(x)
    elif case["as"] == "int" and np.array_equal(x, np.round(x)):
        xa = x.astype(np.int64)
    what = "network %s->%s->%d (%s)" % (c["n"], c["layers"], c["out"], c["act"])
    W = net.weights(nn)
    if [w.shape for w in W] != net.expected_shapes(c):
        raise Violation("%s: weights of the shapes %s" % (what, [w.shape for w in W]))
    shape = (N,) if c["out"] == 1 else (N, c["out"])
    seen = []
    for op in case["ops"]:
        W = net.weights(nn)
        if op in ("train", "step"):
            with np.errstate(all="ignore"):
                if op == "train":
                    nn.train(x, d, epochs=1)
                else:
                    nn.predict(x[0])
                    nn.update(d[0])
            if not all(np.all(np.isfinite(w)) and np.max(np.abs(w)) < 1e6 for w in net.weights(nn)):
                break
            continue
        if op == "predict":
            got = np.array([nn.predict(xa[k]) for k in range(N)])
        elif op == "run":
            got = np.asarray(nn.run(xa))
        else:
            got = np.asarray(nn.test(xa, d))
        if got.shape != shape:
            raise Violation("%s: %s returns the shape %s for %d rows" % (what, op, got.shape, N))
        for k in range(N):
            y = net.forward(c, W, x[k])[1]
            b = net.error_bound(c, W, x[k])
            g = np.atleast_1d(got[k])
            want = np.atleast_1d(d[k]) - y if op == "test" else y
            tol = 4 * b + 1e-15 * (np.abs(y) + np.abs(np.atleast_1d(d[k]))) + 1e-300
            if not np.all(np.abs(g - want) <= tol):
                raise Violation("%s: %s gives %s for row %d, the layered computation %s"
                                % (what, op, g, k, np.array(want, dtype=float)))
            seen += list(np.array(y, dtype=float))
        for a, b in zip(W, net.weights(nn)):
            if not np.array_equal(a, b):
                raise Violation("%s: %s changes the weights" % (what, op))
    return {"labels": net.labels(c) + ["op:" + o for o in sorted(set(case["ops"]))],
            "nontrivial": len(set(seen)) > 1 and len(set(case["ops"])) > 1}
