"""C30: network batch training presents every sample once per epoch and accounts it."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, net
from ..lib import Violation

ID = "C30"
BUDGET = {"quick": 350, "thorough": 5000}
RULE = ("case = (network, samples, epochs, shuffling, earlier calls): a twin with the same weights is given the samples "
        "one by one; with shuffling the order of presentation is recovered from the errors, and has to be a permutation "
        "that is new in every epoch. Non-trivial: more than one sample and more than one epoch")


@st.composite
def cases_(draw, tier):
    if draw(st.integers(0, 29)) == 11:
        N = draw(st.one_of(st.integers(30, 120), st.sampled_from(FRESH)))
        return {"places": True, "N": max(30, N), "E": draw(st.integers(12, 20)), "seed": draw(st.integers(0, 2 ** 31 - 1))}
    c = draw(net.shape())
    c["mu"] = draw(st.sampled_from(["auto", 0.1, 0.3, 0.01, "omitted"]))
    sh = draw(st.booleans())
    N = net.rows(draw, 24, 150)
    N = min(N, 250) if sh else N
    return {"net": c, "N": N, "E": gen.tail(draw, 1, 5, 30, "ann") if N <= 30 else draw(st.integers(1, 5 if N <= 150 else 2)), "shuffle": sh, "data": draw(net.data_spec()),
            "pre": draw(st.sampled_from(["", "", "train", "run", "shuffled"])), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "as": draw(st.sampled_from(["array", "array", "list", "fortran"])),
            "default": draw(st.integers(0, 9)) == 0, "pos": draw(st.booleans())}


def cases(tier):
    return cases_(tier)


FRESH = [v for v in net.ROWS if 13 < v <= 300]


def places(case):
    """Over many shuffled epochs no sample keeps a place, and every sample comes to be everywhere in the order."""
    N, E = case["N"], case["E"]
    np.random.seed(case["seed"])
    out = 1 + case["seed"] % 2
    nn = net.pa.ann.NetworkMLP([1], 1, outputs=out, mu=1e-12)
    x = np.zeros((N, 1))
    d = np.arange(N) * 10.0
    d = d if out == 1 else np.column_stack([d, -d])
    e, _ = nn.train(x, d, epochs=E, shuffle=True)
    e = np.asarray(e, dtype=float).reshape(N * E, out)[:, 0].reshape(E, N)
    order = np.argsort(np.argsort(e, axis=1), axis=1)       # which sample is where (errors grow with the sample)
    given = np.arange(N)
    for i in range(N):
        at = np.argmax(order == i, axis=1)
        if np.all(at == at[0]):
            raise Violation("training with %d samples, %d shuffled epochs: sample %d is always in place %d" % (N, E, i, at[0]))
    for p in range(E):
        last = order[p - 1] if p else given
        keep = int(np.sum(order[p] == last))
        if keep > 14:
            raise Violation("training with %d samples, %d shuffled epochs: %d samples keep their place in epoch %d" % (N, E, keep, p))
        # (the expected number of neighbours that stay neighbours is 1)
        if np.sum(np.diff(np.argsort(order[p])[last]) == 1) > 16:
            raise Violation("training with %d samples, %d shuffled epochs: runs of samples stay together in epoch %d" % (N, E, p))
    return {"labels": ["places"], "nontrivial": True}


def twin(nn, c):
    t = net.make(c)
    net.set_weights(t, net.weights(nn))
    return t


def check(case):
    if "places" in case:
        return places(case)
    c, N, E, sh = case["net"], case["N"], case["E"], case["shuffle"]
    nn = net.make(c)
    x, d = net.data(case["data"], N, c["n"], c["out"])
    if sh and N > 1:
        # distinct samples, so that the order of presentation can be told
        rs = np.random.RandomState(case["data"]["seed"] + 5)
        d = d + (rs.permutation(N) / N * 1.7).reshape((N,) + (1,) * (d.ndim - 1)) * (1 + rs.random_sample(d.shape))
    if case["pre"] in ("train", "shuffled"):
        np.random.seed(5)
        nn.train(x[::-1].copy(), d[::-1].copy(), epochs=1, shuffle=case["pre"] == "shuffled")
    elif case["pre"] == "run":
        nn.run(x)
    t = twin(nn, c)
    np.random.seed(case["seed"])
    xa = x.tolist() if case["as"] == "list" else np.asfortranarray(x) if case["as"] == "fortran" else x
    if case["default"]:
        E = 10
        r = nn.train(xa, d, shuffle=sh) if sh else nn.train(xa, d)
    elif case["pos"]:
        r = nn.train(xa, d, E, sh)
    else:
        r = nn.train(xa, d, epochs=E, shuffle=sh)
    e, mse = (np.asarray(v, dtype=float) for v in r)
    what = "training of %s->%s->%d with %d samples, %d epochs%s" % (c["n"], c["layers"], c["out"], N, E,
                                                                   ", shuffled" if sh else "")
    if e.shape != ((N * E,) if c["out"] == 1 else (N * E, c["out"])) or mse.shape != (E,):
        raise Violation("%s: errors of the shape %s, MSE of %s" % (what, e.shape, mse.shape))
    if not np.all(np.isfinite(e)) or not np.all(np.abs(e) < 1e6):
        return {"labels": net.labels(c) + ["diverged"], "nontrivial": False}
    for p in range(E):
        m = np.sum(e[p * N:(p + 1) * N] ** 2) / N
        if not abs(mse[p] - m) <= 1e-9 * m + 1e-300:
            raise Violation("%s: MSE of epoch %d is %.12g, its errors give %.12g" % (what, p, mse[p], m))
    orders = []
    t2 = twin(t, c)          # started a little aside: shows when rounding errors have grown
    net.set_weights(t2, [w * (1 + 1e-13 * np.random.RandomState(2).normal(0, 1, w.shape)) for w in net.weights(t)])
    sure = True
    work = 0
    for p in range(E):
        # telling the order costs N*N/2 predictions of every epoch
        work += sh * N * N * (len(c["layers"]) + 1)
        if not sure or work > 600000 and p > 1:
            sure = False
            break
        left = list(range(N))
        order = []
        for k in range(N):
            want = e[p * N + k]
            if sh:
                errs = [np.max(np.abs(d[i] - t.predict(x[i]) - want)) for i in left]
                j = int(np.argmin(errs))
                if errs[j] > 1e-6 * (1 + np.max(np.abs(want))):
                    raise Violation("%s: error %d of epoch %d belongs to no sample that is left to be presented"
                                    % (what, k, p))
                if np.sum(np.array(errs) <= 1e-8 * (1 + np.max(np.abs(want))) + 10 * errs[j]) > 1:
                    sure = False          # two samples would give this error: the order cannot be told
                    break
                i = left.pop(j)
            else:
                i = k
            order.append(i)
            t.predict(x[i])
            got = t.update(d[i])
            t2.predict(x[i])
            if not np.all(np.abs(t2.update(d[i]) - got) <= 1e-9 * (1 + np.abs(got))):
                sure = False
                break
            if not np.all(np.abs(got - want) <= 1e-6 * (1 + np.abs(want))):
                raise Violation("%s: error %d of epoch %d is %s, presenting the samples one by one gives %s"
                                % (what, k, p, want, got))
        if sure:
            orders.append(order)
    for a, b in zip(net.weights(nn), net.weights(t)) if sure else ():
        if not np.allclose(a, b, rtol=1e-6, atol=1e-7):
            raise Violation("%s: the trained weights are not those of presenting the samples one by one" % what)
    if sh and N >= 13:
        rows = [tuple(np.append(x[i], np.atleast_1d(d[i]))) for i in range(N)]
        if len(set(rows)) == N:
            # the chance that this happens by accident is below 1e-9
            if any(o == list(range(N)) for o in orders):
                raise Violation("%s: the samples were presented in the given order" % what)
            if len(set(map(tuple, orders))) < len(orders):
                raise Violation("%s: two epochs used the same order" % what)
    return {"labels": net.labels(c) + ["shuffled" if sh else "in order", "pre:" + case["pre"]] + ([] if sure else ["rounding horizon"]),
            "nontrivial": N > 1 and E > 1}
