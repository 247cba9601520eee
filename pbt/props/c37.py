"""C37: separate filters, networks and calls may be used from separate threads."""
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from .. import calls, common, hist, kinds, lib
from ..lib import Violation, pa

ID = "C37"
BUDGET = {"quick": 1100, "thorough": 5000}
RULE = ("case = two or three jobs (a filter's whole history, a network's training and use, a call of a detector, "
        "preprocessing function or metric), each with objects and data of its own, and a schedule: after so many executed "
        "lines of the library a job is halted and another one goes on. Every result has to be bit for bit that of the jobs "
        "done one after the other. Non-trivial: at least two switches happened inside calls")
ROOT = lib.REPO + "/padasip/"
MAX_LINES = 200000


class Baton:
    """Runs functions in threads of their own, one at a time, handing over after drawn numbers of library lines."""

    def __init__(self, jobs, schedule):
        self.jobs = jobs
        self.schedule = schedule
        self.at = 0
        self.left = schedule[0]
        self.alive = list(range(len(jobs)))
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.done = threading.Semaphore(0)
        self.results = [None] * len(jobs)
        self.errors = [None] * len(jobs)
        self.switches = 0

    def next_of(self, i):
        k = self.alive.index(i)
        return self.alive[(k + 1) % len(self.alive)]

    def line(self, i):
        self.left -= 1
        if self.left > 0:
            return
        self.at += 1
        self.left = self.schedule[self.at % len(self.schedule)]
        if self.at > 5000:
            self.left = MAX_LINES
        j = self.next_of(i)
        if j != i:
            self.switches += 1
            self.sem[j].release()
            self.sem[i].acquire()

    def body(self, i):
        self.sem[i].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.line(i)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        sys.settrace(tracer)
        try:
            self.results[i] = self.jobs[i]()
        except BaseException as exc:  # noqa
            self.errors[i] = exc
        finally:
            sys.settrace(None)
            j = self.next_of(i)
            self.alive.remove(i)
            if self.alive:
                self.sem[j].release()
            else:
                self.done.release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.sem[0].release()
        self.done.acquire()
        for t in threads:
            t.join()
        for e in self.errors:
            if e is not None:
                raise e
        return self.results


@st.composite
def cases_(draw, tier):
    jobs = []
    for _ in range(draw(st.sampled_from([2, 2, 2, 3]))):
        what = draw(st.sampled_from(["filter", "filter", "filter", "call", "net"]))
        if jobs and draw(st.integers(0, 2)) == 0 and jobs[-1]["what"] == "filter":
            # another filter of the same kind and size, with other data
            j = draw(common.hist_case([jobs[-1]["cfg"]["kind"]], hi=40, rare=0.0, typical=12))
            n = jobs[-1]["cfg"]["n"]
            j["cfg"] = draw(kinds.config([jobs[-1]["cfg"]["kind"]], n=n))
            j["data"] = draw(common.gen.data(n, j["N"]))
        elif jobs and draw(st.integers(0, 1)) == 0 and jobs[-1]["what"] != "filter":
            # the same call with other data of the same shape
            j = {"call": dict(jobs[-1]["call"], seed=draw(common.gen.SEEDS))}
            if j["call"]["fn"] in calls.ANN and draw(st.booleans()):
                j["call"]["act"] = draw(st.sampled_from(["sigmoid", "tanh"]))
            elif j["call"]["fn"] in calls.MET and draw(st.booleans()):
                two = j["call"]["fn"].endswith("2")
                j["call"]["fn"] = draw(st.sampled_from([f for f in calls.MET if f.endswith("2") == two]))
                j["call"].setdefault("of", "MSE")
        elif what == "filter":
            j = draw(common.hist_case(hi=40, rare=0.0, typical=12))
        elif what == "call":
            j = {"call": draw(calls.call(calls.PRE + calls.DET + calls.DET + calls.MET + ["ESE", "filter_data"]))}
            if j["call"]["fn"] == "filter_data" and j["call"]["w"] == "random":
                j["call"]["w"] = "zeros"
            if j["call"]["N"] > 60 and j["call"]["fn"] != "ESE":
                j["call"]["N"] = 60
        else:
            j = {"call": draw(calls.call(calls.ANN))}
            j["call"]["N"] = min(j["call"]["N"], 8)
            j["call"]["shuffle"] = False
        j["what"] = "filter" if "cfg" in j else "net" if j["call"]["fn"] in calls.ANN else "call"
        if j["what"] == "filter" and j["cfg"]["w"] == "random":
            j["cfg"]["w"] = "zeros"
        jobs.append(j)
    return {"jobs": jobs, "schedule": draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 60)),
                                                    min_size=1, max_size=20))}


def cases(tier):
    return cases_(tier)


def job(j):
    """A function that does the whole job with fresh objects."""
    if j["what"] == "filter":
        c, x, d, opts = hist.prepare(j)

        def go():
            R = hist.drive(kinds.make(c, opts), j["ops"], x, d)
            return [R.y, R.e, R.w, R.end]
        return go
    c = j["call"]
    args = calls.arrays(c)
    if j["what"] == "call":
        return lambda: calls.frozen(calls.execute(c, {k: v.copy() for k, v in args.items()}))
    np.random.seed(c["seed"] % 2 ** 32)
    nn = pa.ann.NetworkMLP(c["layers"], c["n"], outputs=c["out"], activation=c["act"], mu=c["mu"])

    def go():
        out = []
        if c["fn"] == "mlp_train":
            out += list(nn.train(args["x"], args["d"], epochs=c["epochs"]))
        elif c["fn"] == "mlp_test":
            out.append(nn.test(args["x"], args["d"]))
        elif c["fn"] == "mlp_run":
            out.append(nn.run(args["x"]))
        else:
            for k in range(c["N"]):
                out.append(np.array(nn.predict(args["x"][k])))
                out.append(np.array(nn.update(args["d"][k])))
        out.append(nn.run(args["x2"]))
        return out + [np.array(l.w) for l in nn.layers] + [np.array(nn.w)]
    return go


def check(case):
    want = [job(j)() for j in case["jobs"]]
    b = Baton([job(j) for j in case["jobs"]], case["schedule"])
    got = b.run()
    for j, a, r in zip(case["jobs"], want, got):
        for u, v in zip(a, r):
            if not np.array_equal(u, v, equal_nan=True):
                again = [job(j)() for _ in range(4)]
                if not all(np.array_equal(p, q, equal_nan=True) for g in again for p, q in zip(g, a)):
                    continue            # not reproducible to the bit even alone (alignment of arrays)
                name = j["cfg"]["kind"] if j["what"] == "filter" else j["call"]["fn"]
                others = [o["cfg"]["kind"] if o["what"] == "filter" else o["call"]["fn"] for o in case["jobs"] if o is not j]
                raise Violation("%s gives other results when %s run in other threads (%d switches)"
                                % (name, " and ".join(others), b.switches))
    lab = sorted({"job:" + (kinds.label(j["cfg"]) if j["what"] == "filter" else j["call"]["fn"]) for j in case["jobs"]})
    lab.append("switches:" + ("0" if not b.switches else "1-9" if b.switches < 10 else "10-99" if b.switches < 100 else "100+"))
    return {"labels": lab, "nontrivial": b.switches >= 2}
