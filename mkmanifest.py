"""Writes MANIFEST.json from the table below (python3 mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "PBT: outputs, errors and weight history recomputed from the reported histories",
 "C02": "PBT: differential, same data delivered in different ways to twin filters",
 "C03": "PBT: metamorphic, extra predictions at any point of a history",
 "C04": "PBT: metamorphic, futures replaced after a random time",
 "C05": "PBT: model-based, update formula in extended precision",
 "C06": "PBT: model-based, full recursion in extended precision",
 "C07": "PBT: oracle, closed-form weighted least squares in extended precision",
 "C08": "PBT: model-based, projection on the last samples",
 "C09": "PBT: model-based centring memory, and offset metamorphic relation",
 "C10": "PBT: invariant over the history (distance to the true system)",
 "C11": "PBT: metamorphic, permuted, negated and sign-flipped data",
 "C12": "PBT: construction against a table of documented options, malformed configurations",
 "C13": "PBT: differential between all ways of creating and running a filter",
 "C14": "PBT: differential against explicit epochs and test run",
 "C15": "PBT: stateful, buffers and results overwritten between calls against an undisturbed twin",
 "C16": "PBT: repetition with interleaved calls, state of the random stream compared",
 "C17": "PBT: differential over representations of equal numbers",
 "C18": "PBT: invalid calls injected into histories, against a twin without them",
 "C19": "PBT: reference formula with rounding bounds, and metamorphic relations",
 "C20": "PBT: reference count with exact ties, and metamorphic relations",
 "C21": "PBT: reference formula and metamorphic relations",
 "C22": "PBT: reference with SciPy's fit, and metamorphic relations",
 "C23": "PBT: reference formula and round trip in extended precision",
 "C24": "PBT: element by element comparison with slices",
 "C25": "PBT: eigen-decomposition predicates",
 "C26": "PBT: generalised eigenproblem predicates, renamed labels, reordered samples",
 "C27": "PBT: reference formulas in extended precision, symmetry",
 "C28": "PBT: model-based, layered computation in extended precision",
 "C29": "PBT: model-based, back-propagation checked by difference quotients",
 "C30": "PBT: differential against single steps, order of presentation recovered from the errors",
 "C31": "PBT: malformed arguments, refused calls in histories against a twin",
 "C32": "PBT with fault injection: interpreters in which importing SciPy fails",
 "C33": "PBT: differential over representations of equal numbers",
 "C34": "PBT: histories with copies made in between, against an uncopied twin",
 "C35": "PBT: metamorphic, units of inputs and targets changed",
 "C36": "PBT: convergence over generated systems, settings and deliveries, against simulated bounds",
 "C37": "PBT over schedules: line-level scheduling of threads, against sequential execution",
 "C38": "PBT: state of the process compared around generated call sequences",
 "C39": "PBT: invariant over every update of a history",
 "C40": "PBT: generated perturbations located by the detectors",
 "C41": "PBT: histories with attributes changed in between, against fresh twins",
 "C42": "PBT: memory in use and size of the object measured around repeated generated work",
 "C43": "PBT: classes derived from the base class with generated rules, against an own loop",
}
N = {
 "C06": "Comparison ends where rounding errors of the recursion itself exceed the tolerance (measured by a perturbed model).",
 "C07": "Histories whose weighted normal equations are too badly conditioned are compared up to that point only.",
 "C09": "The centring memory is modelled as built; offsets are decided for the memory sizes outside the known findings.",
 "C10": "Inputs within the documented stability bounds.",
 "C19": "Samples m..m+order-1 are a known finding.",
 "C20": "Samples m..m+order-1 are a known finding; ties are decided where all numbers involved are exact.",
 "C22": "Trusts scipy.stats.genpareto for the fit; windows from 11 to some hundreds.",
 "C26": "Datasets with a well conditioned within-class scatter.",
 "C36": "The accepted remaining distances are many times what simulations of the documented formulas leave.",
 "C37": "Schedules switch between executed Python lines of the library, not inside NumPy; random draws are left out.",
 "C40": "Perturbations of at least 200 times the noise; ESE is only required to be positive.",
 "C32": "SciPy is kept away by import hooks in subprocesses.",
}
checks = []
for pid, tech in sorted(T.items()):
    checks.append({"property": pid, "quick_cmd": "./check.sh %s" % pid,
                   "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % pid, "technique": tech,
                   "level": "exploration",
                   "level_note": "Every generated case satisfied the oracle within stated rounding bounds; nothing is "
                                 "said about cases that were not generated. " + N.get(pid, "")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
