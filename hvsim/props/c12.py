"""C12 Appending sensitivities can be repeated and is independent of file order."""

import os

from .. import tri
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import call
from . import c06, common

COMBINED = "all_components_sensitivity.csv"


def gen(rng, tier, index):
    docs = [tri.draw(rng)]
    if rng.random() < 0.4:
        docs.append(tri.draw(rng))
    ops = []
    for n in range(rng.randint(1, 6)):
        doc = rng.randrange(len(docs))
        spec = docs[doc]
        params = spec["params"]
        if rng.random() < 0.2:
            params = rng.sample(params, rng.randint(1, len(params)))
        fault = None
        if rng.random() < 0.4:
            fault = {"place": rng.randrange(1000) / 1000, "choice": rng.randrange(1000) / 1000}
        ops.append(
            {
                "order": rng.sample(range(len(spec["files"])), len(spec["files"])),
                "listed": rng.choice(
                    [None, None, "plain", "dot", "absolute", "other", "nested"]
                ),
                "position": rng.randrange(4),
                "params": list(params),
                "factor": rng.choice([1.0, 1.0, -3.0]),
                "verbosity": rng.choice([0, 1]),
                "doc": doc,
                "new": rng.random() < 0.1,
                "then": rng.choice(["same", "same", "clean"]),
                "faults": [fault] if fault else [],
            }
        )
    return {
        "docs": docs,
        "ops": ops,
        "place": rng.choice(["", "", "sens/", "run dir/"]),
        "outdir": rng.choice([None, "", "sens", "sens", "out"]),
        "combined": rng.choice([COMBINED, COMBINED, "combined.csv"]),
        "tri": rng.choice(["Components.i.tri", "sens/Components.i.tri"]),
        "paths": rng.choice(["relative", "dot", "absolute"]),
    }


def run(plan):
    spec = None
    outdir = plan["outdir"] or None
    combined = (f"{outdir}/" if outdir else "") + plan["combined"]
    for op in plan["ops"]:
        if spec is not common.pick(plan["docs"], op["doc"]) or op["new"]:
            # Another geometry, or the same one again, takes the place of the document
            spec = common.pick(plan["docs"], op["doc"])
            original = tri.document(spec)
            tri.store(plan["tri"], original)
            wanted = {}
        params = [p for p in spec["params"] if p in op["params"]] or spec["params"][:1]
        names = []
        for k in op["order"]:
            if k >= len(spec["files"]):
                continue
            name = f"{plan['place']}part{k}_sensitivity.csv"
            tri.store(name, tri.sens_file(spec, k, params, op["factor"]))
            names.append(spell(name, plan["paths"]))
        expected = tri.Expected(spec, params, op["factor"])
        listed = list_combined(op, combined, snapshot(SIM.fs.root), plan, spec)
        if listed:
            names.insert(op["position"] % (len(names) + 1), listed)
        before = snapshot(SIM.fs.root)
        faults = []
        if op["faults"]:
            # Rehearse in order to place the fault
            rehearsal = append(plan, spec, op, names, outdir, [])
            sizes = {k: len(v) for k, v in snapshot(SIM.fs.root).items() if v is not None}
            c06.fill(before)
            possible = common.file_faults(rehearsal.fs_trace, sizes, None, 10**9)
            for f in op["faults"] if possible else []:
                at = int(f["place"] * len(rehearsal.fs_trace))
                here = [p for p in possible if p["ev"] == at] or possible
                fault = here[int(f["choice"] * len(here)) % len(here)]
                faults.append(dict(fault, t="fs"))
        outcome = append(plan, spec, op, names, outdir, faults)
        label = "with " + common.describe(faults[0]) if faults else "without a fault"
        if not outcome.ok:
            if not outcome.fired:
                raise Violation(
                    f"unexpected_{type(outcome.error).__name__}", outcome.describe()
                )
            if op["then"] == "clean":
                c06.fill(before)
            outcome = append(plan, spec, op, names, outdir, [])
            if not outcome.ok:
                raise Violation("not_repeatable", f"{outcome.describe()} {label}")
        if not abs(outcome.value - expected.fraction) < 1e-12:
            raise Violation("wrong_fraction", f"{outcome.value} not {expected.fraction}")
        for p in params:
            wanted[p] = expected.of(p)
        found = snapshot(SIM.fs.root)
        tri.check_document(found[plan["tri"]], original, wanted, label)
        if combined not in found:
            raise Violation("missing_file", combined)
        expected.check_combined(found[combined], label)
        for k in range(len(spec["files"])):
            name = f"{plan['place']}part{k}_sensitivity.csv"
            if name in before and found.get(name) != before[name]:
                raise Violation("bystander_harmed", name)


def spell(name, how):
    if how == "absolute":
        return os.path.join(SIM.fs.root, name)
    return f"./{name}" if how == "dot" else name


def list_combined(op, combined, found, plan, spec):
    """The combined file of an earlier run, as a caller may name it."""
    how = op["listed"]
    if how is None:
        return None
    if how in ("other", "nested"):
        # A copy elsewhere, with other values
        copied = ("copies/" if how == "other" else "a/b/") + plan["combined"]
        params = [p for p in spec["params"] if p in op["params"]] or spec["params"][:1]
        data = b"".join(
            tri.sens_file(spec, k, params, 77.0).split(b"\n", 1)[1 if k else 0]
            if k
            else tri.sens_file(spec, k, params, 77.0)
            for k in range(len(spec["files"]))
        )
        tri.store(copied, data)
        return copied
    if combined not in found:
        return None
    return spell(combined, {"plain": "relative", "dot": "dot"}.get(how, "absolute"))


def append(plan, spec, op, names, outdir, faults):
    given = list(names)
    outcome = call(
        tri.append_sensitivities_to_tri,
        given,
        components_filepath=plan["tri"],
        match_tolerance=spec["tolerance"],
        rounding_tolerance=spec["rounding"],
        combined_sens_fn=plan["combined"],
        outdir=outdir,
        verbosity=op["verbosity"],
        faults=faults,
        label="append",
    )
    if given != names:
        raise Violation("changed_input", f"list of files {given} was {names}")
    return outcome
