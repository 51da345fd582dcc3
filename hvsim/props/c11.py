"""C11 Appending sensitivities never destroys the geometry file."""

from .. import tri
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import call
from . import c06, common

TRI = ["Components.i.tri", "Components.i.tri", "grid/Components.i.tri", "g.tri"]


def gen(rng, tier, index):
    return {
        "doc": tri.draw(rng, points=rng.randint(1, 6), pad=rng.choice([0, 0, 0, 2000, 2000, 9000, 9000, 60000])),
        "tri": rng.choice(TRI),
        "outdir": rng.choice([None, None, "out", "a/b"]),
        "verbosity": rng.choice([0, 1]),
        "earlier": rng.random() < 0.4,  # sensitivities were appended before
        "left": rng.random() < 0.2,  # files of an earlier crash
        "faults": None,
        "pairs": rng.random() < 0.5,
        "limit": 40 if tier == "quick" else 400,
    }


def run(plan):
    spec = plan["doc"]
    path = plan["tri"]
    original = tri.document(spec)
    wanted = tri.Expected(spec, spec["params"])
    data = {p: wanted.of(p) for p in spec["params"]}
    earlier = None
    names = []
    tri.store(path, original)
    for k in range(len(spec["files"])):
        names.append(f"c{k}_sensitivity.csv")
        tri.store(names[-1], tri.sens_file(spec, k, factor=2.0))
    if plan["earlier"]:
        outcome = append(plan, names, [])
        if not outcome.ok:
            raise unexpected(outcome)
        earlier = {p: tri.Expected(spec, [p], 2.0).of(p) for p in spec["params"]}
    for k, name in enumerate(names):
        tri.store(name, tri.sens_file(spec, k))
    for name, content in c06.BYSTANDERS.items():
        if content is not None:
            tri.store(name, content)
    if plan["left"]:
        tri.store(path + ".tmp", original[: len(original) // 2])
    start = snapshot(SIM.fs.root)
    if earlier:
        tri.check_document(start[path], original, earlier, "after the first time")

    outcome = append(plan, names, [])
    if not outcome.ok:
        raise unexpected(outcome)
    found = snapshot(SIM.fs.root)
    tri.check_document(found[path], original, data, "without a fault")
    intact(plan, start, found, "without a fault")
    faults = plan["faults"]
    if faults is None:
        sizes = {k: len(v) for k, v in found.items() if v is not None}
        # The size of files that were renamed since
        for kind, name, size in outcome.fs_trace:
            if kind == "open_w" and name not in sizes:
                sizes[name] = len(found[path])
        faults = common.file_faults(outcome.fs_trace, sizes, SIM.rng, plan["limit"])
        faults = common.then(faults, SIM.rng)
    last = None
    for fault in faults:
        SIM.narrow = {"faults": [fault]}
        where = f"with {common.describe(fault)}"
        c06.fill(start)
        outcome = append(plan, names, [dict(fault, t="fs")])
        after = snapshot(SIM.fs.root)
        if outcome.ok:
            tri.check_document(after.get(path) or b"", original, data, where)
        elif not outcome.fired:
            raise unexpected(outcome)
        elif path not in after:
            raise Violation("document_lost", where)
        elif after[path] != start[path]:
            tri.check_document(after[path], original, data, where)
        intact(plan, start, after, where)
        if not outcome.ok and plan["pairs"] and last is not None:
            # A second failure on top of the first
            where += f", then {common.describe(last)}"
            SIM.narrow = {"faults": [last, fault]}
            outcome = append(plan, names, [dict(last, t="fs")])
            after = snapshot(SIM.fs.root)
            if path not in after:
                raise Violation("document_lost", where)
            if after[path] != start[path] or outcome.ok:
                tri.check_document(after[path], original, data, where)
        last = fault
        if not outcome.ok:
            if fault.get("then") == "clean":
                c06.fill(start)
            outcome = append(plan, names, [])
            if not outcome.ok:
                raise Violation("not_repeatable", f"{outcome.describe()} {where}")
            after = snapshot(SIM.fs.root)
            tri.check_document(after[path], original, data, f"repeated {where}")
    SIM.narrow = None


def append(plan, names, faults):
    spec = plan["doc"]
    return call(
        tri.append_sensitivities_to_tri,
        list(names),
        components_filepath=plan["tri"],
        match_tolerance=spec["tolerance"],
        rounding_tolerance=spec["rounding"],
        outdir=plan["outdir"],
        verbosity=plan["verbosity"],
        faults=faults,
        label="append",
    )


def unexpected(outcome):
    return Violation(f"unexpected_{type(outcome.error).__name__}", outcome.describe())


def intact(plan, start, after, where):
    base = f"{plan['outdir']}/" if plan["outdir"] else ""
    for name, data in start.items():
        if name in (plan["tri"], plan["tri"] + ".tmp", f"{base}all_components_sensitivity.csv"):
            continue
        if name not in after or after[name] != data:
            raise Violation("bystander_harmed", f"{name} {where}")
