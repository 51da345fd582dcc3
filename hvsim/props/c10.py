"""C10 Exported sensitivities are complete, and exports can share a directory."""

import io
import os

import numpy as np
import pandas as pd

from .. import build, study as st
from ..core import SIM, Violation
from ..fs import snapshot
from ..sched import Scheduler
from ..world import call, captured, expect
from . import c06, common


def gen(rng, tier, index):
    threads = rng.random() < 0.5
    scope = rng.choice([None, None, "core", "state"])
    count = rng.choice([2, 2, 3]) if threads else 1
    specs = []
    for k in range(count):
        spec = st.draw_spec(rng, analysed=rng.random() < 0.5 and k == 0, count=rng.choice([1, 2]))
        for i, comp in enumerate(spec["vehicle"]["comps"]):
            comp["opts"]["name"] = f"part {k}{i}" if k else f"c{i}"
        if k:
            spec["properties"] = {}
        specs.append(spec)
    if threads and count > 1 and rng.random() < 0.5:
        # Scalar sensitivities of two kinds go to one directory
        specs[0]["properties"] = {}
        specs[1]["properties"] = {"weight": {k: 0.5 for k in specs[1]["params"]}}
    return {
        "specs": specs,
        "args": [st.draw_study(rng, s) for s in specs],
        "outdir": rng.choice([None, "out", "out", "deep/er/out"]),
        "exists": rng.random() < 0.4,
        "faults": None if not threads else [],
        "limit": 30 if tier == "quick" else 400,
        "gaps": common.draw_gaps(rng, scope, 60, 12) if threads else [],
        "scope": scope,
        "workers": 4,
    }


def run(plan):
    SIM.cpu_count = plan["workers"]
    studies = []
    for k, (spec, args) in enumerate(zip(plan["specs"], plan["args"])):
        study = expect(
            st.SensitivityStudy, st.make_generator(spec), verbosity=0, label="study"
        )
        params = st.params_of(spec, args)
        expect(study.dvdp, params, perturbation=args["perturbation"],
               write_nominal_stl=False, label="dvdp")
        if k:
            study.combined_fn = f"combined_{k}.csv"
        studies.append(study)
    outdir = plan["outdir"]
    start = dict(c06.BYSTANDERS)
    if plan["exists"]:
        start[f"{outdir or '.'}/keep.csv"] = b"x\n1\n"
        start[f"{outdir or '.'}/{list(studies[0].component_sensitivities)[0]}_sensitivity.csv"] = (
            b"stale\n" * 3000
        )
    c06.fill(start)
    start = snapshot(SIM.fs.root)
    held = [common.freeze(st.results(s)) for s in studies]

    # One after the other, without faults
    for study in studies:
        outcome = call(study.to_csv, *arguments(outdir), label="to_csv")
        if not outcome.ok:
            raise Violation(f"unexpected_{type(outcome.error).__name__}", outcome.describe())
        check_path(outcome.value, outdir, study)
    found = snapshot(SIM.fs.root)
    for study in studies:
        complete(study, outdir, found, "")
    intact(start, found, outdir, studies, "")
    for name in found:
        if name not in start and not owned(name, outdir, studies):
            raise Violation("extra_file", name)

    if len(studies) > 1:
        together(plan, studies, outdir, start)
    else:
        one_by_one(plan, studies, outdir, start, outcome.fs_trace, found)
    for study, before in zip(studies, held):
        if not common.same(st.results(study), before):
            raise Violation("changed_study", "results changed by an export")


def one_by_one(plan, studies, outdir, start, trace, found):
    study = studies[0]
    faults = plan["faults"]
    if faults is None:
        sizes = {k: len(v) for k, v in found.items() if v is not None}
        faults = common.file_faults(trace, sizes, SIM.rng, plan["limit"])
        faults = common.then(faults, SIM.rng)
    held = common.freeze(st.results(study))
    for fault in faults:
        SIM.narrow = {"faults": [fault]}
        c06.fill(start)
        where = f"with {common.describe(fault)}"
        outcome = call(
            study.to_csv, *arguments(outdir), faults=[dict(fault, t="fs")], label="to_csv"
        )
        after = snapshot(SIM.fs.root)
        if outcome.ok:
            complete(study, outdir, after, where)
        elif not outcome.fired:
            raise Violation(f"unexpected_{type(outcome.error).__name__}", outcome.describe())
        intact(start, after, outdir, studies, where)
        if not common.same(st.results(study), held):
            raise Violation("changed_study", f"by an export {where}")
        if fault.get("then") == "clean":
            c06.fill(start)
        elif fault.get("then") == "other":
            again = call(study.to_csv, "second", label="to_csv")
            if not again.ok:
                raise Violation("not_repeatable", f"{again.describe()} elsewhere, {where}")
            complete(study, "second", snapshot(SIM.fs.root), f"elsewhere, after one {where}")
        again = call(study.to_csv, *arguments(outdir), label="to_csv")
        if not again.ok:
            raise Violation("not_repeatable", f"{again.describe()} after an export {where}")
        complete(study, outdir, snapshot(SIM.fs.root), f"again after one {where}")
    SIM.narrow = None


def together(plan, studies, outdir, start):
    """All studies at the same time, as threads."""
    if not plan["exists"]:
        # The directory is new for all of them
        c06.fill(start)
    SIM.fs.begin({})
    SIM.begin_op()
    SIM.fs.active = True
    try:
        with captured():
            scheduler = Scheduler(plan["gaps"], plan["scope"])
            outcomes = scheduler.run(
                [lambda s=s: s.to_csv(*arguments(outdir)) for s in studies]
            )
    finally:
        SIM.fs.active = False
        SIM.fs.finish()
    for kind, value in outcomes:
        if kind == "error":
            raise Violation(
                "concurrent_failure", f"an export at the same time as another: {value!r}"
            )
    found = snapshot(SIM.fs.root)
    for study in studies:
        complete(study, outdir, found, "at the same time")
    intact(start, found, outdir, studies, "at the same time")


def arguments(outdir):
    return () if outdir is None else (outdir,)


def check_path(path, outdir, study):
    wanted = os.path.join(SIM.fs.root, outdir or "", study.combined_fn)
    if os.path.abspath(os.path.join(SIM.fs.root, str(path))) != os.path.abspath(wanted):
        raise Violation("wrong_path", f"{path} returned instead of {wanted}")


def files_of(study, outdir):
    base = f"{outdir}/" if outdir else ""
    names = [f"{base}{c}_sensitivity.csv" for c in study.component_sensitivities]
    names.append(f"{base}{study.combined_fn}")
    return names


def owned(name, outdir, studies):
    base = f"{outdir}/" if outdir else ""
    if name.startswith(f"{base}scalar_sensitivities"):
        return True
    if outdir and (outdir + "/").startswith(name):
        return True
    return any(name in files_of(s, outdir) for s in studies)


def intact(start, after, outdir, studies, where):
    for name, data in start.items():
        if not owned(name, outdir, studies) and (
            name not in after or after[name] != data
        ):
            raise Violation("bystander_harmed", f"{name} {where}")


def read(found, name, where, index=None):
    return c06.parse(
        found,
        name,
        lambda d: pd.read_csv(
            io.BytesIO(d), index_col=index, float_precision="round_trip"
        ),
        where,
    )


def equal(frame, table, what):
    if list(frame.columns) != list(table.columns) or len(frame) != len(table):
        raise Violation(
            "wrong_file", f"{what}: {frame.shape} {list(frame.columns)[:5]}, not {table.shape}"
        )
    a, b = frame.to_numpy(float), table.to_numpy(float)
    if not np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True):
        raise Violation("wrong_file", f"values in {what}")


def ordered(frame):
    return frame.sort_values(list(frame.columns)).reset_index(drop=True)


def complete(study, outdir, found, where):
    base = f"{outdir}/" if outdir else ""
    tables = study.component_sensitivities
    for name, table in tables.items():
        file = f"{base}{name}_sensitivity.csv"
        equal(read(found, file, where), table, f"{file} {where}")
    file = f"{base}{study.combined_fn}"
    everything = pd.concat(list(tables.values()))
    equal(ordered(read(found, file, where)), ordered(everything), f"{file} {where}")
    scalars = f"{base}scalar_sensitivities/"
    if study.scalar_sensitivities:
        for p, values in study.scalar_sensitivities.items():
            for key in ("cog", "moi"):
                file = f"{scalars}{p}_{key}_sensitivity.txt"
                got = c06.parse(found, file, c06.numbers, where)
                wanted = np.ravel(values[key])
                if got.shape != wanted.shape or not np.allclose(
                    got, wanted, rtol=1e-12, atol=0, equal_nan=True
                ):
                    raise Violation("wrong_file", f"{file} {where}")
        file = f"{scalars}volmass_sensitivity.csv"
        table = read(found, file, where, index=0)
        for p, values in study.component_scalar_sensitivities.items():
            for row, series in values.iterrows():
                for key, value in series.items():
                    try:
                        got = table.loc[f"{row}_{key}", p]
                    except KeyError:
                        raise Violation("wrong_file", f"{file} {where}: no {row}_{key}")
                    if not np.isclose(got, value, rtol=1e-12, atol=0, equal_nan=True):
                        raise Violation("wrong_file", f"{file} {where}: {row}_{key}")
    if study.property_sensitivities:
        file = f"{scalars}property_sensitivity.csv"
        table = read(found, file, where, index=0)
        for p, values in study.property_sensitivities.items():
            for key, value in values.items():
                try:
                    got = table.loc[key, p]
                except KeyError:
                    raise Violation("wrong_file", f"{file} {where}: no {key}")
                if not np.isclose(got, value, rtol=1e-12, atol=0):
                    raise Violation("wrong_file", f"{file} {where}: {key}")
