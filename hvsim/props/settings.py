"""How much each check runs, and what one evaluation of it is."""

COMMON = [
    "Patches of wings and fins are taken from a pristine component (their"
    " construction is not modelled).",
    "Components of a vehicle have distinct names.",
    "One thread runs at a time; memory is sequentially consistent.",
]

SETTINGS = {}


def add(prop, quick, thorough, rule, level="exploration", assumptions=()):
    SETTINGS[prop] = {
        "quick": {"runs": quick, "seconds": 60},
        "thorough": {"runs": thorough, "seconds": 240},
        "rule": rule,
        "level": level,
        "note": "Seeded exploration of plans; every run is replayable from its seed.",
        "assumptions": COMMON + list(assumptions),
    }


add(
    "C01",
    1600,
    20000,
    "One evaluation is one simulated run: a drawn component set is meshed under"
    " several schedules (worker counts, task durations, in process) and compared"
    " with the model and between schedules.",
    assumptions=["SimPool stands for the real pool, which is used in some runs."],
)

add(
    "C02",
    1600,
    12000,
    "One evaluation is one simulated run: a drawn vehicle and a history of up to"
    " seven meshing operations, hit by drawn faults; every mesh and file seen is"
    " compared with the model.",
)
add(
    "C03",
    2400,
    16000,
    "One evaluation is one simulated run: a drawn vehicle and a history of up to"
    " six meshing operations with faults of workers and pools in virtual time;"
    " after each the life cycle of all pools is examined.",
    assumptions=["SimPool has the life cycle of the real pool."],
)
add(
    "C04",
    1600,
    12000,
    "One evaluation is one simulated run: a drawn vehicle and a history of up to"
    " eight operations, with generations failing or interrupted at drawn points;"
    " every component is compared with the model after each generation.",
)
add(
    "C05",
    1600,
    12000,
    "One evaluation is one simulated run: a generated vehicle and a history of up"
    " to nine valid and invalid transformations, reads, analyses and exports,"
    " compared with the model along the way.",
)

add(
    "C06",
    800,
    1500,
    "One evaluation is one simulated run: a drawn vehicle is exported without a"
    " fault, and then with each of the faults possible at the file events seen"
    " (quick: at most 40 of them); the directory is examined after each, and after"
    " repeating the export.",
    level="fault_enumeration",
)

add(
    "C07",
    2000,
    12000,
    "One evaluation is one simulated run: a drawn vehicle and a history of up to"
    " nine analyses, transformations, generations and exports, some of them"
    " failing; attributes, tables and files are compared with the mass properties"
    " of the model after every operation.",
)
add(
    "C08",
    2000,
    12000,
    "One evaluation is one simulated run: one or two vehicles export repeatedly"
    " into one directory with left-over files, with file faults; the merged file is"
    " compared with the components exported.",
    assumptions=["PyMesh keeps the triangles (the stub does)."],
)

add(
    "C09",
    1500,
    9000,
    "One evaluation is one simulated run: one or two parametric vehicles and up to"
    " three studies of them with drawn faults; results are compared with finite"
    " differences of the model.",
    assumptions=["Nominal values of parameters are not zero."],
)
add(
    "C10",
    600,
    2000,
    "One evaluation is one simulated run: a study is exported without a fault, and"
    " then with each of the faults possible at the file events seen (quick: at most"
    " 30 of them), or two or three studies are exported by threads switched at"
    " drawn points.",
    level="fault_enumeration",
)
add(
    "C11",
    320,
    1600,
    "One evaluation is one simulated run: sensitivities are appended to a drawn"
    " document without a fault, and then with each of the faults possible at the"
    " file events seen (quick: at most 40 of them), in half of the runs with"
    " another failure after it, and again without.",
    level="fault_enumeration",
)
add(
    "C12",
    4000,
    20000,
    "One evaluation is one simulated run: a drawn document to which sensitivities"
    " are appended up to six times, with changed values, orders of files and"
    " spellings of paths, and faults; data are compared with an independent"
    " matching.",
    assumptions=[
        "No two vertices are within the tolerance of a point unless their"
        " sensitivities are equal."
    ],
)
add(
    "C13",
    900,
    6000,
    "One evaluation is one simulated run: two or three vehicles and studies built"
    " from the same objects, and operations on them in turn (with copies and"
    " faults) or by threads switched at drawn points; all of them are compared"
    " with the model.",
)
add(
    "C14",
    1500,
    9000,
    "One evaluation is one simulated run: two to four threads read, analyse and"
    " export one vehicle, switched at drawn points; everything they get is compared"
    " with the model.",
    assumptions=["Threads that export use different prefixes."],
)
add(
    "C15",
    800,
    5000,
    "One evaluation is one simulated run: a drawn workload is done in two drawn"
    " environments in one process, and again in another process with another hash"
    " seed; all results are compared bit for bit.",
)
SETTINGS["C15"]["cross"] = True
SETTINGS["C15"]["quick"]["seconds"] = 40
