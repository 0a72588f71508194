"""C23: result files against the in-memory results and an independent record of the run."""
import csv
import gzip
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from harness import Sub, require
from worlds import RecordingModel, World, worlds

ID = "C23"
RULE = ("runs of generated systems with random lengths, sampling plans, labels (given, from the configuration name) "
        "and callbacks returning numbers (NaN, infinities, tiny, huge), text, None, nested lists and dictionaries, "
        "NumPy scalars and arrays; every file is re-read with csv/gzip/json only; two runs with different labels in "
        "one directory; non-trivial when at least two summary rows and one record were written")

FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]
UNITS = {"time": "s", "msd": "angstrom^2"}


def plain(depth=2):
    leaf = st.one_of(
        st.none(), st.booleans(), st.integers(-2**60, 2**60),
        st.floats(allow_nan=True, allow_infinity=True), st.text(max_size=6))
    if depth == 0:
        return leaf
    return st.one_of(leaf, st.lists(plain(depth - 1), max_size=3),
                     st.dictionaries(st.text(max_size=4), plain(depth - 1), max_size=3))


@st.composite
def values(draw, depth=1):
    kind = draw(st.sampled_from(["plain", "plain", "np_float64", "np_float32", "np_int", "np_bool", "array", "tuple",
                                 "array2", "complex"] + ["of list", "of tuple", "of dict"] * (depth > 0)))
    if kind.startswith("of "):
        inner = [draw(values(depth - 1)) for _ in range(draw(st.integers(1, 3)))]
        return [kind, [i for i in inner if i[0] != "complex"]]
    if kind == "plain":
        return [kind, draw(plain())]
    if kind in ("np_float64", "np_float32"):
        return [kind, draw(st.floats(-2.0**60, 2.0**60, width=32))]
    if kind == "np_int":
        return [kind, draw(st.integers(-2**31, 2**31 - 1))]
    if kind == "np_bool":
        return [kind, draw(st.booleans())]
    if kind == "complex":
        return [kind, [draw(st.integers(-9, 9)), draw(st.integers(-9, 9))]]
    if kind == "array2":
        return [kind, [[draw(st.floats(-1e3, 1e3)) for _ in range(2)] for _ in range(draw(st.integers(1, 3)))]]
    return [kind, draw(st.lists(st.floats(-1e12, 1e12), max_size=4))]


LABELS = ["r", "run-1", "a b", "T300_x", "3", "r_1", "r_0", "units", "ünï", "r.csv", " pad ", "0", "r%d", "Émile", "R", " two words "]


@st.composite
def cases(draw):
    spec = draw(worlds(max_events=8, max_cells=4, min_events=2))
    spec["cfg"] = {"equilibration_passes": draw(st.integers(0, 1)), "kmc_passes": draw(st.sampled_from([2, 3, 4, 1, 12, 21])),
                   "random_seed": draw(st.integers(0, 10**6)),
                   "mobile_ion_charge": draw(st.sampled_from([1.0, -1.0, 2.0])),
                   "elementary_hop_distance": draw(st.integers(100, 900)) / 137}
    if draw(st.booleans()):
        spec["cfg"]["property_sampling_interval"] = draw(st.integers(1, 4))
    spec["off"] = sorted(draw(st.sets(st.sampled_from(FIELDS), max_size=3)))
    spec["name"] = draw(st.sampled_from(LABELS))
    spec["label"] = draw(st.one_of(st.none(), st.sampled_from(LABELS)))
    spec["other"] = draw(st.sampled_from(LABELS))
    spec["counts"] = draw(st.lists(st.integers(0, 2**52), min_size=1, max_size=4))
    spec["moves"] = draw(st.lists(st.floats(-1e9, 1e9), min_size=1, max_size=7))
    spec["callbacks"] = [
        [draw(st.sampled_from(["p", "q q", "ß", "z/1"])) + str(k), draw(st.integers(1, 4)),
         draw(st.one_of(st.none(), st.integers(1, 3))), draw(st.sampled_from([True, True, True, False])),
         draw(st.lists(values(), min_size=1, max_size=5))]
        for k in range(draw(st.sampled_from([1, 2, 3, 0])))]
    return spec


def realise(item):
    kind, v = item
    if kind == "of list":
        return [realise(x) for x in v]
    if kind == "of tuple":
        return tuple(realise(x) for x in v)
    if kind == "of dict":
        return {f"k{n}": realise(x) for n, x in enumerate(v)}
    if kind == "np_float64":
        return np.float64(v)
    if kind == "np_float32":
        return np.float32(v)
    if kind == "np_int":
        return np.int32(v) if abs(v) < 1000 else np.int64(v)
    if kind == "np_bool":
        return np.bool_(v)
    if kind in ("array", "array2"):
        return np.array(v, float)
    if kind == "tuple":
        return tuple(v)
    if kind == "complex":
        return np.complex128(complex(*v))
    return v


def expected(item):
    kind, v = item
    if kind in ("of list", "of tuple"):
        return [expected(x) for x in v]
    if kind == "of dict":
        return {f"k{n}": expected(x) for n, x in enumerate(v)}
    if kind == "np_float32":
        return float(np.float32(v))
    if kind == "complex":
        return None  # no JSON form; only readability is required
    return v


def same(a, b):
    """Equality with NaN equal to itself and int/float/bool kept apart."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b)
                and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


def rows_of(path):
    require(os.path.exists(path), "file written", file=os.path.basename(path), found=sorted(os.listdir(".")))
    try:
        with gzip.open(path, "rt", newline="") as fh:
            return [row for row in csv.reader(fh) if row]
    except (OSError, EOFError, UnicodeDecodeError, csv.Error) as exc:
        require(False, "a file that is not gzip text", file=os.path.basename(path), error=str(exc))


def document(path):
    require(os.path.exists(path), "file written", file=os.path.basename(path), found=sorted(os.listdir(".")))
    try:
        with gzip.open(path, "rt", encoding="utf-8") as fh:
            return json.load(fh)
    except (OSError, EOFError, ValueError) as exc:
        require(False, "a file that is not gzip JSON", file=os.path.basename(path), error=str(exc))


def numbers(path):
    rows = rows_of(path)
    try:
        return [[float(x) for x in row] for row in rows]
    except ValueError:
        require(False, "a file that is not comma-separated numbers", file=os.path.basename(path), rows=rows[:2])


def one_run(w, spec, label, cfg):
    model = RecordingModel(w)
    config = w.config(name=spec["name"], builtin_property_enabled={f: False for f in spec["off"]}, **cfg)
    kmc = w.kmc(config=config, model=model)
    log = {}
    for name, interval, cap, store, vals in spec["callbacks"]:
        def callback(state, step, time, name=name, vals=vals):
            item = vals[len(log.setdefault(name, [])) % len(vals)]
            log[name].append((int(step), float(time), item))
            return realise(item)
        kmc.attach(callback, interval=interval, name=name, max_records=cap, store=store)
    tracker = kmc.run(label=label)
    return kmc, tracker, log, model


def check_files(spec, case):
    w = World(spec)
    here = case.tmp()
    os.chdir(here)
    kmc, tracker, log, model = one_run(w, spec, spec["label"], spec["cfg"])
    label = spec["label"] if spec["label"] is not None else spec["name"]
    last = spec["cfg"]["kmc_passes"] - 1
    names = {
        "disp": f"displacement_{label}_{last}.csv.gz", "hops": f"hop_counter_{label}_{last}.csv.gz",
        "occ": f"current_occ_{label}_{last}.csv.gz", "res": f"results_{label}.csv.gz",
        "units": f"results_units_{label}.json.gz"}
    stored = {name: log.get(name, [])[-cap if cap else None:] for name, _, cap, store, _ in spec["callbacks"] if store}
    if any(stored.values()):
        names["props"] = f"properties_{label}.json.gz"
    found = sorted(os.listdir("."))
    require(found == sorted(names.values()), "files written", got=found, want=sorted(names.values()))

    def verify():
        disp = numbers(names["disp"])
        want = np.asarray(tracker.displacement).tolist()
        require(disp == want, "displacement file", got=disp, want=want)
        hops = [row[0] for row in numbers(names["hops"])]
        require(hops == [int(x) for x in tracker.hop_counter], "hop counter file", got=hops)
        occ = [row[0] for row in numbers(names["occ"])]
        final = model.hops[-1]["occ"] if model.hops else spec["occ"]
        require(occ == final == [int(x) for x in kmc.simulation_state.occupations], "occupation file", got=occ,
                want=final)
        rows = rows_of(names["res"])
        require(rows, "results file is empty")
        head, body = rows[0], rows[1:]
        require(sorted(head) == sorted(["time"] + FIELDS), "columns of the results file", got=head)
        for column, field in enumerate(head):
            require(all(len(r) == len(head) for r in body), "a results row per column", head=head, body=body[:3])
            try:
                got = [float(r[column]) if r[column] != "" else float("nan") for r in body]
            except ValueError:
                require(False, "numbers in the results file", field=field, body=body[:3])
            mem = [float(x) for x in tracker.results[field]]
            require(len(got) == len(mem) and all(same(a, b) for a, b in zip(got, mem)), "results column", field=field,
                    got=got, want=mem)
        interval = spec["cfg"].get("property_sampling_interval") or max(1, w.pass_length())
        n_eq = spec["cfg"]["equilibration_passes"] * w.pass_length()
        times = [h["time"] for h in model.hops[n_eq:] if h["step"] % interval == 0]
        got = [float(r[head.index("time")]) for r in body]
        require(got == times, "sampled times in the results file", got=got, want=times)
        units = document(names["units"])
        require(units == dict(tracker.result_units), "units file", got=units)
        require(set(units) == set(head) and all(isinstance(u, str) for u in units.values()), "units of every column")
        require(units["time"] == "s", "unit of time", got=units["time"])
        if "props" in names:
            payload = document(names["props"])
            for name, want in stored.items():
                require(isinstance(payload, list) and all(
                    isinstance(r, dict) and {"name", "step", "time", "value"} <= set(r) for r in payload),
                    "shape of the records file", got=str(payload)[:200])
                mine = [r for r in payload if r["name"] == name]
                require(len(mine) == len(want), "number of records", name=name, got=len(mine), want=len(want))
                for rec, (step, time, item) in zip(mine, want):
                    require(rec["step"] == step and rec["time"] == time, "step and time of a record", got=rec,
                            want=[step, time])
                    if item[0] == "complex":
                        require(rec["value"] is not None, "complex value lost")
                    else:
                        require(same(rec["value"], expected(item)), "value of a record", name=name, got=rec["value"],
                                want=item)
            require(sum(len(v) for v in stored.values()) == len(payload), "extra records", n=len(payload))

    verify()
    content = {f: open(f, "rb").read() for f in names.values()}
    other = spec["other"]
    if other != label:
        cfg = dict(spec["cfg"], random_seed=spec["cfg"]["random_seed"] + 1, kmc_passes=spec["cfg"]["kmc_passes"] + 1)
        one_run(w, spec, other, cfg)
        for f, before in content.items():
            require(os.path.exists(f) and open(f, "rb").read() == before, "another label overwrote a file", file=f,
                    other=other)
        case.label("second-label")
    if len(tracker.hop_counter):  # the same tracker after a much longer history
        shape = np.asarray(tracker.displacement).shape
        tracker.hop_counter = np.resize(np.array(spec["counts"], dtype=np.int64), shape[0])
        tracker.displacement = np.resize(np.array(spec["moves"], dtype=float), shape)
        tracker.write_results(label="long history")
        hops = [row[0] for row in numbers(f"hop_counter_long history_{last}.csv.gz")]
        require(hops == tracker.hop_counter.tolist(), "large hop counters in the file", got=hops)
        disp = numbers(f"displacement_long history_{last}.csv.gz")
        require(disp == tracker.displacement.tolist(), "large displacements in the file", got=disp)
    case.nontrivial(len(tracker.results["time"]) >= 2 and any(stored.values()))
    case.label("records", any(stored.values()))
    case.label("multi-pass", last > 0)


SUBS = [Sub("files", cases, check_files, quick=120, thorough=2500)]
TECHNIQUE = ("property-based testing (Hypothesis): generated runs whose output files are re-read with csv/gzip/json and "
             "compared with the in-memory results and an independent record of the run")
