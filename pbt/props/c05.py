"""C05: transport formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, require
from worlds import KB, World, moved_sites, recorded_run, worlds

ID = "C05"
RULE = ("(a) worlds run with random dimension, charge, temperature, hop distance and disabled fields, every "
        "sampled row recomputed from the recorded hops; (b) arbitrary displacement tables; non-trivial when "
        "at least 2 rows have a non-zero collective displacement")
ASSUMPTIONS = ["runs with an ambiguous nearest image (exact ties) are compared only in time and NaN pattern"]
FIELDS = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
          "correlation_factor"]
CM2 = 1e-16           # cm^2 per Angstrom^2
SIGMA = 1.602e11      # documented conductivity factor to mS/cm


def definitions(disp, hops, t, dim, a, volume, q, T):
    """The documented definitions, written out per ion."""
    n = len(disp)
    nan = float("nan")
    out = dict.fromkeys(FIELDS, nan)
    if n:
        sq = [sum(float(x) ** 2 for x in d) for d in disp]
        out["msd"] = sum(sq) / n
        out["correlation_factor"] = sum((s / (h * a * a) if h else 0.0) for s, h in zip(sq, hops)) / n
        if t > 0:
            total = [sum(float(d[k]) for d in disp) for k in range(3)]
            jump = sum(x * x for x in total) / (2 * dim * t * n) * CM2
            out["jump_diffusivity"] = jump
            out["tracer_diffusivity"] = out["msd"] / (2 * dim * t) * CM2
            out["conductivity"] = jump * (n / volume) * q * q / (KB * T) * SIGMA
            if jump != 0:
                out["havens_ratio"] = out["tracer_diffusivity"] / jump
    return out


def close(got, want, scale=0.0):
    if math.isnan(want):
        return math.isnan(got)
    return abs(got - want) <= 1e-7 * abs(want) + scale


@st.composite
def runs(draw):
    spec = draw(worlds(max_events=12, max_cells=6))
    spec["cfg"] = {
        "dimension": draw(st.integers(1, 3)),
        "mobile_ion_charge": draw(st.sampled_from([1.0, -1.0, 2.0, 0.5])),
        "elementary_hop_distance": draw(st.integers(10, 90)) / 20,
        "equilibration_passes": draw(st.integers(0, 2)),
        "kmc_passes": draw(st.integers(1, 6)),
        "random_seed": draw(st.integers(0, 2**32 - 1)),
        "property_sampling_interval": draw(st.integers(1, 5)),
    }
    spec["disabled"] = sorted(draw(st.sets(st.sampled_from(FIELDS), max_size=3)))
    spec["again"] = draw(st.integers(0, 2)) == 0
    return spec


def check_rows(w, spec, tracker, start_occ, start_time, hops, case):
    occ = list(start_occ)
    sites = [s for s in range(w.n) if w.mob_code[s] is not None and occ[s] == w.mob_code[s]]
    disp = np.zeros((len(sites), 3))
    counts = [0] * len(sites)
    cfg = spec["cfg"]
    volume = abs(np.linalg.det(w.matrix))
    rows, ambiguous, moving = 0, False, 0
    got = tracker.results
    for hop in hops:
        changed = moved_sites(occ, hop["occ"])
        src = next(s for s in changed if occ[s] == w.mob_code[s])
        dst = next(s for s in changed if hop["occ"][s] == w.mob_code[s])
        ion = sites.index(src)
        sites[ion] = dst
        counts[ion] += 1
        _, candidates = w.min_image(src, dst)
        ambiguous = ambiguous or len(candidates) > 1
        disp[ion] += candidates[0]
        occ = hop["occ"]
        if hop["step"] % cfg["property_sampling_interval"]:
            continue
        require(rows < len(got["time"]), "fewer summary rows than scheduled samples", rows=len(got["time"]))
        require(got["time"][rows] == hop["time"], "time of a summary row", got=got["time"][rows],
                want=hop["time"])
        want = definitions(disp, counts, hop["time"] - start_time, cfg["dimension"], cfg["elementary_hop_distance"],
                           volume, cfg["mobile_ion_charge"], spec["T"])
        collective = float(np.linalg.norm(disp.sum(axis=0)))
        tiny = 0 < collective < 1e-4 or (collective == 0 and np.any(disp))
        for name in FIELDS:
            value = float(got[name][rows])
            if name in spec["disabled"]:
                require(math.isnan(value), "a disabled quantity is not NaN", field=name, got=value)
                continue
            if ambiguous:
                require(name == "havens_ratio" or not math.isnan(value), "an enabled quantity is NaN", field=name)
                continue
            if tiny and name in ("jump_diffusivity", "conductivity", "havens_ratio"):
                continue  # collective displacement cancels: pure rounding noise
            require(close(value, want[name]), "a reported quantity differs from its definition", field=name,
                    got=value, want=want[name], row=rows, ions=len(sites), cfg=cfg)
        if not ambiguous and collective > 1e-3:
            moving += 1
        rows += 1
    require(len(got["time"]) == rows, "number of summary rows", got=len(got["time"]), want=rows)
    if rows:
        info = tracker.return_current_info()
        order = ["time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
                 "correlation_factor"]
        want = [float(got[k][-1]) for k in order]
        require(all((a == b) or (math.isnan(a) and math.isnan(b)) for a, b in zip(map(float, info), want)),
                "return_current_info differs from the last row", got=list(map(float, info)), want=want)
    case.nontrivial(moving >= 2)
    case.label("ambiguous_image", ambiguous)


def check_run(spec, case):
    w = World(spec)
    kmc, tracker, eq, prod = recorded_run(
        w, label="c05", builtin_property_enabled={name: False for name in spec["disabled"]}, **spec["cfg"])
    start = eq[-1]["occ"] if eq else list(spec["occ"])
    check_rows(w, spec, tracker, start, 0.0, prod, case)
    if spec["again"]:
        seen = len(kmc.model.hops)
        t0 = float(kmc.simulation_state.time)
        tracker = kmc.run(label="c05b")
        hops = kmc.model.hops[seen:]
        n_eq = spec["cfg"]["equilibration_passes"] * w.pass_length()
        start = hops[n_eq - 1]["occ"] if n_eq else prod[-1]["occ"]
        check_rows(w, spec, tracker, start, t0, hops[n_eq:], case)
        case.label("continued_run")


@st.composite
def tables(draw):
    n = draw(st.integers(0, 7))
    scale = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-5, 1e5]))
    num = st.integers(-4000, 4000).map(lambda x: x / 64 * scale)
    return {
        "disp": [[draw(num) for _ in range(3)] for _ in range(n)],
        "hops": [draw(st.one_of(st.just(0), st.integers(1, 300))) for _ in range(n)],
        "t": draw(st.sampled_from([0.0, 1e-9, 3.7e-6, 2.0, 1e4, 1e-18, 1e9, 1e17, 1e30])),
        "dim": draw(st.integers(1, 3)), "a": draw(st.integers(1, 200)) / 20,
        "volume": draw(st.integers(10, 90000)) / 10, "q": draw(st.sampled_from([1.0, -2.0, 3.0, 0.25])),
        "T": draw(st.integers(10, 4000)) / 2,
        "disabled": sorted(draw(st.sets(st.sampled_from(FIELDS), max_size=4))),
        "none": draw(st.booleans()),
    }


def check_table(spec, case):
    from kmcpy.simulator.property import compute_transport_properties

    enabled = {name: False for name in spec["disabled"]}
    if spec["none"] and not spec["disabled"]:
        enabled = None
    got = compute_transport_properties(
        np.array(spec["disp"], float).reshape(-1, 3), np.array(spec["hops"], dtype=np.int64),
        sim_time=spec["t"], dimension=spec["dim"], n_mobile_ion_specie=len(spec["disp"]),
        elementary_hop_distance=spec["a"], volume=spec["volume"], mobile_ion_charge=spec["q"],
        temperature=spec["T"], enabled=enabled)
    want = definitions(spec["disp"], spec["hops"], spec["t"], spec["dim"], spec["a"], spec["volume"], spec["q"],
                       spec["T"])
    for name in FIELDS:
        value = float(got[name])
        if name in spec["disabled"]:
            require(math.isnan(value), "a disabled quantity is not NaN", field=name, got=value)
        else:
            require(close(value, want[name]), "a quantity differs from its definition", field=name, got=value,
                    want=want[name])
    case.nontrivial(len(spec["disp"]) >= 2 and spec["t"] > 0 and any(any(d) for d in spec["disp"]))
    case.label("undefined", spec["t"] == 0 or not spec["disp"])


SUBS = [
    Sub("run", runs, check_run, quick=200, thorough=1800),
    Sub("table", tables, check_table, quick=600, thorough=8000),
]
