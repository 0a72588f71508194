"""C26: every way of starting a simulation runs the same simulation."""
import argparse
import contextlib
import hashlib
import io
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import onfile
import worlds as W
from harness import Sub, require

ID = "C26"
RULE = ("Cases are small systems written to files, with a drawn run length, seed, sampling plan and configuration-file "
        "format, run through the command line, its function with single settings, the API and KMC.from_config; every "
        "result file is compared byte by byte. Non-trivial: at least two routes produced files of a run with ten or "
        "more hops.")
TECHNIQUE = ("property-based testing: differential runs of one generated simulation through every entry point, and "
             "generated configurations through the init template")
ASSUMPTIONS = ["the graphical front end is not exercised: gooey is not installed here"]


@st.composite
def cases(draw):
    spec = draw(W.worlds(max_events=8, max_cells=4, min_events=2))
    return {"world": spec, "format": draw(st.sampled_from(["json", "yaml", "yml", "section", "workflow"])),
            "run": {"random_seed": draw(st.integers(0, 2**40)), "kmc_passes": draw(st.integers(1, 6)),
                    "equilibration_passes": draw(st.integers(0, 3)),
                    "dimension": draw(st.integers(1, 3)), "mobile_ion_charge": draw(st.sampled_from([1.0, 2.0, -1.0])),
                    "elementary_hop_distance": draw(st.sampled_from([1.0, 2.75, 3.5])),
                    "name": draw(st.sampled_from(["w", "run_1", "T300"])),
                    **({"property_sampling_interval": draw(st.integers(1, 9))} if draw(st.booleans()) else {}),
                    **({"builtin_property_enabled": {"msd": False}} if draw(st.integers(0, 3)) == 0 else {}),
                    **({"property_callbacks": [{"callable": "sitefns:occupied", "interval": draw(st.integers(1, 4)),
                                                "name": "occ"}]} if draw(st.integers(0, 2)) == 0 else {})},
            "occ": draw(st.sampled_from(["inline", "state-file"])), "strings": draw(st.booleans()),
            "default_type": draw(st.booleans()), "label": draw(st.sampled_from([None, None, "other"]))}


class Capture:
    """Collects the trackers of the runs started by the code under test (they print, write files, return None)."""

    def __enter__(self):
        from kmcpy.simulator.kmc import KMC
        self.cls, self.original, self.trackers = KMC, KMC.run, []

        def run(kmc, *args, **kwargs):
            tracker = self.original(kmc, *args, **kwargs)
            self.trackers.append((tracker, kmc))
            return tracker
        KMC.run = run
        return self

    def __exit__(self, *exc):
        self.cls.run = self.original


def inside(folder, action):
    """Run `action` with a fresh working directory; returns (files written, printed text)."""
    os.makedirs(folder)
    before, argv = os.getcwd(), sys.argv
    os.chdir(folder)
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            action()
    finally:
        os.chdir(before)
        sys.argv = argv
    return {n: content(os.path.join(folder, n)) for n in sorted(os.listdir(folder))}, text.getvalue()


def content(path):
    import gzip
    with open(path, "rb") as fh:
        raw = fh.read()
    if raw[:2] == b"\x1f\x8b":  # the gzip header holds a time stamp
        raw = gzip.decompress(raw)
    return hashlib.sha256(raw).hexdigest()


def summary(tracker, kmc):
    return json.dumps([{k: [repr(x) for x in v] for k, v in tracker.results.items()},
                       np.asarray(tracker.displacement).tolist(), np.asarray(tracker.hop_counter).tolist(),
                       [int(x) for x in kmc.simulation_state.occupations], repr(kmc.simulation_state.time),
                       kmc.simulation_state.step])


def settings_of(spec, case):
    world = onfile.as_loaded(spec["world"])
    files = onfile.Files(world, case.tmp())
    settings = {**files.settings, **spec["run"]}
    if not spec["default_type"]:
        settings.pop("model_type")
    if spec["occ"] == "state-file":
        settings["initial_occupations"] = None
        settings["initial_state_file"] = os.path.join(files.folder, "state.json")
        with open(settings["initial_state_file"], "w") as fh:
            json.dump({"occupation": list(world["occ"])}, fh)
    return world, files, settings


def config_file(spec, settings, folder):
    """The configuration as a user would write it (not through kMCpy's own writer)."""
    import yaml
    plain = json.loads(json.dumps(settings))
    if spec["format"] == "json":
        path = os.path.join(folder, "input.json")
        with open(path, "w") as fh:
            json.dump(plain, fh)
        return path
    body = plain
    if spec["format"] == "section":
        body = {"kmc": plain}
    elif spec["format"] == "workflow":
        body = {"generate_event": {"type": "x", "x": {"a": 1}}, "kmc": {"type": "default", "default": plain}}
    path = os.path.join(folder, "input." + ("yml" if spec["format"] == "yml" else "yaml"))
    with open(path, "w") as fh:
        yaml.safe_dump(body, fh)
    return path


def check_routes(spec, case):
    import kmcpy
    from kmcpy import api
    from kmcpy.cli import run_kmc
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC

    world, files, settings = settings_of(spec, case)
    path = config_file(spec, settings, files.folder)
    base = case.tmp()
    w = files.world
    runs = {}

    def go(name, action):
        with Capture() as cap:
            written, _ = inside(os.path.join(base, name), action)
        require(len(cap.trackers) == 1, "a route did not run exactly one simulation", route=name)
        runs[name] = (written, summary(*cap.trackers[0]))
        return cap.trackers[0][1]

    def cli():
        sys.argv = ["run_kmc", "--input", path]
        run_kmc.main()

    def single():
        given = dict(settings)
        if spec["strings"]:
            given["supercell_shape"] = str(list(given["supercell_shape"]))
            given["site_mapping"] = str(given["site_mapping"])
        run_kmc.run_kmc(argparse.Namespace(input=None, **given))

    # the reference: an in-memory configuration
    kmc = go("memory", lambda: KMC.from_config(Configuration(**settings)).run())
    want = {"temperature": world["T"], "attempt_frequency": world["v"], **spec["run"]}
    for key, value in want.items():
        if key != "property_callbacks":
            require(getattr(kmc.config, key) == value, "a setting was changed", setting=key, got=getattr(kmc.config, key))
    hops = (spec["run"]["kmc_passes"] + spec["run"]["equilibration_passes"]) * w.pass_length()
    require(kmc.simulation_state.step == hops, "wrong number of hops", got=kmc.simulation_state.step, want=hops)
    go("command-line", cli)
    go("single-settings", single)
    go("api-file", lambda: api.run(Configuration.from_file(path)))
    go("api-memory", lambda: kmcpy.run(Configuration(**settings)) if hasattr(kmcpy, "run") else
       api.run(Configuration(**settings)))
    own = os.path.join(files.folder, "own.yaml")
    Configuration(**settings).to(own, include_loader_paths=True)
    go("own-file", lambda: run_kmc.run_kmc(argparse.Namespace(input=own)))
    first = runs["memory"]
    require(first[0], "the run wrote no result files")
    for name, (written, result) in runs.items():
        require(result == first[1], "another route gave another simulation", route=name)
        require(sorted(written) == sorted(first[0]), "another route wrote other files", route=name,
                got=sorted(written), want=sorted(first[0]))
        for f in written:
            require(written[f] == first[0][f], "another route wrote other contents", route=name, file=f)
    if spec["label"]:
        go("label", lambda: api.run(Configuration(**settings), label=spec["label"]))
        require(runs["label"][1] == first[1], "a label changed the simulation")
        require(sorted(runs["label"][0].values()) == sorted(first[0].values()), "a label changed the results")
        require(all(spec["label"] in f for f in runs["label"][0]), "the label is not in the file names",
                got=sorted(runs["label"][0]))
    for bad in (None, {}, path):
        try:
            api.run(bad)
        except TypeError:
            continue
        require(False, "api.run accepted something that is not a configuration")
    case.label("format " + spec["format"])
    case.nontrivial(hops >= 10)


# ------------------------------------------------------------------------------ real process
def check_process(spec, case):
    """The installed command in its own process."""
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC

    world, files, settings = settings_of(spec, case)
    path = config_file(spec, settings, files.folder)
    base = case.tmp()
    want, _ = inside(os.path.join(base, "memory"), lambda: KMC.from_config(Configuration(**settings)).run())
    os.makedirs(os.path.join(base, "process"))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(["/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]))
    done = subprocess.run([sys.executable, "-W", "ignore", "-m", "kmcpy.cli.run_kmc", "--input", path], env=env,
                          cwd=os.path.join(base, "process"), capture_output=True, text=True)
    require(done.returncode == 0, "the command failed", output=(done.stdout + done.stderr)[-600:])
    got = {n: content(os.path.join(base, "process", n)) for n in sorted(os.listdir(os.path.join(base, "process")))}
    require(got == want, "the command wrote other results", got=sorted(got), want=sorted(want))
    case.nontrivial()


# --------------------------------------------------------------------------- the init template
@st.composite
def template_cases(draw):
    spec = draw(cases())
    return {"run": spec, "folder": draw(st.sampled_from(["", "a", "a/b c"])),
            "name": draw(st.sampled_from(["input.yaml", "x.yml", None])), "existing": draw(st.booleans()),
            "force": draw(st.booleans())}


def check_template(spec, case):
    """`kmcpy init` writes a loadable file with the documented defaults that can be filled in and run."""
    import dataclasses
    import yaml
    from kmcpy.cli import init, main
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC

    home = case.tmp()
    target = os.path.join(home, spec["folder"], spec["name"] or init.DEFAULT_TEMPLATE_FILENAME)
    shown = os.path.relpath(target, home)
    os.makedirs(os.path.dirname(target), exist_ok=True) if spec["existing"] else None
    if spec["existing"]:
        with open(target, "w") as fh:
            fh.write("mine: 1\n")
    argv = ["init"] + (["-o", shown] if spec["name"] or spec["folder"] else []) + (["--force"] if spec["force"] else [])
    before = os.getcwd()
    os.chdir(home)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                code = main.main(argv)
            except FileExistsError:
                code = "exists"
    finally:
        os.chdir(before)
    if spec["existing"] and not spec["force"]:
        require(code == "exists" and open(target).read() == "mine: 1\n", "init overwrote an existing file without --force")
        return
    require(code == 0, "init failed", code=code)
    fresh = Configuration.from_file(target)
    with open(target) as fh:
        data = yaml.safe_load(fh)
    section = data["kmc"]["default"]
    names = {f.name for cls in (type(fresh.system_config), type(fresh.runtime_config)) for f in dataclasses.fields(cls)}
    for key in names & set(section):
        got, text = getattr(fresh, key), section[key]
        require(json.loads(json.dumps(got, default=list)) == text, "a template value is loaded differently", setting=key,
                got=got, want=text)
    default = Configuration(**{k: section[k] for k in ("structure_file", "event_file", "model_file")})
    for key in ("dimension", "temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed",
                "convert_to_primitive_cell", "property_sampling_interval", "property_sampling_time_interval"):
        require(key in section, "a setting is missing from the template", setting=key)
        require(section[key] == getattr(default, key), "the template value is not the default", setting=key,
                got=section[key], want=getattr(default, key))

    # fill it in and run it
    world, files, settings = settings_of(spec["run"], case)
    data["kmc"]["default"].update(json.loads(json.dumps(settings)))
    with open(target, "w") as fh:
        yaml.safe_dump(data, fh)
    want, _ = inside(os.path.join(case.tmp(), "m"), lambda: KMC.from_config(Configuration(**settings)).run())
    got, _ = inside(os.path.join(case.tmp(), "t"), lambda: KMC.from_config(Configuration.from_file(target)).run())
    require(got == want, "the filled-in template runs another simulation")
    case.nontrivial()


# ------------------------------------------------------------------------------ parsing settings
@st.composite
def parse_cases(draw):
    shape = draw(st.lists(st.integers(1, 12), min_size=3, max_size=3))
    mapping = draw(st.dictionaries(st.sampled_from(["Na", "Si", "O", "Zr"]), st.one_of(
        st.lists(st.sampled_from(["Na", "X", "Si", "P"]), min_size=1, max_size=3, unique=True),
        st.sampled_from(["O", "Zr"])), min_size=1, max_size=3))
    return {"shape": shape, "mapping": mapping, "style": draw(st.integers(0, 4)),
            "T": draw(st.one_of(st.none(), st.integers(1, 2000), st.floats(0.01, 3000.0))), "v": draw(st.one_of(st.none(), st.sampled_from(["1e12", "5e13"]))),
            "primitive": draw(st.booleans()),
            "bad": draw(st.sampled_from([None, "shape-2", "shape-4", "shape-word", "mapping-list", "mapping-word",
                                         "shape-sign", "shape-zero", "T-zero", "T-sign", "T-word", "v-zero", "v-word"]))}


def check_parse(spec, case):
    """Command-line arguments become exactly the settings they name."""
    from kmcpy.cli import run_kmc
    from kmcpy.simulator.kmc import KMC

    s = spec["shape"]
    shape = [str(s), str(tuple(s)), ",".join(map(str, s)), ", ".join(map(str, s)), f"[{s[0]},{s[1]},{s[2]}]"][spec["style"]]
    mapping = json.dumps(spec["mapping"]) if spec["style"] % 2 else str(spec["mapping"])
    bad = spec["bad"]
    if bad == "shape-2":
        shape = str(s[:2])
    elif bad == "shape-4":
        shape = str(s + [1])
    elif bad == "shape-word":
        shape = "a,b,c"
    elif bad == "mapping-list":
        mapping = "['Na']"
    elif bad == "mapping-word":
        mapping = "Na"
    elif bad in ("shape-sign", "shape-zero"):
        shape = str(s[:2] + [-s[2] if bad == "shape-sign" else 0])
    wrong = {"zero": "0", "sign": "-300", "word": "hot"}
    argv = ["run_kmc", "--supercell_shape", shape, "--site_mapping", mapping, "--structure_file", "s.cif",
            "--model_file", "m.json", "--event_file", "e.json"]
    if bad and bad.startswith("T-"):
        argv += ["--temperature=" + wrong[bad[2:]]]
    elif spec["T"]:
        argv += ["--temperature", str(spec["T"])]
    if bad and bad.startswith("v-"):
        argv += ["--attempt_frequency=" + wrong[bad[2:]]]
    elif spec["v"]:
        argv += ["--attempt_frequency", spec["v"]]
    if spec["primitive"]:
        argv += ["--convert_to_primitive_cell"]
    seen = []

    class Stop(Exception):
        pass

    def recorder(cls, config, *args, **kwargs):
        seen.append(config)
        raise Stop

    original, old = KMC.__dict__["from_config"], sys.argv
    KMC.from_config, sys.argv = classmethod(recorder), argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run_kmc.main()
    except Stop:
        pass
    except (SystemExit, ValueError):
        require(bad is not None, "valid arguments were refused", argv=argv)
        case.nontrivial()
        return
    finally:
        KMC.from_config, sys.argv = original, old
    require(bad is None, "malformed arguments were accepted", argv=argv)
    config = seen[0]
    want = {"supercell_shape": tuple(s), "site_mapping": spec["mapping"], "structure_file": "s.cif", "model_file": "m.json",
            "event_file": "e.json", "temperature": float(spec["T"] or 300), "attempt_frequency": float(spec["v"] or 1e13),
            "convert_to_primitive_cell": spec["primitive"]}
    for key, value in want.items():
        got = getattr(config, key)
        require((tuple(got) if key == "supercell_shape" else got) == value, "an argument became another setting", setting=key,
                got=got, want=value)
    case.nontrivial()


SUBS = [Sub("routes", cases, check_routes, quick=60, thorough=600, budget=60),
        Sub("template", template_cases, check_template, quick=30, thorough=300, budget=30),
        Sub("arguments", parse_cases, check_parse, quick=200, thorough=3000, budget=20),
        Sub("process", cases, check_process, quick=3, thorough=15, budget=60, shrink=False)]
