"""C20: fitting returns the regularized least-squares optimum and honest diagnostics."""
import json
import math
import os

import numpy as np
from hypothesis import assume, strategies as st

import lce as L
from harness import Sub, require
from props.c09 import build_model, cases as lce_cases, decorated, event_and_occupation, prepare

ID = "C20"
RULE = ("generated correlation matrices (1-7 features, 2-14 samples, duplicated, constant and collinear columns), "
        "energies, sample weights (zeros included), penalties and both scalings, written to files and fitted; and "
        "generated cluster expansions with decorated structures taken through NEBDataLoader, write_fitting_inputs, "
        "fit and back into the model; non-trivial when some coefficient is non-zero")
ASSUMPTIONS = ["the solver may stop at scikit-learn's default duality-gap tolerance (1e-4 of the weighted variance)",
               "sklearn.linear_model.Lasso with the same settings is the reference for the leave-one-out fits only"]


@st.composite
def problems(draw, max_fits=1):
    m = draw(st.integers(3, 14))
    n = draw(st.integers(1, 7))
    cells = st.integers(-20, 20)
    x = [[draw(cells) / 4 for _ in range(n)] for _ in range(m)]
    for c in range(n):
        kind = draw(st.integers(0, 7))
        if kind == 0:
            for r in x:
                r[c] = 1.5
        elif kind == 1 and c:
            for r in x:
                r[c] = r[0]
        elif kind == 2:
            for r in x:
                r[c] *= 40
    coef = [draw(cells) for _ in range(n)]
    y = [round(sum(a * b for a, b in zip(r, coef)) * 0.7 + draw(cells) / 3 + 250, 6) for r in x]
    w = draw(st.sampled_from(["equal", "varied", "varied", "scaled", "zeros"]))
    weights = {"equal": [1.0] * m, "varied": [draw(st.sampled_from([0.1, 0.5, 1.0, 3.0, 10.0])) for _ in range(m)],
               "scaled": [7.5] * m,
               "zeros": [draw(st.sampled_from([0.0, 1.0, 4.0])) for _ in range(m)]}[w]
    if sum(weights) == 0:
        weights[0] = 1.0
    return {"x": x, "y": y, "w": weights, "alpha": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 5.0, 30.0, 1e6])),
            "normalize": draw(st.booleans())}


def lasso(x, y, w, alpha, scale, sweeps=6000):
    """Reference solver: cyclic coordinate descent on the weighted problem, intercept eliminated exactly."""
    w = np.asarray(w, float) * len(y) / np.sum(w)
    n = len(y)
    xo, yo = np.average(x, axis=0, weights=w), np.average(y, weights=w)
    xc, yc = (x - xo), (y - yo)
    beta = np.zeros(x.shape[1])
    res = yc.copy()
    norms = (w[:, None] * xc**2).sum(0) / n
    for _ in range(sweeps):
        worst = 0.0
        for k in range(len(beta)):
            if norms[k] < 1e-14:
                continue
            rho = (w * xc[:, k] * res).sum() / n + norms[k] * beta[k]
            new = math.copysign(max(abs(rho) - alpha * scale[k], 0.0), rho) / norms[k]
            if new != beta[k]:
                res -= xc[:, k] * (new - beta[k])
                worst = max(worst, abs(new - beta[k]) * math.sqrt(norms[k]))
                beta[k] = new
        if worst < 1e-11:
            break
    return beta, yo - xo @ beta


def objective(x, y, w, alpha, scale, beta, const):
    w = np.asarray(w, float) * len(y) / np.sum(w)
    return float((w * (y - x @ beta - const) ** 2).sum() / (2 * len(y)) + alpha * np.abs(beta * scale).sum())


def feature_scale(x, w, normalize):
    if not normalize:
        return np.ones(x.shape[1])
    s = np.sqrt(((x - np.average(x, axis=0, weights=w)) ** 2).sum(0))
    s[s <= 1e-12 * np.maximum(1.0, np.abs(x).max(0))] = 1.0
    return s


def judge(p, x, y, w, alpha, normalize, y_pred, y_true, case):
    keci, const = np.array(p.keci, float), float(p.empty_cluster)
    n = len(y)
    require(keci.shape == (x.shape[1],), "number of coefficients", got=keci.shape, want=x.shape[1])
    require(np.array_equal(np.asarray(y_true, float), y), "returned energies are not the input energies")
    scale_y = 1.0 + float(np.max(np.abs(y)))
    require(np.allclose(y_pred, x @ keci + const, rtol=1e-9, atol=1e-9 * scale_y),
            "predictions differ from constant plus correlation times coefficients", got=list(map(float, y_pred)))
    wn = np.asarray(w, float) * n / np.sum(w)
    bias = float(np.average(y - x @ keci - const, weights=w))
    require(abs(bias) < 1e-8 * scale_y, "constant is not optimal for the coefficients", mean_residual=bias)
    s = feature_scale(x, w, normalize)
    best, best_const = lasso(x, y, w, alpha, s)
    p_best = objective(x, y, w, alpha, s, best, best_const)
    p_got = objective(x, y, w, alpha, s, keci, const)
    spread = float((wn * (y - np.average(y, weights=w)) ** 2).sum()) / n
    require(p_got <= p_best + 1.5e-4 * spread + 1e-9, "coefficients are not the optimum of the regularized problem",
            objective=p_got, optimum=p_best, keci=keci.tolist(), reference=best.tolist())
    # redundant columns have no unique coefficients, but the gap bounds the distance of the predictions
    away = float((wn * ((x @ keci + const) - (x @ best + best_const)) ** 2).sum()) / n
    require(away <= 4e-4 * spread + 1e-9, "predictions away from the optimum", mean_square=away, spread=spread)
    rmse = math.sqrt(float(np.mean((y - (x @ keci + const)) ** 2)))
    require(abs(p.rmse - rmse) <= 1e-9 * scale_y, "reported RMSE", got=p.rmse, want=rmse)
    want = loocv(x, y, alpha, normalize)
    require(abs(p.loocv - want) <= 1e-3 * (want + math.sqrt(spread)) + 1e-9, "reported leave-one-out error",
            got=p.loocv, want=want)
    case.nontrivial(bool(np.any(np.abs(keci) > 1e-9)))
    case.label("all zero", not np.any(keci))


def loocv(x, y, alpha, normalize):
    from sklearn.linear_model import Lasso

    errors = []
    for k in range(len(y)):
        keep = [i for i in range(len(y)) if i != k]
        xt, yt = x[keep], y[keep]
        xo, yo = xt.mean(0), yt.mean()
        s = feature_scale(xt, np.ones(len(yt)), normalize)
        fit = Lasso(alpha=alpha, max_iter=1000000, fit_intercept=False).fit((xt - xo) / s, yt - yo)
        beta = fit.coef_ / s
        errors.append((y[k] - (yo + (x[k] - xo) @ beta)) ** 2)
    return math.sqrt(sum(errors) / len(errors))


def same_record(back, p, what, rtol=0.0, atol=0.0):
    for key in ("keci", "empty_cluster", "weight", "alpha", "rmse", "loocv", "normalize", "orbit_fingerprints",
                "local_environment_hash"):
        a, b = getattr(back, key), getattr(p, key)
        if rtol == 0.0 or not isinstance(b, (float, list)) or key == "orbit_fingerprints":
            require(a == b, what + ": " + key, got=a, want=b)
        else:
            a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
            require(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol), what + ": " + key,
                    got=a.tolist(), want=b.tolist())


def write(folder, k, spec):
    names = {"corr_fname": f"{folder}/c{k}.txt", "ekra_fname": f"{folder}/e{k}.txt", "weight_fname": f"{folder}/w{k}.txt"}
    np.savetxt(names["corr_fname"], np.array(spec["x"]), fmt="%.18e")
    np.savetxt(names["ekra_fname"], np.array(spec["y"]), fmt="%.18e")
    np.savetxt(names["weight_fname"], np.array(spec["w"]), fmt="%.18e")
    return names


def check_fit(spec, case):
    from kmcpy.models import LCEFitter
    from kmcpy.models.parameters import LCEModelParameters

    folder = case.tmp()
    x, y, w = np.array(spec["x"], float), np.array(spec["y"], float), np.array(spec["w"], float)
    fitter = LCEFitter()
    p, y_pred, y_true = fitter.fit(
        alpha=spec["alpha"], normalize=spec["normalize"], keci_fname=folder + "/keci.txt",
        lce_params_fname=folder + "/p.json", lce_params_history_fname=folder + "/h.json", **write(folder, 0, spec))
    require(p.alpha == spec["alpha"] and p.normalize == spec["normalize"] and list(p.weight) == spec["w"],
            "recorded fit settings", alpha=p.alpha, normalize=p.normalize, weight=p.weight)
    judge(p, x, y, w, spec["alpha"], spec["normalize"], y_pred, y_true, case)
    same_record(LCEModelParameters.from_file(folder + "/p.json"), p, "stored parameters")
    kecis = np.loadtxt(folder + "/keci.txt", ndmin=1)
    require(kecis.shape == (len(p.keci),) and np.allclose(kecis, p.keci, rtol=0, atol=6e-9), "keci.txt",
            got=kecis.tolist(), want=p.keci)
    require(fitter.model_parameters is p or fitter.model_parameters == p, "fitter keeps other parameters")


@st.composite
def sequences(draw):
    n = draw(st.integers(1, 5))
    return {"fits": [draw(problems()) for _ in range(n)], "legacy": draw(st.booleans()),
            "marks": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "history": draw(st.sampled_from(["h.json", "h.json", "h.yaml"]))}


def check_history(spec, case):
    from kmcpy.models import LCEFitter
    from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters

    folder = case.tmp()
    made = []
    for k, one in enumerate(spec["fits"]):
        extra = {}
        if spec["marks"][k]:
            extra = {"orbit_fingerprints": [f"orbit-{k}-{c}" for c in range(len(one["x"][0]))],
                     "local_environment_hash": f"hash{k}"}
        if spec["legacy"]:
            extra["fit_results_fname"] = folder + "/results.json"
        p, _, _ = LCEFitter().fit(
            alpha=one["alpha"], normalize=one["normalize"], keci_fname=folder + "/keci.txt",
            lce_params_fname=folder + "/p.json", lce_params_history_fname=folder + "/" + spec["history"],
            **write(folder, k, one), **extra)
        made.append(p)
        back = LCEModelParamHistory.from_file(folder + "/" + spec["history"])
        require(len(back.history) == len(made), "number of records in the parameter history", got=len(back.history),
                want=len(made))
        for a, b in zip(back.history, made):
            # YAML: ruamel may change the last digit of a number when the file is read and written again
            same_record(a, b, "parameter history", rtol=0.0 if spec["history"].endswith("json") else 1e-12)
        same_record(LCEModelParameters.from_file(folder + "/p.json"), p, "stored parameters")
        if spec["legacy"]:
            same_record(LCEFitter.from_file(folder + "/results.json").model_parameters, p, "fit-results table",
                        rtol=1e-9, atol=1e-9)
            with open(folder + "/results.json") as fh:
                table = json.load(fh)
            require(sorted(int(r) for r in table) == list(range(len(made))), "rows of the fit-results table",
                    got=sorted(table))
            for r, b in enumerate(made):
                require(np.allclose(table[str(r)]["keci"], b.keci, rtol=1e-9, atol=1e-9), "an earlier row changed",
                        row=r)
    fitter = LCEFitter()
    fitter.model_parameters = made[-1]
    fitter.to(folder + "/f.json")
    same_record(LCEFitter.from_file(folder + "/f.json").model_parameters, made[-1], "saved fitter")
    case.nontrivial(len(made) >= 2)


@st.composite
def pipelines(draw):
    spec = draw(lce_cases())
    m = draw(st.integers(3, 8))
    spec["many"] = [draw(st.lists(st.integers(0, 5), min_size=4, max_size=8)) for _ in range(m)]
    spec["props"] = [draw(st.integers(-4000, 9000)) / 7 for _ in range(m)]
    spec["weights"] = draw(st.one_of(st.sampled_from([1.0, 2]), st.lists(st.sampled_from([0.5, 1.0, 4.0]), min_size=m,
                                                                         max_size=m)))
    spec["alpha"] = draw(st.sampled_from([0.01, 0.5, 3.0]))
    spec["normalize"] = draw(st.booleans())
    spec["relaxed"] = draw(st.sampled_from([0.0, 0.0, 0.03]))
    spec["how"] = draw(st.sampled_from(["from_structures", "add_structure", "add", "files", "call-model", "reloaded",
                                         "reloaded-call", "override"]))
    return spec


def check_pipeline(spec, case):
    from kmcpy.io.neb import NEBDataLoader, NEBEntry
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
    from kmcpy.models.parameters import LCEModelParameters
    from kmcpy.simulator.state import State

    env = prepare(spec)
    lls = env.build()
    geo = L.Geometry([s.species_string for s in lls.structure], [s.coords for s in lls.structure])
    assume(not geo.ambiguous())
    model = build_model(env, lls, [geo.cutoff(r) for r in spec["cuts"]])
    indices = [int(i) for i in lls.site_indices]
    counts = [len(env.allowed(k)) for k in indices]
    feats = L.features([[tuple(int(i) for i in c.site_indices) for c in o.clusters] for o in model.orbits], counts)
    assume(feats)
    folder = case.tmp()
    prims, structures = [], []
    for states in spec["many"]:
        prims.append([states[k % len(states)] % len(env.allowed(k)) for k in range(len(env.active))])
        s = decorated(spec, env, prims[-1], states)
        assume(len(s))
        if spec["relaxed"]:
            # relaxed positions need a larger tolerance than the default
            s.translate_sites([states[-1] % len(s)], [spec["relaxed"], 0, 0], frac_coords=False)
        structures.append(s)
    loose = {"tol": 0.05} if spec["relaxed"] else {}
    if spec["how"] == "files":
        paths = []
        for k, s in enumerate(structures):
            paths.append(f"{folder}/s{k}.json")
            s.to(filename=paths[-1])
        loader = NEBDataLoader.from_structures(paths, spec["props"], model=model, **loose)
        require([e.metadata.get("structure_file") for e in loader.neb_entries] == paths, "source files of the entries")
    elif spec["how"] == "from_structures":
        loader = NEBDataLoader.from_structures(structures, spec["props"], model=model,
                                               metadata=[{"k": k} for k in range(len(structures))], **loose)
    elif spec["how"] in ("call-model", "reloaded", "reloaded-call", "override"):
        meta = [{"k": k} for k in range(len(structures))]
        if spec["how"] == "call-model":
            loader = NEBDataLoader()
            loader.add_structures(structures, spec["props"], model=model, metadata=meta, **loose)
        elif spec["how"] == "override":
            # the loader's model has no coefficients in common with the one given with the structures
            other = build_model(env, lls, [10.0, 0.0, 0.0])
            loader = NEBDataLoader(model=other)
            loader.add_structures(structures, spec["props"], model=model, metadata=meta, **loose)
        else:
            # a model read from a file does not know its lattice: it is handed over separately
            model.to(folder + "/first.json")
            bare = LocalClusterExpansion.from_file(folder + "/first.json")
            alone = NEBDataLoader(model=bare)
            try:
                alone.add_structure(structures[0], spec["props"][0])
                require(False, "a structure was mapped without any reference lattice")
            except ValueError:
                require(len(alone) == 0, "a refused structure was kept")
            if spec["how"] == "reloaded":
                loader = NEBDataLoader(model=bare, reference_local_lattice_structure=lls)
                loader.add_structures(structures, spec["props"], metadata=meta, **loose)
            else:
                loader = NEBDataLoader(model=bare)
                loader.add_structures(structures, spec["props"], metadata=meta,
                                      reference_local_lattice_structure=lls, **loose)
    else:
        loader = NEBDataLoader(model=model)
        for k, (s, v) in enumerate(zip(structures, spec["props"])):
            if spec["how"] == "add":
                loader.add(NEBEntry.from_structure(s, v, metadata={"k": k}), **loose)
            else:
                loader.add_structure(s, v, metadata={"k": k}, **loose)
    require(len(loader) == len(structures), "number of entries")
    if spec["how"] != "files":
        require([e.metadata.get("k") for e in loader.neb_entries] == list(range(len(structures))),
                "metadata of the entries", got=[e.metadata for e in loader.neb_entries])
    for what, call in (
            ("fewer values than structures", lambda: loader.add_structures(structures, spec["props"][:-1])),
            ("fewer metadata than structures", lambda: loader.add_structures(
                structures, spec["props"], metadata=[{}] * (len(structures) - 1))),
            ("weights of another length", lambda: loader.write_fitting_inputs(
                folder + "/no", weight=[1.0] * (len(structures) - 1))),
            ("one weight in a list", lambda: loader.write_fitting_inputs(folder + "/no", weight=[2.0]))):
        try:
            call()
        except ValueError:
            require(len(loader) == len(structures), "a refused call changed the data set: " + what)
        else:
            require(False, "accepted: " + what)
    want = np.array([L.correlations(feats, counts, [prim[k] for k in indices], spec) for prim in prims])
    x = loader.get_correlation_matrix()
    require(x.shape == want.shape and np.allclose(x, want, rtol=1e-9, atol=1e-9), "correlation matrix")
    require([list(map(int, r)) for r in loader.get_occupation_matrix()] == [L.codes(p, spec) for p in prims],
            "occupation matrix")
    require(loader.get_properties().tolist() == spec["props"], "energies of the entries")
    path = loader.to(folder + "/out", prefix="mine")
    require(os.path.samefile(path, folder + "/out/mine.json"), "name of the data file", got=path)
    with open(path) as fh:
        saved = json.load(fh)
    require(saved["correlation_matrix"] == x.tolist() and saved["properties"] == spec["props"]
            and saved["occupation_matrix"] == [L.codes(p, spec) for p in prims] and saved["n_structures"] == len(prims), "saved training data")
    names = loader.write_fitting_inputs(folder + "/in", weight=spec["weights"])
    w = np.array(spec["weights"], float) if isinstance(spec["weights"], list) else np.full(len(prims),
                                                                                         float(spec["weights"]))
    p, y_pred, y_true = model.fit(
        alpha=spec["alpha"], normalize=spec["normalize"], keci_fname=folder + "/keci.txt",
        lce_params_fname=folder + "/p.json", lce_params_history_fname=folder + "/h.json", **names)
    judge(p, x, np.array(spec["props"]), w, spec["alpha"], spec["normalize"], y_pred, y_true, case)
    require(p.orbit_fingerprints == list(model.get_orbit_fingerprints())
            and p.local_environment_hash == model.local_environment_hash, "fitted parameters name another model")
    model.to(folder + "/m.json")
    loaded = LocalClusterExpansion.from_file(folder + "/m.json")
    loaded.load_parameters_from_file(folder + "/p.json")
    model.set_parameters(p)
    same_record(LCEModelParameters.from_file(folder + "/p.json"), p, "stored parameters")
    for k, prim in enumerate(prims):
        # an event whose environment carries the states of training structure k
        event, occ, local, _, _ = event_and_occupation(spec, env, counts, indices, spec["many"][k])
        if len(set(local)) < len(local):
            clash = {}
            if any(clash.setdefault(s, prim[a]) != prim[a] for s, a in zip(local, indices)):
                continue
        for s, a in zip(local, indices):
            occ[s] = prim[a]
        for name, one in (("model", model), ("reloaded model", loaded)):
            got = float(one.compute(simulation_state=State(occupations=list(occ)), event=event))
            require(abs(got - y_pred[k]) <= 1e-8 * (1 + abs(float(y_pred[k]))),
                    f"the {name} with the fitted parameters does not reproduce the prediction", got=got,
                    want=float(y_pred[k]))
        case.label("simulated prediction")


SUBS = [
    Sub("lasso", problems, check_fit, quick=200, thorough=4000, budget=90),
    Sub("history", sequences, check_history, quick=50, thorough=600, budget=60),
    Sub("pipeline", pipelines, check_pipeline, quick=80, thorough=1200, budget=100),
]
