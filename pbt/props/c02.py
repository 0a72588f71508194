"""C02: selection probabilities, waiting times, stationary distribution."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, require
from worlds import RecordingModel, World, worlds

ID = "C02"
RULE = ("worlds run for >= 1500 hops; every hop is turned into a uniform number through the reference cumulative "
        "rates of the state it left (outcomes that coincide are lumped) and every waiting time into total rate x "
        "dt, which must be Exp(1); Kolmogorov-Smirnov and correlation bounds at false-alarm probability < 1e-10; "
        "non-trivial when at least 3 outcomes with unequal rates compete on average in some state, or when a "
        "downhill run got stuck after at least one hop")
ASSUMPTIONS = ["statistical: a deviation below the Kolmogorov-Smirnov resolution (about 0.1 per case at 1e-10, "
               "0.03 in the long runs) is not seen"]


def ks_distance(u):
    u = np.sort(np.asarray(u, float))
    n = len(u)
    return float(max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)))


def ks_limit(n, p=1e-10):
    # Dvoretzky-Kiefer-Wolfowitz with Massart's constant: P(D > d) <= 2 exp(-2 n d^2)
    return math.sqrt(math.log(2 / p) / (2 * n))


def corr_limit(n, p=1e-10):
    # Bernstein: products of centred uniforms have variance 1/144 and size at most 1/4.  Neighbouring
    # products share a factor, so count only every second one.
    log, n = math.log(4 / p), n / 2
    return math.sqrt(2 * log / (144 * n)) + log / (12 * n)


def require_uniform(u, what):
    d, lim = ks_distance(u), ks_limit(len(u))
    require(d <= lim, what, ks_distance=d, limit=lim, n=len(u))


def require_uncorrelated(x, y, what):
    n = len(x)
    m = float(np.mean((np.asarray(x) - 0.5) * (np.asarray(y) - 0.5)))
    require(abs(m) <= corr_limit(n), what, mean_product=m, limit=corr_limit(n), n=n)


class Outcomes:
    """Reference outcome distribution for every state, with coinciding results lumped."""

    def __init__(self, w):
        self.w = w
        self.cache = {}

    def of(self, occ):
        key = tuple(occ)
        if key not in self.cache:
            results = {}
            for rate, (i, j, env) in zip(self.w.rates(occ), self.w.events):
                if rate > 0:
                    after = tuple(self.w.hop(occ, i, j))
                    results[after] = results.get(after, 0.0) + float(rate)
            total = sum(results.values())
            table, acc = {}, 0.0
            for after, rate in results.items():
                table[after] = (acc / total, rate / total)
                acc += rate
            self.cache[key] = (table, total)
        return self.cache[key]


def uniforms(w, start, hops, rng):
    """(u for the selection, u for the waiting time, competing) of every hop."""
    outcomes = Outcomes(w)
    occ = list(start)
    time = None
    u_sel, u_dt, rich = [], [], 0
    for hop in hops:
        table, total = outcomes.of(occ)
        after = tuple(hop["occ"])
        require(after in table, "an event with zero rate was selected", before=occ, after=list(after))
        lo, p = table[after]
        u_sel.append(lo + p * rng.random())
        # skip waiting times the clock cannot resolve (decided from the rate, not from the outcome)
        if time is not None and time * 1e-13 < 1e-4 / total:
            dt = hop["time"] - time
            require(dt > 0 and math.isfinite(dt), "waiting time is not positive", dt=dt)
            u_dt.append(math.exp(-min(700.0, dt * total)))
        rates = sorted(p for _, p in table.values())
        rich += len(rates) >= 3 and rates[-1] > 1.2 * rates[0]
        occ, time = hop["occ"], hop["time"]
    return u_sel, u_dt, rich


@st.composite
def runs(draw):
    spec = draw(worlds(max_prim=3, max_cells=4, max_events=12, max_env=3, min_events=5, min_active=5))
    spec["T"] = draw(st.integers(400, 3000))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["eq"] = draw(st.sampled_from([0, 0, 1]))
    spec["hops"] = 1500
    return spec


@st.composite
def long_runs(draw):
    spec = draw(runs())
    spec["hops"] = 5000
    return spec


def check_run(spec, case):
    w = World(spec)
    length = w.pass_length()
    passes = math.ceil(spec["hops"] / length)
    model = RecordingModel(w)
    kmc = w.kmc(model=model, equilibration_passes=passes if spec["eq"] else 0, kmc_passes=passes,
                random_seed=spec["seed"], property_sampling_interval=10**9)
    kmc.run(label="c02")
    rng = np.random.default_rng(spec["seed"] ^ 0x5A5A)
    n_eq = passes * length if spec["eq"] else 0
    hops = model.hops
    rich = 0
    if n_eq:
        eq_sel, _, more = uniforms(w, spec["occ"], [dict(h, time=k + 1.0) for k, h in enumerate(hops[:n_eq])], rng)
        require_uniform(eq_sel, "equilibration hops are not selected in proportion to their rates")
        rich += more
    start = hops[n_eq - 1]["occ"] if n_eq else list(spec["occ"])
    u_sel, u_dt, more = uniforms(w, start, hops[n_eq:], rng)
    # the first waiting time is the first clock reading
    rich += more
    require_uniform(u_sel, "hops are not selected in proportion to their rates")
    case.label("all_times_resolved", len(u_dt) == len(u_sel) - 1)
    if len(u_dt) > 100:
        require_uniform(u_dt, "waiting times are not exponential with mean one over the total rate")
    m = len(u_dt)
    require_uncorrelated(u_sel[:-1], u_sel[1:], "successive selections are correlated")
    if m == len(u_sel) - 1:
        require_uncorrelated(u_sel[1:], u_dt, "selection and waiting time of a hop are correlated")
        require_uncorrelated(u_dt[:-1], u_dt[1:], "successive waiting times are correlated")
        require_uncorrelated(u_sel[:-1], u_dt, "a waiting time is correlated with the previous selection")
    case.nontrivial(rich >= 0.2 * len(hops))
    case.label("competing_outcomes", rich > 0)


@st.composite
def firsts(draw):
    spec = draw(worlds(max_prim=3, max_cells=4, max_events=16, max_env=3, min_events=6, min_active=5))
    spec["T"] = draw(st.integers(200, 4000))
    spec["seed"] = draw(st.integers(0, 2**31))
    return spec


def check_first(spec, case):
    """Many independent first hops from one state: exact multinomial comparison."""
    w = World(spec)
    table, total = Outcomes(w).of(spec["occ"])
    kmc = w.kmc()
    n = 1500
    counts = {}
    times = []
    back = {tuple(w.hop(spec["occ"], i, j)): None for i, j, _ in w.events
            if w.direction(spec["occ"], i, j) != 0}
    for k in range(n):
        if k == 0:
            kmc.rng = np.random.default_rng(spec["seed"])
        event, dt = kmc.propose(kmc.event_lib.events)
        i, j = (int(x) for x in event.mobile_ion_indices)
        require(w.direction(spec["occ"], i, j) != 0, "an impossible event was proposed", event=(i, j))
        after = tuple(w.hop(spec["occ"], i, j))
        require(after in table, "an event with zero rate was proposed", event=(i, j))
        counts[after] = counts.get(after, 0) + 1
        times.append(math.exp(-dt * total))
    for after, (_, p) in table.items():
        got = counts.get(after, 0)
        # Bernstein bound at 1e-10
        log = math.log(2e10)
        lim = math.sqrt(2 * n * p * (1 - p) * log) + 2 * log / 3
        require(abs(got - n * p) <= lim, "an event is not proposed in proportion to its rate", got=got,
                want=n * p, limit=lim, n=n)
    require_uniform(times, "waiting times are not exponential with mean one over the total rate")
    probs = sorted(p for _, p in table.values())
    case.nontrivial(len(probs) >= 3 and probs[-1] > 1.2 * probs[0])
    case.label("has_zero_rate_events", bool(np.any(w.rates(spec["occ"]) == 0)))


@st.composite
def stationary(draw):
    spec = draw(worlds(max_prim=2, max_cells=4, max_events=8, max_env=2, min_active=3))
    spec["T"] = draw(st.integers(1500, 5000))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    return spec


def check_stationary(spec, case):
    """Time-weighted occupation against the null vector of the reference rate matrix."""
    w = World(spec)
    outcomes = Outcomes(w)
    index, todo, edges = {tuple(spec["occ"]): 0}, [tuple(spec["occ"])], []
    while todo and len(index) <= 40:
        occ = todo.pop()
        table, total = outcomes.of(list(occ))
        for after, (_, p) in table.items():
            if after not in index:
                index[after] = len(index)
                todo.append(after)
            edges.append((index[occ], index[after], p * total))
    n = len(index)
    if n > 40 or n < 2:
        case.label("state_space_too_large", n > 40)
        return
    Q = np.zeros((n, n))
    for a, b, r in edges:
        Q[a, b] += r
        Q[a, a] -= r
    scale = np.abs(np.diag(Q)).max()
    A = np.vstack([Q.T / scale, np.ones(n)])
    pi = np.linalg.lstsq(A, np.append(np.zeros(n), 1.0), rcond=None)[0]
    # relaxation time of the chain, to size the tolerance
    eig = np.sort(np.real(np.linalg.eigvals(Q)))[::-1]
    if abs(eig[1]) < 1e-9 * scale:
        return  # several closed classes
    tau = 1.0 / abs(eig[1])
    passes = math.ceil(3000 / w.pass_length())
    model = RecordingModel(w)
    kmc = w.kmc(model=model, kmc_passes=passes, random_seed=spec["seed"], property_sampling_interval=10**9)
    kmc.run(label="c02s")
    spent = np.zeros(n)
    occ, time = tuple(spec["occ"]), 0.0
    for hop in model.hops:
        require(occ in index and tuple(hop["occ"]) in index, "a state outside the reachable set was visited")
        spent[index[occ]] += hop["time"] - time
        occ, time = tuple(hop["occ"]), hop["time"]
    if time < 50 * tau:
        case.label("too_slow")
        return
    got = spent / time
    # variance of a time average over T is at most 2 tau pi(1-pi) / T for a reversible chain; 10 sigma and more
    tol = 10 * np.sqrt(2 * tau * pi * (1 - pi) / time) * 1.5 + 0.03
    require(np.all(np.abs(got - pi) <= tol), "time-weighted occupation is not the stationary distribution",
            got=np.round(got, 4).tolist(), want=np.round(pi, 4).tolist(), tol=np.round(tol, 4).tolist())
    case.nontrivial(n >= 3 and float(tol.max()) < 0.4)


@st.composite
def ratchets(draw):
    spec = draw(worlds(max_prim=3, max_cells=4, max_events=12, max_env=3, min_active=4))
    spec["T"] = draw(st.integers(400, 3000))
    spec["seed"] = draw(st.integers(0, 2**32 - 1))
    spec["height"] = draw(st.lists(st.integers(0, 20), min_size=8, max_size=8))
    spec["eq"] = draw(st.sampled_from([0, 0, 3]))
    return spec


class Ratchet(World):
    """Ions only move to lower sites, so that sooner or later no event has a positive rate."""

    def rate(self, occ, pair, env, T, v):
        i, j = pair
        h = self.spec["height"]
        d = self.direction(occ, i, j)
        if d == 0 or (h[i % 8] - h[j % 8]) * d <= 0:
            return 0.0
        return super().rate(occ, pair, env, T, v)


def check_ratchet(spec, case):
    """No hop without a positive rate: a run that gets stuck ends (with an error or not), without further hops."""
    w = Ratchet(spec)
    model = RecordingModel(w)
    kmc = w.kmc(model=model, equilibration_passes=spec["eq"], kmc_passes=40, random_seed=spec["seed"])
    error = None
    try:
        kmc.run(label="c02r")
    except Exception as e:  # there is nothing left to select
        error = e
    occ = list(spec["occ"])
    for hop in model.hops:
        after = {tuple(w.hop(occ, i, j)) for rate, (i, j, _) in zip(w.rates(occ), w.events) if rate > 0}
        require(tuple(hop["occ"]) in after, "an event with zero rate was selected", before=occ, after=hop["occ"],
                stuck=not after)
        occ = hop["occ"]
    require([int(x) for x in kmc.simulation_state.occupations] == occ, "occupations changed without a hop")
    require(math.isfinite(float(kmc.simulation_state.time)), "the clock of a stuck run", time=kmc.simulation_state.time)
    stuck = not np.any(w.rates(occ) > 0)
    if error is not None and not stuck:
        raise error
    case.nontrivial(stuck and len(model.hops) >= 1)
    case.label("stuck", stuck)
    case.label("stuck_at_once", stuck and not model.hops)


SUBS = [
    Sub("stuck", ratchets, check_ratchet, quick=60, thorough=1500),
    Sub("trajectory", runs, check_run, quick=30, thorough=250),
    Sub("long_trajectory", long_runs, check_run, quick=3, thorough=40, shrink=False),
    Sub("proposals", firsts, check_first, quick=100, thorough=600),
    Sub("stationary", stationary, check_stationary, quick=14, thorough=150, shrink=False),
]
