"""C24: site basis tables and the Occupation container."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import Sub, require

ID = "C24"
RULE = ("number of states 2-12; occupation vectors of 0-12 sites in the Chebyshev (2-5 states), occupation and a "
        "registered user basis, under sequences of up to 14 container operations (get, slice, fancy get, set, set "
        "slice, invalid set, flip, in-place flip, copy, basis conversion, compare) mirrored on a plain list; "
        "non-trivial when a vector of at least three sites went through at least one modifying operation")


def table_cases():
    return st.fixed_dictionaries({
        "n": st.integers(2, 12), "values": st.lists(st.integers(-1000, 1000), min_size=12, max_size=12)})


def check_table(spec, case):
    from kmcpy.structure.basis import BasisFunction, ChebyshevBasis, OccupationBasis, get_basis

    n = spec["n"]
    basis = ChebyshevBasis(max_states=n)
    table = np.array(basis.site_basis_values(n), float)
    require(table.shape == (n, n - 1), "shape of the basis table", got=list(table.shape), n=n)
    require(basis.num_site_basis_functions(n) == n - 1, "number of site functions", got=basis.num_site_basis_functions(n))
    for state in range(n):
        x = -1 + 2 * state / (n - 1)
        for k in range(1, n):
            want = math.cos(k * math.acos(max(-1.0, min(1.0, x))))
            require(abs(table[state, k - 1] - want) < 1e-9, "Chebyshev value", state=state, k=k,
                    got=float(table[state, k - 1]), want=want)
    rows = {tuple(np.round(row, 9)) for row in table}
    require(len(rows) == n, "two states share their basis values", n=n)
    full = np.hstack([np.ones((n, 1)), table])
    require(np.linalg.matrix_rank(full, tol=1e-9) == n, "basis functions are linearly dependent", n=n)
    # every function of the state is representable
    f = np.array(spec["values"][:n], float)
    c = np.linalg.solve(full, f)
    require(np.allclose(full @ c, f, atol=1e-5 * (1 + np.abs(f).max())), "function of the state not representable")
    require(set(basis.valid_values) == set(range(n)), "valid values", got=sorted(basis.valid_values))
    require([basis.state_value(k, n) for k in range(n)] == list(range(n)), "state encoding")
    if n == 2:
        require(table.ravel().tolist() == [-1.0, 1.0], "binary values are not -1, +1", got=table.ravel().tolist())
    back = BasisFunction.from_dict(basis.as_dict())
    require(type(back) is ChebyshevBasis and back.max_states == n, "basis changed by as_dict/from_dict")
    require(np.array_equal(back.site_basis_values(n), table), "table changed by as_dict/from_dict")
    other = get_basis("chebyshev", max_states=n)
    require(np.array_equal(other.site_basis_values(n), table), "get_basis gives another table")
    occ = OccupationBasis()
    require(occ.site_basis_values(2).tolist() == [[1.0], [0.0]], "occupation basis table",
            got=occ.site_basis_values(2).tolist())
    for k in range(2):
        require(occ.from_chebyshev(occ.to_chebyshev(k)) == k, "occupation -> chebyshev -> occupation")
        cheb = ChebyshevBasis()
        require(cheb.from_occupation(cheb.to_occupation(k)) == k, "chebyshev -> occupation -> chebyshev")
    case.nontrivial(n >= 3)


OPS = ["get", "slice", "fancy", "set", "setslice", "bad", "badslice", "fraction", "flip", "flipin", "copy", "convert",
       "compare", "data"]


@st.composite
def occ_cases(draw):
    kind = draw(st.sampled_from(["chebyshev", "chebyshev", "occupation", "spin"]))
    q = draw(st.integers(2, 5)) if kind == "chebyshev" else 2
    n = draw(st.integers(0, 12))
    states = [draw(st.integers(0, q - 1)) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        ops.append([draw(st.sampled_from(OPS)), draw(st.integers(-12, 11)), draw(st.integers(-12, 12)),
                    draw(st.integers(0, q - 1)), draw(st.lists(st.integers(0, 11), max_size=4))])
    return {"kind": kind, "q": q, "states": states, "ops": ops,
            "tile": draw(st.sampled_from([1, 1, 1, 1, 17])), "wide": draw(st.integers(0, 3)), "container": draw(st.sampled_from(["list", "tuple", "array", "float"])),
            "bad": draw(st.sampled_from([7, -3, 99, 0.5, 0.25, 1.75]))}


def spin_basis():
    """A user basis on -1 / +1, registered the documented way."""
    from kmcpy.structure import basis as B

    if "spin" not in B.BASIS_REGISTRY:
        @B.register_basis("spin")
        class SpinBasis(B.BasisFunction):
            match_value = 1
            mismatch_value = -1
            occupied_value = 1
            vacant_value = -1
            valid_values = {1, -1}
            basis_function = [1, -1]
    return B.get_basis("spin")


def check_occupation(spec, case):
    from kmcpy.structure.basis import ChebyshevBasis, Occupation, OccupationBasis

    kind, q = spec["kind"], spec["q"]
    if kind == "chebyshev":
        basis, values = ChebyshevBasis(max_states=q), list(range(q))
    elif kind == "occupation":
        basis, values = OccupationBasis(), [1, 0]
    else:
        basis, values = spin_basis(), [1, -1]
    model = [values[s] for s in spec["states"]] * spec.get("tile", 1)
    n = len(model)
    source = {"list": list, "tuple": tuple, "array": np.array, "float": lambda v: np.array(v, float)}[
        spec["container"]](model)
    occ = Occupation(source, basis=basis)
    bad = spec["bad"]

    def flipped(v):
        return values[1] if v == values[0] else values[0]

    def spread(idx, i):
        """Different sites in any order, some counted from the end."""
        return [k - n if (k + i) % 3 == 0 else k for k in dict.fromkeys(idx)]

    def same(o, m, what):
        require(o.values == m and list(o) == m and o.data.tolist() == m and len(o) == len(m), what, got=o.values,
                want=m)

    same(occ, model, "values after construction")
    if isinstance(source, np.ndarray) and n:
        source[0] = -9
        same(occ, model, "the vector shares data with the array it was built from")
    try:
        Occupation(model + [bad], basis=basis)
    except ValueError:
        pass
    else:
        require(False, "an undefined value was accepted by the constructor", value=bad, basis=kind, states=q)
    modified = False
    keep = []
    for op, i, j, state, idx in spec["ops"]:
        value = values[state]
        if op == "slice" or op == "setslice" or op == "badslice":
            lo, hi = sorted((i, j))
            window = slice(lo, hi)
        if n and op in ("get", "set", "bad", "fraction", "flip", "flipin"):
            i = i % n - (n if i < 0 else 0)
        elif op in ("get", "set", "bad", "fraction", "flip", "flipin"):
            continue
        idx = [k % n for k in idx] if n else []
        if op == "get":
            got = occ[i]
            require(got == model[i] and isinstance(got, (int, float)), "indexing", index=i, got=got, want=model[i])
        elif op == "slice":
            same(occ[window], model[window], "slicing")
            part = occ[window]
            if len(part):
                part.flip_inplace(0)
                same(occ, model, "a slice shares data with the vector")
        elif op == "fancy":
            if idx:
                same(occ[idx], [model[k] for k in idx], "indexing with a list")
                same(occ[np.array(idx)], [model[k] for k in idx], "indexing with an array")
                mask = np.array([v == value for v in model])
                same(occ[mask], [v for v in model if v == value], "indexing with a mask")
                part = occ[idx]
                part.flip_inplace(0)
                same(occ, model, "a selection shares data with the vector")
        elif op == "set":
            occ[i] = value
            model[i] = value
            modified = True
            same(occ, model, "assignment")
        elif op == "setslice":
            span = len(model[window])
            fresh = [values[(state + k) % len(values)] for k in range(span)]
            occ[window] = fresh
            model[window] = fresh
            modified = True
            same(occ, model, "slice assignment")
        elif op in ("bad", "fraction", "badslice"):
            try:
                if op == "badslice":
                    if len(model[window]) == 0:
                        continue
                    occ[window] = [value] * (len(model[window]) - 1) + [bad]
                else:
                    occ[i] = bad if op == "bad" else 0.5
            except ValueError:
                pass
            else:
                require(False, "an undefined value was accepted by assignment", value=bad, op=op)
            same(occ, model, "a rejected assignment changed the vector")
        elif op == "flip":
            target = i if not idx or state == 0 else spread(idx, i)
            out = occ.flip(target)
            want = list(model)
            for k in ([target] if isinstance(target, int) else target):
                want[k] = flipped(want[k])
            same(out, want, "flip")
            same(occ, model, "flip changed the original")
        elif op == "flipin":
            target = i if not idx or state == 0 else spread(idx, i)
            occ.flip_inplace(target)
            for k in ([target] if isinstance(target, int) else target):
                model[k] = flipped(model[k])
            modified = True
            same(occ, model, "in-place flip")
        elif op == "copy":
            twin = occ.copy()
            same(twin, model, "copy")
            require(twin == occ and twin.equivalent_to(occ), "a copy differs from its original")
            keep.append((twin, list(model)))
        elif op == "data":
            raw = occ.data
            if len(raw):
                raw[0] = flipped(raw[0])
            same(occ, model, "the data array is not a copy")
        elif op == "convert":
            target = ChebyshevBasis(max_states=q + spec.get("wide", 0)) if kind == "chebyshev" else type(basis)()
            out = occ.to_basis(target)
            same(out, model, "conversion within a basis")
            if n:
                out.flip_inplace(0)
                same(occ, model, "a converted vector shares data with the original")
            if q == 2:
                same(occ.to_basis(kind), model, "conversion to the own basis by name")
            for name, table in (("occupation", [1, 0]), ("chebyshev", [0, 1])):
                if name == kind:
                    continue
                out = occ.to_basis(name)
                # the first state is the match value, the second the mismatch value
                for k in range(n):
                    if model[k] in values[:2]:
                        require(out.values[k] == table[values.index(model[k])], "basis conversion", site=k,
                                state=model[k], got=out.values[k], target=name)
                if q == 2:
                    require(out.to_basis(basis) == occ, "converting there and back changed the vector",
                            got=out.to_basis(basis).values, want=model)
                    require(out.equivalent_to(occ) and occ.equivalent_to(out), "converted vector is not equivalent")
                    if n:
                        require(not out.flip(0).equivalent_to(occ), "a flipped vector is equivalent to the original")
        elif op == "compare":
            require(occ == Occupation(list(model), basis=basis), "equal contents compare unequal")
            require(not (occ != Occupation(list(model), basis=basis)), "equal contents: != is true")
            require(occ.array_equal(model), "array_equal")
            longer = Occupation(list(model) + [value], basis=basis)
            require(occ != longer and longer != occ and not occ == longer and not longer.array_equal(model)
                    and not occ.equivalent_to(longer) and not longer.equivalent_to(occ),
                    "vectors of different length compare equal", a=model, more=value)
            require(occ != model and occ != None, "equal to something that is no occupation")  # noqa: E711
            if n:
                other = list(model)
                k = i % n
                other[k] = values[(values.index(other[k]) + 1) % len(values)]
                twin = Occupation(other, basis=basis)
                require(occ != twin and not (occ == twin) and not occ.array_equal(other), "different contents compare equal",
                        a=model, b=other)
                require(not occ.equivalent_to(twin), "different contents are equivalent", a=model, b=other)
        match = [k for k, v in enumerate(model) if v == values[0]]
        mismatch = [k for k, v in enumerate(model) if v == values[1]]
        require(occ.get_match_indices() == match and occ.count_match() == len(match), "match sites",
                got=occ.get_match_indices(), want=match)
        require(occ.get_mismatch_indices() == mismatch and occ.count_mismatch() == len(mismatch), "mismatch sites",
                got=occ.get_mismatch_indices(), want=mismatch)
        require(occ.get_occupied_indices() == match and occ.count_occupied() == len(match), "occupied sites")
        require(occ.get_vacant_indices() == mismatch and occ.count_vacant() == len(mismatch), "vacant sites")
    for twin, content in keep:
        same(twin, content, "a copy changed with its original")
    same(Occupation.zeros(n, basis=basis), [values[1]] * n, "zeros is not all vacant")
    same(Occupation.ones(n, basis=basis), [values[0]] * n, "ones is not all occupied")
    a = Occupation.random(n, basis=basis, fill_fraction=0.5, seed=7)
    b = Occupation.random(n, basis=basis, fill_fraction=0.5, seed=7)
    require(a == b and set(a.values) <= set(values[:2]), "seeded random vectors differ")
    same(Occupation.random(n, basis=basis, fill_fraction=1.0, seed=3), [values[0]] * n, "fill fraction one")
    same(Occupation.random(n, basis=basis, fill_fraction=0.0, seed=3), [values[1]] * n, "fill fraction zero")
    case.nontrivial(n >= 3 and modified)
    case.label(kind)


SUBS = [
    Sub("table", table_cases, check_table, quick=60, thorough=400),
    Sub("occupation", occ_cases, check_occupation, quick=500, thorough=20000),
]
TECHNIQUE = ("property-based testing (Hypothesis): Chebyshev tables against cos(k acos x), Occupation against a plain "
             "list under generated operation sequences")
