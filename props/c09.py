"""C09: quantum code distances are exact, and bounds never undercut them."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, heuristic, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C09",
    "Stabilizer and subsystem codes (random Clifford images, arbitrary check matrices, CSS pairs)"
    " over F_2,3,4,5 small enough to list every Pauli operator; packed-word kernel on 1-330 qubits"
    " with up to 9 generators, every block size from 1 to 18, homogeneous and symplectic, with and"
    " without numba.  Histories: random orders of exact, bounded and per-type queries.  Non-trivial:"
    " a logical qudit and distance at least 2, or a register of more than one machine word.",
    ["Generators given directly to the distance kernel have independent rows."],
)


def codes() -> Any:
    from qldpc import codes

    return codes


####################################################################################################
# oracles


def dressed_distance(field: ff.Field, rows: np.ndarray, n: int) -> int | None:
    """Least weight of an operator that commutes with the stabilizers and is not in the gauge group."""
    gauge = field.rref(rows)
    center = field.center(rows)
    vectors = field.span(field.symp_complement(center))
    logical = ~in_span(field, vectors, gauge)
    weights = field.symp_weight(vectors)[logical]
    return int(weights.min()) if len(weights) else None


def in_span(field: ff.Field, vectors: np.ndarray, reduced: np.ndarray) -> np.ndarray:
    """Which vectors are in the span of the rows of a matrix in reduced row echelon form?"""
    if not len(reduced):
        return ~vectors.any(axis=1)
    pivots = [int(np.nonzero(row)[0][0]) for row in reduced]
    return ~field.minus(vectors, field.matmul(vectors[:, pivots], reduced)).any(axis=1)


def css_distance(field: ff.Field, own: np.ndarray, stabs_other: np.ndarray) -> int | None:
    """Least weight of a one-type operator that commutes with stabilizers and is no gauge operator."""
    vectors = field.span(field.null_space(stabs_other))
    logical = ~in_span(field, vectors, field.rref(own))
    weights = np.count_nonzero(vectors[logical], axis=1)
    return int(weights.min()) if len(weights) else None


def same(got: Any, expected: int | None) -> bool:
    if expected is None:
        return isinstance(got, float) and bool(np.isnan(got))
    return not isinstance(got, bool) and got == expected and int(got) == got


def good_code(q: int, n: int, s: int, g: int, seed: int, tries: int = 24) -> np.ndarray:
    """Random generators of a gauge group with s stabilizers and g gauge qudits, of good distance."""
    field, rng = ff.get(q), np.random.default_rng(seed)
    best, best_distance = None, -1
    for _ in range(tries):
        base = np.zeros((s + 2 * g, 2 * n), dtype=int)
        for row, col in enumerate([*range(n, n + s), *range(s, s + g), *range(n + s, n + s + g)]):
            base[row, col] = 1
        gates = []
        for _ in range(10 * n):
            a = int(rng.integers(n))
            kind = int(rng.integers(6)) if n > 1 else int(rng.integers(3))
            b = (a + int(rng.integers(1, n))) % n if n > 1 else a
            gates.append((min(kind, 3), a, b, int(rng.integers(1, q))))
        rows = gen.apply_symplectic(field, base, gates)
        distance = dressed_distance(field, rows, n) or 0
        if distance > best_distance:
            best, best_distance = rows, distance
    return shuffle(field, best, rng)


def shuffle(field: ff.Field, rows: np.ndarray, rng: Any) -> np.ndarray:
    rows = rows.copy()
    for _ in range(2 * len(rows)):
        i, j = rng.integers(len(rows)), rng.integers(len(rows))
        if i != j:
            rows[i] = field.add[rows[i], field.mul[rng.integers(field.q), rows[j]]]
    return rows[rng.permutation(len(rows))]


def good_css(q: int, n: int, rx: int, rz: int, g: int, seed: int, tries: int = 24) -> tuple:
    """Random X and Z checks of a (subsystem) CSS code of good distance."""
    field, rng = ff.get(q), np.random.default_rng(seed)
    best, best_distance = None, -1
    for _ in range(tries):
        hx = rng.integers(0, q, (rx, n))
        null = field.null_space(hx)
        hz = field.matmul(rng.integers(0, q, (rz, len(null))), null).reshape(rz, n)
        gx, gz = hx, hz
        for _ in range(g):
            # a pair of logical operators that becomes a gauge qudit
            x_type, z_type = field.null_space(gz), field.null_space(gx)
            if not len(x_type) or not len(z_type):
                break
            op_x = field.matmul(rng.integers(0, q, len(x_type)), x_type)
            op_z = field.matmul(rng.integers(0, q, len(z_type)), z_type)
            gx, gz = np.vstack([gx, op_x]), np.vstack([gz, op_z])
        distances = css_pair(field, gx, gz)
        distance = min((d or 0) for d in distances) * 100 + sum((d or 0) for d in distances)
        if distance > best_distance:
            best, best_distance = (gx, gz), distance
    return tuple(shuffle(field, mat, rng).tolist() if len(mat) else [] for mat in best)


def css_pair(field: ff.Field, hx: np.ndarray, hz: np.ndarray) -> tuple:
    rows = np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])
    n = hx.shape[1]
    center = field.center(rows)
    stabs_x = center[center[:, :n].any(axis=1)][:, :n]
    stabs_z = center[center[:, n:].any(axis=1)][:, n:]
    return css_distance(field, hx, stabs_z), css_distance(field, hz, stabs_x)


####################################################################################################
# the packed-word kernel


@st.composite
def kernel_case(draw: Any) -> dict:
    n = draw(
        st.one_of(
            st.integers(1, 40),
            st.sampled_from([31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 256]),
            st.integers(41, 330),
        )
    )
    homogeneous = draw(st.booleans())
    length = n if homogeneous else 2 * n
    total = draw(st.integers(1, min(length, 9)))
    num_logicals = draw(st.integers(1, total))
    rows = []
    for _ in range(total):
        mode = draw(st.integers(0, 4))
        if mode == 0:
            rows.append(draw(gen.row(2, length)))
        elif mode == 1:
            rows.append([1 - x for x in draw(gen.row(2, length))])
        elif mode == 2:
            start, stop = sorted((draw(st.integers(0, length)), draw(st.integers(0, length))))
            rows.append([int(start <= i < stop) for i in range(length)])
        elif mode == 3:
            # only a few operators near the ends of machine words
            vec = [0] * length
            for pos in draw(st.lists(st.integers(0, length - 1), min_size=1, max_size=3)):
                vec[pos] = 1
            rows.append(vec)
        else:
            seed = draw(st.integers(0, 2**30))
            rows.append(np.random.default_rng(seed).integers(0, 2, length).tolist())
    return {
        "n": n,
        "homogeneous": homogeneous,
        "logicals": rows[:num_logicals],
        "stabilizers": rows[num_logicals:],
        "block_size": draw(st.one_of(st.none(), st.integers(1, 18))),
        "kind": draw(st.integers(0, 2)),
    }


def run_kernel(case: dict, c: Context, **kwargs: Any) -> None:
    field, n = ff.get(2), case["n"]
    length = n if case["homogeneous"] else 2 * n
    rows = util.mat(case["logicals"] + case["stabilizers"], length)
    if field.rank(rows) < len(rows):
        # replace the rows by independent ones
        rows = field.rref(rows)
    num = min(len(case["logicals"]), len(rows))
    if not num:
        return
    logicals, stabs = rows[:num], rows[num:]
    words = field.span(rows)[2 ** len(stabs) :]  # all combinations with some logical operator
    weigh = (lambda w: np.count_nonzero(w, axis=1)) if case["homogeneous"] else field.symp_weight
    expected = int(weigh(words).min())
    if case["block_size"] is not None:
        kwargs["block_size"] = case["block_size"]
    arrays: list[Any] = [logicals, stabs]
    if case["kind"] == 1:
        arrays = [x.astype(np.uint8) for x in arrays]
    elif case["kind"] == 2:
        import galois

        arrays = [galois.GF(2)(x) for x in arrays]
    got = codes().distance.get_distance_quantum(
        *arrays, homogeneous=case["homogeneous"], **kwargs
    )
    c.nontrivial(len(rows) > 1 and (expected > 1 or length > 64))
    c.label(f"words={min(-(-length // 64), 5)}", f"stabilizers={min(len(stabs), 3)}")
    c.equal(int(got), expected, f"kernel distance ({kwargs})")
    c.equal([x.tolist() for x in (logicals, stabs)], [rows[:num].tolist(), rows[num:].tolist()], "inputs")


@PROP.test(kernel_case, quick=2600, shards=3)
def kernel(case: dict, c: Context) -> None:
    """The packed-word kernel, for every length, weight, block size and split of generators."""
    run_kernel(case, c)


@PROP.test(kernel_case, quick=30, shards=2)
def kernel_with_numba(case: dict, c: Context) -> None:
    run_kernel(case, c, use_numba=True)


@st.composite
def popcount_case(draw: Any) -> dict:
    return {"words": draw(st.lists(st.integers(0, 2**64 - 1), min_size=1, max_size=20))}


@PROP.test(popcount_case, quick=500, shards=1)
def weights_of_words(case: dict, c: Context) -> None:
    """All implementations of the word weights agree with counting bits."""
    from qldpc.codes import distance as dist

    words = case["words"]
    array = np.array(words, dtype=np.uint)
    before = array.copy()
    hamming = [bin(w).count("1") for w in words]
    pairs = [bin((w | w >> 1) & 0x5555555555555555).count("1") for w in words]
    c.nontrivial(any(h > 1 for h in hamming))
    for name, expected in (("hamming", hamming), ("symplectic", pairs)):
        # private helpers are checked where they exist
        if get := getattr(dist, f"_get_{name}_weight_fn", None):
            func, num_bufs = get()
            c.equal(func(array).astype(int), np.array(expected), "weights")
            bufs = [np.empty_like(array) for _ in range(num_bufs)]
            out = np.empty_like(array)
            c.equal(func(array, *bufs, out=out).astype(int), np.array(expected), "buffered weights")
        if func := getattr(dist, f"_{name}_weight", None):
            c.equal(func(array).astype(int), np.array(expected), name)
            buf, out = np.empty_like(array), np.empty_like(array)
            c.equal(func(array, buf=buf, out=out).astype(int), np.array(expected), name)
        if func := getattr(dist, f"_{name}_weight_single", None):
            with np.errstate(over="ignore"):
                c.equal([int(func(w)) for w in array], expected, name)
    c.equal(array, before, "argument")


####################################################################################################
# exact distances of codes

LIMITS = {2: 5, 3: 4, 4: 3, 5: 3}


@st.composite
def code_case(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 2, 2, 3, 3, 4, 5]))
    max_n = LIMITS[q]
    kind = draw(st.sampled_from(["good", "good", "good", "stabilizer", "gauge", "free", "css"]))
    if kind == "good":
        n = draw(st.integers(2 if q > 2 else 4, max_n))
        g = draw(st.sampled_from([0, 0, 1, 1, 2][: 2 * n - 2]))
        s = draw(st.integers(max(0, n - g - 2), n - g - 1))
        rows = good_code(q, n, s, g, draw(st.integers(0, 2**30)))
        case = {"n": n, "rows": rows.tolist()}
    elif kind == "stabilizer":
        case = draw(gen.stabilizer_matrix(q, 1, max_n))
    elif kind == "gauge":
        case = draw(gen.gauge_matrix(q, 1, max_n))
    elif kind == "free":
        n = draw(st.integers(1, max_n))
        case = {"n": n, "rows": draw(gen.matrix(q, 0, 5, 2 * n, 2 * n))}
    else:
        css = draw(gen.css_matrices(q, 1, max_n))
        n = css["n"]
        rows = [row + [0] * n for row in css["hx"]] + [[0] * n + row for row in css["hz"]]
        case = {"n": n, "rows": rows}
    return {
        "q": q,
        "n": case["n"],
        "rows": case["rows"],
        "order": draw(st.lists(st.integers(0, 5), min_size=1, max_size=5)),
        "seed": draw(st.integers(0, 2**30)),
    }


@PROP.test(code_case, quick=1500, shards=5)
def exact_distance(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    rows = util.mat(case["rows"], 2 * n)
    expected = dressed_distance(field, rows, n)
    center = field.center(rows)
    dim = n - (field.rank(rows) + len(center)) // 2
    if q > 2 and q ** (2 * dim + field.rank(rows)) > 3000:
        return  # the implementation lists all these words one by one
    c.equal(expected is None, dim == 0, "oracle")
    c.nontrivial(expected is not None and expected > 1)
    c.label(f"q={q}", f"d={expected}", "subsystem" if len(center) < field.rank(rows) else "stabilizer")
    code = codes().QuditCode(rows, q)
    for action in case["order"]:
        if action <= 1:
            c.require(same(code.get_distance(), expected), "distance", code.get_distance(), expected)
        elif action == 2:
            known = code.get_distance_if_known()
            c.require(known is None or same(known, expected), "known distance", known, expected)
        elif action == 3:
            length, dimension, distance = code.get_code_params()
            c.equal((length, dimension), (n, dim), "code parameters")
            c.require(same(distance, expected), "distance parameter", distance, expected)
        elif action == 4:
            # change the basis of logical operators
            ops = util.ints(code.get_logical_ops(), (2 * dim, 2 * n), "logical ops", q)
            if dim > 1:
                gates = [(3, 0, 1, 1), (0, 0, 0, 1), (3, 1, 0, q - 1)]
                change = gen.apply_symplectic(field, np.eye(2 * dim, dtype=int), gates)
                code.set_logical_ops(field.matmul(change, ops))
        else:
            code = codes().QuditCode(code)
    c.require(same(code.get_distance_exact(), expected), "exact distance", code.get_distance_exact(), expected)
    if expected is not None:
        # once known, the distance is returned by every query
        c.equal(code.get_distance(bound=2), expected, "bound after the exact distance")

    # the distance does not depend on the order of the qudits, or on local basis changes
    rng = np.random.default_rng(case["seed"])
    perm = rng.permutation(n)
    moved = rows.reshape(-1, 2, n)[:, :, perm].reshape(-1, 2 * n)
    gates = [(int(rng.integers(3)), a, a, int(rng.integers(1, q))) for a in range(n)]
    moved = gen.apply_symplectic(field, moved, gates)
    other = codes().QuditCode(moved, q)
    c.require(same(other.get_distance(), expected), "distance after local basis changes", other.get_distance(), expected)


CSS_LIMITS = {2: 9, 3: 5, 4: 4, 5: 4}


@st.composite
def css_case(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 2, 2, 3, 3, 4, 5]))
    max_n = CSS_LIMITS[q]
    kind = draw(st.sampled_from(["good", "good", "good", "commuting", "nearly", "free", "self-dual"]))
    if kind == "good":
        n = draw(st.integers(3 if q > 2 else 5, max_n))
        g = draw(st.sampled_from([0, 0, 1, 2]))
        total = draw(st.integers(max(0, n - 2 - g), max(0, n - 1 - g)))
        rx = min(total, draw(st.integers(max(0, (total - 1) // 2), (total + 2) // 2)))
        hx, hz = good_css(q, n, rx, total - rx, g, draw(st.integers(0, 2**30)))
    elif kind == "free":
        n = draw(st.integers(1, max_n))
        hx, hz = draw(gen.matrix(q, 0, 4, n, n)), draw(gen.matrix(q, 0, 4, n, n))
    else:
        css = draw(gen.css_matrices(q, 1, max_n))
        n, hx, hz = css["n"], css["hx"], css["hz"]
        if kind == "nearly":
            (hx if draw(st.booleans()) else hz).append(draw(gen.row(q, n)))
        elif kind == "self-dual":
            hz = [list(row) for row in hx]
    return {
        "q": q,
        "n": n,
        "hx": hx,
        "hz": hz,
        "order": draw(st.lists(st.integers(0, 11), min_size=1, max_size=7)),
        "trials": draw(st.integers(1, 4)),
        "cutoff": draw(st.one_of(st.none(), st.integers(1, n))),
        "decoder": draw(st.integers(0, 4)),
        "guesses": draw(st.integers(0, 6)),
        "seed": draw(st.integers(0, 10**6)),
        "symplectic": draw(st.booleans()),
    }


@PROP.test(css_case, quick=1800, shards=6)
def css_distances(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    rows = np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])
    center = field.center(rows)
    stabs_x = center[center[:, :n].any(axis=1)][:, :n]
    stabs_z = center[center[:, n:].any(axis=1)][:, n:]
    expected: dict[Any, int | None] = {
        Pauli.X: css_distance(field, hx, stabs_z),
        Pauli.Z: css_distance(field, hz, stabs_x),
    }
    k = n - (field.rank(rows) + len(center)) // 2
    if q > 2 and q ** (k + max(field.rank(hx), field.rank(hz))) > 3000:
        return
    c.equal(expected[Pauli.X] is None, k == 0, "oracle")
    expected[None] = min(expected[Pauli.X], expected[Pauli.Z]) if k else None
    c.nontrivial(k and expected[None] > 1)
    c.label(f"q={q}", f"d={expected[None]}", "subsystem" if len(center) < field.rank(rows) else "stabilizer")
    if k and expected[Pauli.X] != expected[Pauli.Z]:
        c.label("asymmetric")
    kwargs: dict[str, Any] = {}
    if case["decoder"] == 1 and q in (2, 3):
        kwargs = {"with_ILP": True}
    elif case["decoder"] == 2 and q <= 3:
        kwargs = {"with_GUF": True}
    elif case["decoder"] >= 3:
        source = heuristic.Heuristic(q, case["seed"], case["guesses"], case["decoder"] == 3)
        kwargs = {"decoder_constructor": source}
        c.label("heuristic decoder")
    code = codes().CSSCode(hx, hz, q)

    def exact(pauli: Any) -> None:
        got = code.get_distance(pauli)
        c.require(same(got, expected[pauli]), f"{pauli} distance", got, expected[pauli])

    def known(pauli: Any) -> None:
        got = code.get_distance_if_known(pauli)
        c.require(got is None or same(got, expected[pauli]), f"known {pauli} distance", got)

    def bound(pauli: Any) -> None:
        got = code.get_distance_bound(case["trials"], pauli, cutoff=case["cutoff"], **kwargs)
        if not k:
            c.require(same(got, None), f"{pauli} distance bound", got)
        else:
            c.require(expected[pauli] <= got <= n, f"{pauli} distance bound", got, expected[pauli])
            got = code.get_distance(pauli, bound=case["trials"], **kwargs)
            c.require(expected[pauli] <= got <= n, f"{pauli} distance bound", got, expected[pauli])

    def one(pauli: Any) -> None:
        if k:
            got = code.get_one_distance_bound(pauli, **kwargs)
            c.require(expected[pauli] <= got <= n, f"one {pauli} bound", got, expected[pauli])

    queries = [exact, bound, one, known]
    for action in case["order"]:
        queries[action % 4]((None, Pauli.X, Pauli.Z)[action // 4])
    for pauli in (Pauli.Z, None, Pauli.X):
        exact(pauli)
        known(pauli)
        bound(pauli)
    length, dimension, distance = code.get_code_params()
    c.equal((length, dimension), (n, k), "code parameters")
    c.require(same(distance, expected[None]), "distance parameter", distance)

    # the symplectic form of the same code has the same distance
    if case["symplectic"] and (q == 2 or q ** (2 * k + field.rank(rows)) <= 3000):
        got = codes().QuditCode(rows, q).get_distance()
        c.require(same(got, expected[None]), "distance of the symplectic form", got, expected[None])


@st.composite
def tight_case(draw: Any) -> dict:
    if draw(st.integers(0, 3)):
        n = draw(st.integers(5, 10))
        total = draw(st.integers(n - 2, n - 1))
        rx = min(total, draw(st.integers(max(0, (total - 1) // 2), (total + 2) // 2)))
        hx, hz = good_css(2, n, rx, total - rx, 0, draw(st.integers(0, 2**30)))
        case = {"n": n, "hx": hx, "hz": hz}
    else:
        case = draw(gen.css_matrices(2, 3, 9, min_k=1))
    return {**case, "which": draw(st.booleans())}


@PROP.test(tight_case, quick=300, shards=2)
def bounds_with_exact_decoder(case: dict, c: Context) -> None:
    """With an exact decoder, each bound is the least weight over operators that anticommute with
    one logical operator: never below the distance, and equal to it for a single logical qubit."""
    from qldpc.objects import Pauli

    n, field = case["n"], ff.get(2)
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    k = n - field.rank(hx) - field.rank(hz)
    pauli = Pauli.X if case["which"] else Pauli.Z
    own, other = (hx, hz) if case["which"] else (hz, hx)
    expected = css_distance(field, own, other)
    code = codes().CSSCode(hx, hz, 2)
    if not k:
        return
    got = code.get_one_distance_bound(pauli, with_ILP=True)
    c.nontrivial(expected > 1)
    c.label(f"k={min(k, 2)}")
    c.require(expected <= got <= n, "bound", got, expected)
    if k == 1:
        c.equal(got, expected, "bound with an exact decoder and one logical qubit")


LIBRARY = ["five", "steane", "four", "six", "bacon3", "bacon23", "surface", "hgp", "ternary5"]


def library_rows(name: str) -> tuple[int, np.ndarray]:
    """Generators of well-known codes, written down independently of the code under test."""

    def css(hx: Any, hz: Any) -> np.ndarray:
        hx, hz = np.array(hx), np.array(hz)
        return np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])

    if name in ("five", "ternary5"):
        # cyclic shifts of X Z Z^-1 X^-1 I
        q = 2 if name == "five" else 3
        rows = []
        for shift in range(4):
            x = np.roll([1, 0, 0, q - 1, 0], shift)
            z = np.roll([0, 1, q - 1, 0, 0], shift)
            rows.append(np.concatenate([x, z]))
        return q, np.array(rows)
    if name == "steane":
        h = [[int(bool(j >> i & 1)) for j in range(1, 8)] for i in range(3)]
        return 2, css(h, h)
    if name == "four":
        return 2, css([[1] * 4], [[1] * 4])
    if name == "six":
        return 2, css([[1] * 6], [[1] * 6])
    if name in ("bacon3", "bacon23"):
        rows_, cols_ = (3, 3) if name == "bacon3" else (2, 3)
        site = np.arange(rows_ * cols_).reshape(rows_, cols_)
        hx, hz = [], []
        for i in range(rows_):
            for j in range(cols_):
                for di, dj, out in ((1, 0, hx), (0, 1, hz)):
                    if i + di < rows_ and j + dj < cols_:
                        vec = [0] * site.size
                        vec[site[i, j]] = vec[site[i + di, j + dj]] = 1
                        out.append(vec)
        return 2, css(hx, hz)
    if name == "surface":
        faces_x = [[0, 1], [1, 2, 4, 5], [3, 4, 6, 7], [7, 8]]
        faces_z = [[0, 1, 3, 4], [4, 5, 7, 8], [2, 5], [3, 6]]
        return 2, css(*[[[int(q in f) for q in range(9)] for f in fs] for fs in (faces_x, faces_z)])
    rep = np.array([[1, 1, 0], [0, 1, 1]])
    one3, one2 = np.eye(3, dtype=int), np.eye(2, dtype=int)
    hx = np.hstack([np.kron(rep, one3), np.kron(one2, rep.T)])
    hz = np.hstack([np.kron(one3, rep), np.kron(rep.T, one2)])
    return 2, css(hx, hz)


@st.composite
def library_case(draw: Any) -> dict:
    return {
        "name": draw(st.sampled_from(LIBRARY)),
        "seed": draw(st.integers(0, 2**30)),
        "css": draw(st.booleans()),
    }


@PROP.test(library_case, quick=160, shards=2)
def scrambled_known_codes(case: dict, c: Context) -> None:
    """Codes of distance 2 and 3, with mixed generators, permuted qudits and local basis changes."""
    from qldpc.objects import Pauli

    known = dict(
        five=3, steane=3, four=2, six=2, bacon3=3, bacon23=2, surface=3, hgp=3, ternary5=3
    )
    q, rows = library_rows(case["name"])
    field, n = ff.get(q), rows.shape[1] // 2
    rng = np.random.default_rng(case["seed"])
    perm = rng.permutation(n)
    rows = rows.reshape(-1, 2, n)[:, :, perm].reshape(-1, 2 * n)
    c.nontrivial()
    c.label(case["name"])
    expected = known[case["name"]]
    is_css = case["name"] not in ("five", "ternary5")
    if is_css and case["css"]:
        hx, hz = rows[rows[:, :n].any(axis=1)][:, :n], rows[rows[:, n:].any(axis=1)][:, n:]
        hx, hz = shuffle(field, hx, rng), shuffle(field, hz, rng)
        pair = css_pair(field, hx, hz)
        code = codes().CSSCode(hx, hz)
        got = code.get_distance(Pauli.X), code.get_distance(Pauli.Z)
        c.equal(got, pair, f"X and Z distances of {case['name']}")
        c.equal(code.get_distance(), expected, f"distance of {case['name']}")
        return
    if not is_css or n <= 9:
        gates = [(int(rng.integers(3)), a, a, int(rng.integers(1, q))) for a in range(n)]
        rows = gen.apply_symplectic(field, rows, gates)
    rows = shuffle(field, rows, rng)
    if n <= 9 and q == 2:
        c.equal(dressed_distance(field, rows, n), expected, "oracle")
    got = codes().QuditCode(rows, q).get_distance()
    c.equal(got, expected, f"distance of {case['name']}")
