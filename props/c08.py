"""C08: a CSS code and its symplectic form are the same code."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C08",
    "Pairs of X/Z check matrices over F_2,3,4,5,7,8,9 on 1-7 qudits: commuting pairs (H_z drawn"
    " from the null space of H_x), nearly commuting pairs (one extra row) and arbitrary pairs, with"
    " redundant, zero and missing rows, in every accepted container.  Non-trivial: checks of both"
    " types and at least one logical or gauge qudit.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def css_case(draw: Any, max_n: int = 7, fields: tuple = gen.FIELDS) -> dict:
    q = draw(gen.field_orders(fields))
    kind = draw(st.sampled_from(["commuting", "commuting", "nearly", "free", "free"]))
    if kind == "free":
        n = draw(st.integers(1, max_n))
        hx = draw(gen.matrix(q, 0, 4, n, n))
        hz = draw(gen.matrix(q, 0, 4, n, n))
    else:
        case = draw(gen.css_matrices(q, 1, max_n))
        n, hx, hz = case["n"], case["hx"], case["hz"]
        if kind == "nearly":
            (hx if draw(st.booleans()) else hz).append(draw(gen.row(q, n)))
    return {
        "q": q,
        "n": n,
        "hx": hx,
        "hz": hz,
        "origin": kind,
        "kinds": [draw(st.integers(0, 5)), draw(st.integers(0, 5))],
        "seed": draw(st.integers(0, 2**30)),
        "flag": draw(st.sampled_from([None, None, None, True])),
    }


def full(hx: np.ndarray, hz: np.ndarray) -> np.ndarray:
    zeros_x, zeros_z = np.zeros_like(hx), np.zeros_like(hz)
    return np.vstack([np.hstack([hx, zeros_x]), np.hstack([zeros_z, hz])])


def build(case: dict) -> tuple[Any, np.ndarray, np.ndarray]:
    q, n = case["q"], case["n"]
    arrays = []
    for kind, rows in zip(case["kinds"], (case["hx"], case["hz"])):
        matrix, kwargs = util.container(kind, rows, n, q)
        arrays.append(codes().ClassicalCode(matrix, **kwargs) if kind % 2 else matrix)
    code = codes().CSSCode(*arrays, q, is_subsystem_code=case["flag"])
    return code, util.mat(case["hx"], n), util.mat(case["hz"], n)


@PROP.test(css_case, quick=1900, shards=5)
def same_code_as_symplectic_form(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    code, hx, hz = build(case)
    rows = full(hx, hz)
    info = quantum.check_code(c, code, rows, n, q, what="CSS code", subsystem=case["flag"])
    g, k = info["g"], info["k"]
    c.nontrivial(len(hx) and len(hz) and g + k)
    c.label(case["origin"], f"k={min(k, 2)}", f"g={min(g, 2)}")
    for pauli, mat in ((Pauli.X, hx), (Pauli.Z, hz)):
        c.equal(util.ints(code.get_matrix(pauli), mat.shape, "checks", q), mat, "get_matrix")
        c.equal(util.ints(code.get_code(pauli).matrix, mat.shape, "checks", q), mat, "get_code")
    c.equal((code.num_checks_x, code.num_checks_z), (len(hx), len(hz)), "numbers of checks")

    # the same data as a general code
    other = codes().QuditCode(rows, q, is_subsystem_code=case["flag"])
    for name in ("rank", "dimension", "gauge_dimension", "is_subsystem_code", "num_checks"):
        c.equal(getattr(code, name), getattr(other, name), f"{name} of the two forms")
    if len(rows):
        c.equal(int(code.get_weight()), int(other.get_weight()), "weight of the two forms")
        c.equal(int(code.get_weight()), int(field.symp_weight(rows).max()), "weight")
    canon = [util.ints(x.get_stabilizer_ops(canonicalized=True), None, "stabilizers", q) for x in (code, other)]
    c.equal(canon[0], canon[1], "canonical stabilizers of the two forms")
    c.require(codes().QuditCode.equiv(code, other), "the two forms are not equivalent")
    c.require(codes().CSSCode.equiv(code, other), "the two forms are not equivalent")
    c.equal(
        util.ints(code.canonicalized.matrix, None, "canonical", q),
        util.ints(other.canonicalized.matrix, None, "canonical", q),
        "canonical checks of the two forms",
    )
    c.equal(code.canonicalized.is_subsystem_code, code.is_subsystem_code, "canonical code's kind")
    copy = codes().QuditCode(code)
    quantum.check_code(c, copy, rows, n, q, what="symplectic copy", subsystem=case["flag"])
    # each set of logical operators completes the gauge group to the same group
    ops = util.ints(other.get_logical_ops(), (2 * k, 2 * n), "logical ops", q)
    c.require(
        field.same_span(np.vstack([rows, ops]), np.vstack([rows, info["logicals"]])) or g,
        "logical operators of the two forms differ by more than stabilizers",
    )


@PROP.test(css_case, quick=1100, shards=3)
def restrictions_to_one_type(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    code, hx, hz = build(case)
    rows = full(hx, hz)
    center = field.center(rows)
    c.nontrivial(len(center) and field.rank(hx) and field.rank(hz))
    rng = np.random.default_rng(case["seed"])
    queries = [(p, s, k) for p in (Pauli.X, Pauli.Z) for s in (False, True) for k in (False, True)]
    for index in rng.permutation(len(queries)):  # every order of queries
        pauli, symplectic, canonicalized = queries[index]
        start = 0 if pauli is Pauli.X else n
        ops = code.get_stabilizer_ops(pauli, symplectic=symplectic, canonicalized=canonicalized)
        what = f"{pauli}-type stabilizers (symplectic={symplectic}, canonicalized={canonicalized})"
        ops = util.ints(ops, (None, 2 * n if symplectic else n), what, q)
        if symplectic:
            c.equal(np.count_nonzero(ops), np.count_nonzero(ops[:, start : start + n]), what)
            ops = ops[:, start : start + n]
        expected = center[center[:, start : start + n].any(axis=1)][:, start : start + n]
        if canonicalized:
            c.equal(ops, expected, what)
        else:
            c.require(field.same_span(ops, expected), what, ops, expected)


@PROP.test(css_case, quick=1300, shards=3)
def standard_form_xz(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    code, hx, hz = build(case)
    rows = full(hx, hz)
    center = field.center(rows)
    s = len(center)
    g = (field.rank(rows) - s) // 2
    k = n - s - g
    sx = int(center[:, :n].any(axis=1).sum())
    c.nontrivial(k + g and field.rank(hx) and field.rank(hz))
    c.label(f"g={min(g, 2)}")
    matrix_x, matrix_z, locs, row_sectors, col_sectors = code.get_standard_form_data_xz()
    matrix_x = util.ints(matrix_x, (sx + g, n), "X-type standard form", q)
    matrix_z = util.ints(matrix_z, (s - sx + g, n), "Z-type standard form", q)
    numbers = dict(n=n, k=k, g=g, stab_rank_x=sx, s=s)
    quantum.check_form_blocks(
        c, field, matrix_x, matrix_z, locs, row_sectors, col_sectors, numbers, "standard form"
    )
    inverse = np.argsort(np.asarray(locs))
    for name, mat, checks, sector in (
        ("X", matrix_x[:, inverse], hx, row_sectors[0]),
        ("Z", matrix_z[:, inverse], hz, row_sectors[2]),
    ):
        c.require(field.same_span(mat, checks), f"{name}-type standard form: other checks")
        start = 0 if name == "X" else n
        stabs = center[center[:, start : start + n].any(axis=1)][:, start : start + n]
        c.require(
            field.same_span(mat[quantum.indices(sector, len(mat))], stabs),
            f"{name}-type standard form: stabilizer rows are not the stabilizers",
        )


@PROP.test(css_case, quick=700, shards=2)
def random_logical_operators(case: dict, c: Context) -> None:
    from qldpc.objects import Pauli

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    code, hx, hz = build(case)
    rows = full(hx, hz)
    center = field.center(rows)
    k = n - (field.rank(rows) + len(center)) // 2
    c.nontrivial(k)
    for pauli, checks, start in ((Pauli.X, hz, 0), (Pauli.Z, hx, n)):
        stabs = center[center[:, start : start + n].any(axis=1)][:, start : start + n]
        basis = np.vstack(
            [util.ints(code.get_logical_ops(pauli), (k, n), "logicals", q), stabs]
        )
        seen = []
        for offset in range(6):
            seed = case["seed"] + offset
            nontrivial = bool(offset % 2) and k > 0
            op = code.get_random_logical_op(pauli, ensure_nontrivial=nontrivial, seed=seed)
            op = util.ints(op, (n,), "random logical operator", q)
            c.require(not field.matmul(checks, op).any(), "random operator violates checks", op)
            c.require(field.in_span(op, basis), "random operator is no logical operator", op)
            if nontrivial:
                c.require(not field.in_span(op, stabs), "trivial operator", op)
            again = code.get_random_logical_op(pauli, ensure_nontrivial=nontrivial, seed=seed)
            c.equal(util.ints(again, (n,), "operator", q), op, "same seed, other operator")
            seen.append(tuple(op))
        if q ** (len(basis)) > 1000:
            c.require(len(set(seen)) > 1, "all seeds give the same operator")


@st.composite
def incompatible_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    n = draw(st.integers(1, 5))
    p = draw(gen.field_orders((2, 3, 4, 5)))
    m = n if p != q and draw(st.booleans()) else draw(st.integers(1, 5))
    hx = draw(gen.matrix(q, 1, 3, n, n))
    hz = draw(gen.matrix(p, 1, 3, m, m))
    return {"q": q, "n": n, "p": p, "m": m, "hx": hx, "hz": hz}


@PROP.test(incompatible_case, quick=300, shards=1)
def incompatible_subcodes(case: dict, c: Context) -> None:
    cx = codes().ClassicalCode(case["hx"], case["q"])
    cz = codes().ClassicalCode(case["hz"], case["p"])
    compatible = case["n"] == case["m"] and case["q"] == case["p"]
    c.nontrivial(not compatible)
    if compatible:
        codes().CSSCode(cx, cz)
    else:
        c.raises(ValueError, lambda: codes().CSSCode(cx, cz), "incompatible subcodes")


@st.composite
def logicals_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    case = draw(gen.css_matrices(q, 1, 6, min_k=1))
    return {
        "q": q,
        **case,
        "seed": draw(st.integers(0, 2**30)),
        "corrupt": draw(
            st.sampled_from(["no", "no", "x", "z", "entry", "check x", "check z", "swap", "scale"])
        ),
    }


@PROP.test(logicals_case, quick=900, shards=2)
def supplied_logical_operators(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    code = codes().CSSCode(hx, hz, q)
    rng = np.random.default_rng(case["seed"])
    from qldpc.objects import Pauli

    lx = util.ints(code.get_logical_ops(Pauli.X), (None, n), "logicals", q)
    lz = util.ints(code.get_logical_ops(Pauli.Z), (None, n), "logicals", q)
    computed = util.ints(code.get_logical_ops(), (2 * len(lx), 2 * n), "logicals", q)
    k = len(lx)
    if not k:
        return
    change = np.eye(k, dtype=int)
    for _ in range(2 * k):
        i, j = rng.integers(k), rng.integers(k)
        if i != j:
            change[i] = field.add[change[i], field.mul[rng.integers(q), change[j]]]
    change = field.mul[rng.integers(1, q), change]
    lx = field.matmul(change, lx)
    lz = field.matmul(field.inverse(change).T, lz)
    if len(hx):
        lx = field.add[lx, field.matmul(rng.integers(0, q, (k, len(hx))), hx)]
    if len(hz):
        lz = field.add[lz, field.matmul(rng.integers(0, q, (k, len(hz))), hz)]
    kind = case["corrupt"]
    i, j, scale = rng.integers(k), rng.integers(k), rng.integers(1, q)
    if kind == "x":
        lx[i] = field.add[lx[i], field.mul[scale, lx[j]]]
    elif kind == "z":
        lz[i] = field.add[lz[i], field.mul[scale, lz[j]]]
    elif kind == "entry":
        lx[i, rng.integers(n)] = rng.integers(q)
    elif kind.startswith("check"):
        # violates only one check
        ops, others, checks = (lx, lz, hz) if kind.endswith("x") else (lz, lx, hx)
        vector = gen.violating_vector(field, checks, others, rng)
        if vector is not None:
            ops[i] = field.add[ops[i], vector]
    elif kind == "swap":
        lx, lz = lz, lx
    elif kind == "scale":
        lz[i] = field.mul[scale, lz[i]]
    valid = (
        not field.matmul(hz, lx.T).any()
        and not field.matmul(hx, lz.T).any()
        and bool(np.all(field.matmul(lx, lz.T) == np.eye(k, dtype=int)))
    )
    c.nontrivial(len(hx) and len(hz))
    c.label(kind, "valid" if valid else "invalid")
    if valid:
        code.set_logical_ops_xz(lx.copy(), lz.tolist() if kind == "no" else lz.copy())
        c.equal(util.ints(code.get_logical_ops(Pauli.X), (k, n), "X", q), lx, "X ops after setting")
        c.equal(util.ints(code.get_logical_ops(Pauli.Z), (k, n), "Z", q), lz, "Z ops after setting")
        quantum.check_code(c, code, full(hx, hz), n, q, what="code with supplied logical ops")
        start = case["seed"] % 3
        if start < 2:
            code.get_logical_ops((Pauli.X, Pauli.Z)[start], symplectic=bool(j % 2), recompute=True)
            again = code.get_logical_ops()
        else:
            again = code.get_logical_ops(recompute=True)
        c.equal(
            util.ints(again, computed.shape, "ops", q), computed, "supplied ops are replaced when recomputing"
        )
    else:
        c.raises(
            ValueError, lambda: code.set_logical_ops_xz(lx.copy(), lz.copy()), "invalid logicals"
        )


@st.composite
def pair_case(draw: Any) -> dict:
    case = draw(css_case(6, (2, 3, 4, 5, 7)))
    case["change"] = draw(
        st.sampled_from(
            ["mix", "mix", "drop x", "drop z", "add x", "add z", "entry x", "entry z", "swap", "move"]
        )
    )
    return case


@PROP.test(pair_case, quick=900, shards=2)
def equivalence(case: dict, c: Context) -> None:
    """CSS codes are equivalent exactly if their X- and Z-type checks span equal spaces."""
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    code, hx, hz = build(case)
    rng = np.random.default_rng(case["seed"])
    kind = case["change"]

    def mix(rows: np.ndarray) -> np.ndarray:
        rows = rows.copy()
        for _ in range(2 * len(rows)):
            i, j = rng.integers(len(rows)), rng.integers(len(rows))
            if i != j:
                rows[i] = field.add[rows[i], field.mul[rng.integers(q), rows[j]]]
        return field.mul[rng.integers(1, q), rows[rng.permutation(len(rows))]]

    parts = [mix(hx), mix(hz)]
    if kind == "swap":
        parts = parts[::-1]
    elif kind == "move" and len(parts[0]):
        parts[1] = np.vstack([parts[1], parts[0][-1:]])
        parts[0] = parts[0][:-1]
    elif kind not in ("mix", "move"):
        which = "xz".index(kind[-1])
        rows = parts[which]
        if kind.startswith("drop"):
            parts[which] = rows[1:]
        elif kind.startswith("add"):
            parts[which] = np.vstack([rows, rng.integers(0, q, size=(1, n))])
        elif len(rows):
            rows[rng.integers(len(rows)), rng.integers(n)] = rng.integers(q)
    same = field.same_span(parts[0], hx) and field.same_span(parts[1], hz)
    c.nontrivial(len(hx) and len(hz))
    c.label(kind, "equivalent" if same else "not equivalent")
    other = codes().CSSCode(codes().ClassicalCode(parts[0], q), codes().ClassicalCode(parts[1], q))
    forms = [codes().QuditCode(full(*x), q) for x in ((hx, hz), parts)]
    for cls in (codes().CSSCode, codes().QuditCode):
        for a in (code, forms[0]):
            for b in (other, forms[1]):
                c.equal(bool(cls.equiv(a, b)), same, f"equivalence ({kind})")
                c.equal(bool(cls.equiv(b, a)), same, f"equivalence ({kind}), in the other order")
    identical = np.array_equal(parts[0], hx) and np.array_equal(parts[1], hz)
    c.equal(code == other, identical, "equality of CSS codes")
    c.equal(forms[0] == forms[1], np.array_equal(full(hx, hz), full(*parts)), "equality of codes")
    other_field = codes().CSSCode(np.eye(1, n, dtype=int), np.zeros((0, n), dtype=int), 3 if q != 3 else 2)
    util.foreign_equality(c, code, code.code_x, other_field)
    util.foreign_equality(c, forms[0], forms[0].matrix.tolist(), other_field)
    for mixed in (code == forms[0], forms[0] == code, code == forms[1]):
        c.require(mixed in (True, False), "comparison of a CSS code with its symplectic form")
    c.require(not (code == forms[1]) or np.array_equal(full(hx, hz), full(*parts)), "equality of different codes")
