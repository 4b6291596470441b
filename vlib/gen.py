"""Hypothesis strategies producing plain JSON data."""

from __future__ import annotations

import random
from typing import Any

import numpy as np
from hypothesis import strategies as st

from . import ff

FIELDS = (2, 3, 4, 5, 7, 8, 9)
SMALL_FIELDS = (2, 3, 4, 5)

# ways to spoil logical operators, see quantum.supplied_logicals
CORRUPTIONS = (
    ["no"] * 2 + ["entry"] + ["add"] * 2 + ["same"] + ["check"] * 2 + ["drop", "swap", "scale"]
)


def field_orders(choices: tuple[int, ...] = FIELDS) -> Any:
    """Binary fields half of the time."""
    others = tuple(q for q in choices if q != 2)
    if 2 not in choices or not others:
        return st.sampled_from(choices)
    return st.one_of(st.just(2), st.sampled_from(others))


def row(q: int, cols: int) -> Any:
    """A vector: dense, or sparse."""
    if cols == 0:
        return st.just([])
    chunk = 1
    while q ** (chunk + 1) <= 2**20:
        chunk += 1

    def decode(numbers: list[int]) -> list[int]:
        out: list[int] = []
        for number in numbers:
            for _ in range(chunk):
                out.append(number % q)
                number //= q
        return out[:cols]

    num_chunks = -(-cols // chunk)
    dense = st.tuples(*[st.integers(0, q**chunk - 1)] * num_chunks).map(lambda t: decode(list(t)))

    def place(entries: list[list[int]]) -> list[int]:
        vec = [0] * cols
        for pos, val in entries:
            vec[pos] = val
        return vec

    sparse = st.lists(
        st.tuples(st.integers(0, cols - 1), st.integers(1, q - 1)).map(list), max_size=4
    ).map(place)
    return st.one_of(dense, dense, sparse)


def noise(draw: Any, field: ff.Field, rows: list[list[int]]) -> list[list[int]]:
    """Half of the time, add a pseudo-random matrix (a function of one drawn number) to the rows.

    Hypothesis favours simple values; this makes dense, structureless matrices common as well.
    """
    if not rows or not rows[0] or not draw(st.booleans()):
        return rows
    rng = random.Random(draw(st.integers(1, 2**20)))
    return [[int(field.add[x, rng.randrange(field.q)]) for x in vec] for vec in rows]


@st.composite
def matrix(
    draw: Any,
    q: int,
    min_rows: int = 1,
    max_rows: int = 5,
    min_cols: int = 1,
    max_cols: int = 8,
    degenerate: bool = True,
) -> list[list[int]]:
    """A matrix, possibly with dependent / repeated / zero rows and zero / repeated columns."""
    num_cols = draw(st.integers(min_cols, max_cols))
    num_rows = draw(st.integers(min_rows, max_rows))
    rows = [draw(row(q, num_cols)) for _ in range(num_rows)]
    field = ff.get(q)
    rows = noise(draw, field, rows)
    if degenerate:
        for kind in draw(st.lists(st.integers(0, 4), max_size=2)):
            r = draw(st.integers(0, max(num_rows - 1, 0)))
            c = draw(st.integers(0, max(num_cols - 1, 0)))
            if kind == 0 and num_rows:
                rows[r] = [0] * num_cols
            elif kind == 1 and num_rows > 1:
                other = draw(st.integers(0, num_rows - 1))
                scale = draw(st.integers(1, q - 1))
                rows[r] = [int(field.mul[scale, x]) for x in rows[other]]
            elif kind == 2 and num_rows > 2:
                i, j = draw(st.integers(0, num_rows - 1)), draw(st.integers(0, num_rows - 1))
                rows[r] = [int(field.add[x, y]) for x, y in zip(rows[i], rows[j])]
            elif kind == 3 and num_cols:
                for vec in rows:
                    vec[c] = 0
            elif kind == 4 and num_cols > 1:
                other = draw(st.integers(0, num_cols - 1))
                for vec in rows:
                    vec[c] = vec[other]
    return rows


def symplectic_gate(draw: Any, field: ff.Field, n: int) -> tuple:
    """A random elementary symplectic operation on vectors [x|z] (generalised Clifford)."""
    kind = draw(st.integers(0, 3 if n > 1 else 2))
    a = draw(st.integers(0, n - 1))
    if kind == 3:
        b = draw(st.integers(0, n - 2))
        b += b >= a
        return (kind, a, b, draw(st.integers(1, field.q - 1)))
    return (kind, a, a, draw(st.integers(1, field.q - 1)))


def symplectic_circuit(draw: Any, field: ff.Field, n: int) -> list[tuple]:
    """A circuit of elementary symplectic operations; half of the time a long structureless one."""
    if draw(st.booleans()):
        rng = random.Random(draw(st.integers(0, 2**20)))
        gates: list[tuple] = []
        for _ in range(rng.randrange(2 * n, 8 * n)):
            kind = rng.choice((0, 1, 2, 3, 3, 3) if n > 1 else (0, 1, 2))
            a = rng.randrange(n)
            b = (a + rng.randrange(1, n)) % n if n > 1 else a
            gates.append((kind, a, b, rng.randrange(1, field.q)))
        return gates
    return [symplectic_gate(draw, field, n) for _ in range(draw(st.integers(0, 4 * n)))]


def apply_symplectic(field: ff.Field, vecs: Any, gates: Any) -> Any:
    """Apply elementary symplectic operations, each preserving all symplectic products."""
    out = field.arr(vecs).copy()
    n = out.shape[1] // 2
    for kind, a, b, c in gates:
        xa, za = out[:, a].copy(), out[:, n + a].copy()
        if kind == 0:  # Fourier transform
            out[:, a], out[:, n + a] = field.neg[za], xa
        elif kind == 1:  # phase gate
            out[:, n + a] = field.add[za, field.mul[c, xa]]
        elif kind == 2:  # multiplication gate
            out[:, a] = field.mul[c, xa]
            out[:, n + a] = field.mul[field.inv[c], za]
        else:  # sum gate: x_b += c x_a ; z_a -= c z_b
            out[:, b] = field.add[out[:, b], field.mul[c, xa]]
            out[:, a + n] = field.minus(za, field.mul[c, out[:, n + b]])
    return out


@st.composite
def stabilizer_matrix(
    draw: Any, q: int, min_n: int = 1, max_n: int = 5, redundant: bool = True, min_k: int = 0
) -> dict:
    """Generators of a random stabilizer group: Clifford images of Z_1, ..., Z_r (plus redundancy).

    Returns {"n", "rows"}.  The group is arbitrary: every stabilizer group is reachable.
    """
    field = ff.get(q)
    n = draw(st.integers(min_n, max_n))
    r = draw(st.integers(0, n - min_k)) if n > min_k else 0
    base = [[0] * (2 * n) for _ in range(r)]
    for j in range(r):
        base[j][n + j] = 1
    gates = symplectic_circuit(draw, field, n)
    rows = apply_symplectic(field, field.arr(base).reshape(r, 2 * n), gates)
    return {"n": n, "rows": mix_rows(draw, field, rows, redundant)}


@st.composite
def gauge_matrix(
    draw: Any, q: int, min_n: int = 1, max_n: int = 5, min_gauge: int = 0, min_k: int = 0
) -> dict:
    """Generators of a random gauge group: Clifford image of Z_1..Z_s, X_s+1, Z_s+1, ..."""
    field = ff.get(q)
    n = draw(st.integers(max(min_n, min_gauge + min_k), max_n))
    g = draw(st.integers(min_gauge, n - min_k))
    s = draw(st.integers(0, n - min_k - g))
    base = []
    for j in range(s):
        vec = [0] * (2 * n)
        vec[n + j] = 1
        base.append(vec)
    for j in range(s, s + g):
        for offset in (0, n):
            vec = [0] * (2 * n)
            vec[offset + j] = 1
            base.append(vec)
    gates = symplectic_circuit(draw, field, n)
    rows = apply_symplectic(field, field.arr(base).reshape(len(base), 2 * n), gates)
    return {"n": n, "s": s, "g": g, "rows": mix_rows(draw, field, rows, True)}


def mix_rows(draw: Any, field: ff.Field, rows: Any, redundant: bool) -> list[list[int]]:
    """Change generators without changing the group; optionally add redundant generators."""
    rows = field.arr(rows)
    r = len(rows)
    if r > 1:
        for _ in range(draw(st.integers(0, 2 * r))):
            i, j = draw(st.integers(0, r - 1)), draw(st.integers(0, r - 2))
            j += j >= i
            c = draw(st.integers(1, field.q - 1))
            rows[i] = field.add[rows[i], field.mul[c, rows[j]]]
    out = rows.tolist()
    if redundant and draw(st.integers(0, 2)) == 0:
        for _ in range(draw(st.integers(1, 2))):
            coeffs = [draw(st.integers(0, field.q - 1)) for _ in range(r)]
            vec = field.matmul(coeffs, rows).tolist() if r else [0] * rows.shape[1]
            out.insert(draw(st.integers(0, len(out))), vec)
    return out


@st.composite
def css_matrices(
    draw: Any,
    q: int,
    min_n: int = 1,
    max_n: int = 7,
    min_k: int = 0,
    redundant: bool = True,
) -> dict:
    """Commuting X-type and Z-type checks: H_z is drawn from the null space of H_x."""
    field = ff.get(q)
    n = draw(st.integers(min_n, max_n))
    rx = draw(st.integers(0, max(0, n - min_k)))
    hx = field.arr(noise(draw, field, [draw(row(q, n)) for _ in range(rx)])).reshape(rx, n)
    null = field.null_space(hx)
    rz = draw(st.integers(0, max(0, len(null) - min_k)))
    coeffs = noise(draw, field, [draw(row(q, len(null))) for _ in range(rz)])
    coeffs = field.arr(coeffs).reshape(rz, len(null))
    hz = field.matmul(coeffs, null) if len(null) else field.arr([]).reshape(0, n)
    if draw(st.booleans()):
        hx, hz = hz, hx
    return {
        "n": n,
        "hx": mix_rows(draw, field, hx, redundant),
        "hz": mix_rows(draw, field, hz, redundant),
    }


def permutation(n: int) -> Any:
    return st.permutations(list(range(n))).map(list)


@st.composite
def any_code(
    draw: Any, q: int, min_n: int = 1, max_n: int = 5, min_k: int = 0, css: bool | None = None
) -> dict:
    """Plain data of a stabilizer or subsystem code, as a CSS or a general code.

    The code may have logical operators that were queried, or set by the user, before its use.
    """
    is_css = draw(st.booleans()) if css is None else css
    case: dict
    if is_css:
        data = draw(css_matrices(q, min_n, max_n, min_k))
        case = {"n": data["n"], "hx": data["hx"], "hz": data["hz"]}
        if draw(st.integers(0, 3)) == 0 and data["n"] > min_k + 1:
            case["hx" if draw(st.booleans()) else "hz"].append(draw(row(q, data["n"])))
    else:
        if draw(st.booleans()):
            data = draw(gauge_matrix(q, max(min_n, min_k), max_n, 0, min_k))
        else:
            data = draw(stabilizer_matrix(q, max(min_n, min_k), max_n, True, min_k))
        case = {"n": data["n"], "rows": data["rows"]}
    case["q"] = q
    case["preset"] = draw(st.sampled_from(["none", "queried", "supplied"]))
    case["seed"] = draw(st.integers(0, 2**30))
    return case


def violating_vector(field: Any, checks: Any, fixed: Any, rng: np.random.Generator) -> Any:
    """A vector v for which fixed @ v = 0, and that violates exactly one check of a basis of checks.

    The basis consists of canonical rows, or of the first (last, any) independent rows.  Returns None
    if there is no such vector.
    """
    checks = np.asarray(checks, dtype=int)
    fixed = np.asarray(fixed, dtype=int).reshape(-1, checks.shape[1])
    order = int(rng.integers(4))
    if order == 0:
        basis = field.rref(checks)
    else:
        rows = list(range(len(checks)))
        if order == 2:
            rows = rows[::-1]
        elif order == 3:
            rows = list(rng.permutation(len(checks)))
        chosen: list[int] = []
        for row in rows:
            if field.rank(checks[chosen + [row]]) > len(chosen):
                chosen.append(row)
        basis = checks[chosen]
    if not len(basis):
        return None
    last = int(rng.choice([len(basis) - 1, len(basis) - 1, 0, rng.integers(len(basis))]))
    kept = np.vstack([fixed, np.delete(basis, last, axis=0)])
    vectors = field.null_space(kept)
    vectors = [v for v in vectors if field.matmul(basis[last : last + 1], v[:, None]).any()]
    if not vectors:
        return None
    return field.mul[int(rng.integers(1, field.q)), vectors[int(rng.integers(len(vectors)))]]
