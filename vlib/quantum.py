"""Complete consistency check of a quantum code object against a reference description."""

from __future__ import annotations

from typing import Any

import numpy as np

from . import ff, util
from .core import Context
from .gen import apply_symplectic, violating_vector


def is_rref(field: ff.Field, matrix: np.ndarray) -> bool:
    """Reduced row echelon form without zero rows."""
    reduced = field.rref(matrix)
    return reduced.shape == matrix.shape and bool(np.all(reduced == matrix))


def check_code(
    c: Context,
    code: Any,
    rows: np.ndarray,
    n: int,
    q: int,
    *,
    what: str = "code",
    subsystem: bool | None = None,
    exact_rows: bool = True,
    gauge: bool = True,
    standard_form: bool = False,
) -> dict:
    """Check all derived data of a code whose checks must generate the row space of `rows`."""
    from qldpc.codes import CSSCode
    from qldpc.objects import Pauli

    field = ff.get(q)
    rows = util.mat(rows, 2 * n) if not isinstance(rows, np.ndarray) else rows
    c.equal(code.field.order, q, f"{what}: field")
    c.equal(len(code), n, f"{what}: length")
    c.equal(code.num_qudits, n, f"{what}: num_qudits")
    matrix = util.ints(code.matrix, (None, 2 * n), f"{what}: checks", q)
    if exact_rows:
        c.equal(matrix, rows, f"{what}: checks")
    else:
        c.require(field.same_span(matrix, rows), f"{what}: checks generate another group")
    center = field.center(rows)
    s, r = len(center), field.rank(rows)
    g = (r - s) // 2
    k = n - s - g
    commuting = g == 0
    if subsystem is None:
        subsystem = not commuting
    c.equal(bool(code.is_subsystem_code), subsystem, f"{what}: is_subsystem_code")
    c.equal(int(code.rank), r, f"{what}: rank")
    c.equal(int(code.dimension), k, f"{what}: dimension")
    c.equal(int(code.gauge_dimension), g, f"{what}: gauge dimension")
    c.equal(int(code.num_checks), len(matrix), f"{what}: number of checks")

    # stabilizers
    stabs = util.ints(code.get_stabilizer_ops(), (None, 2 * n), f"{what}: stabilizers", q)
    c.require(field.same_span(stabs, center), f"{what}: stabilizers are not the centre", stabs)
    if not subsystem and not isinstance(code, CSSCode):
        c.equal(stabs, matrix, f"{what}: stabilizers of a stabilizer code")
    canon = util.ints(
        code.get_stabilizer_ops(canonicalized=True), (s, 2 * n), f"{what}: canonical stabilizers", q
    )
    c.equal(canon, center, f"{what}: canonical stabilizers")
    again = code.get_stabilizer_ops(recompute=True)
    again = util.ints(again, (None, 2 * n), f"{what}: recomputed stabilizers", q)
    c.require(field.same_span(again, center), f"{what}: recomputed stabilizers", again)

    # logical operators
    logicals = util.ints(code.get_logical_ops(), (2 * k, 2 * n), f"{what}: logical ops", q)
    check_logicals(c, field, logicals, rows, what)
    halves = []
    for pauli in (Pauli.X, Pauli.Z):
        if isinstance(code, CSSCode):
            half = code.get_logical_ops(pauli, symplectic=True)
            short = util.ints(code.get_logical_ops(pauli), (k, n), f"{what}: {pauli} logicals", q)
        else:
            half = code.get_logical_ops(pauli)
            short = None
        half = util.ints(half, (k, 2 * n), f"{what}: {pauli} logicals", q)
        halves.append(half)
        if short is not None:
            start = 0 if pauli is Pauli.X else n
            c.equal(half[:, start : start + n], short, f"{what}: short {pauli} logicals")
            c.require(
                np.count_nonzero(half) == np.count_nonzero(short),
                f"{what}: {pauli} logicals of a CSS code have mixed type",
            )
    c.equal(np.vstack(halves), logicals, f"{what}: logical ops by type")

    # gauge operators
    gauge_ops = np.zeros((0, 2 * n), dtype=int)
    if gauge:
        gauge_ops = util.ints(code.get_gauge_ops(), (2 * g, 2 * n), f"{what}: gauge ops", q)
        util.check_conjugate_pairs(c, field, gauge_ops, f"{what}: gauge ops")
        c.require(
            field.same_span(np.vstack([gauge_ops, center]), rows),
            f"{what}: gauge ops and stabilizers do not generate the gauge group",
            gauge_ops,
        )
        c.require(
            not field.symp(gauge_ops, logicals).any(), f"{what}: gauge vs logical operators"
        )
        for index, pauli in enumerate((Pauli.X, Pauli.Z)):
            expected = gauge_ops[index * g : (index + 1) * g]
            if isinstance(code, CSSCode):
                half = code.get_gauge_ops(pauli, symplectic=True)
                short = util.ints(code.get_gauge_ops(pauli), (g, n), f"{what}: {pauli} gauge", q)
                c.equal(expected[:, index * n : (index + 1) * n], short, f"{what}: gauge ops")
                c.require(
                    np.count_nonzero(expected) == np.count_nonzero(short),
                    f"{what}: {pauli} gauge ops of a CSS code have mixed type",
                )
            else:
                half = code.get_gauge_ops(pauli)
            half = util.ints(half, (g, 2 * n), f"{what}: {pauli} gauge ops", q)
            c.equal(half, expected, f"{what}: gauge ops by type")

    if standard_form:
        check_standard_form(c, code, field, rows, center, n, k, g, what)

    # queries leave the checks alone
    c.equal(
        util.ints(code.matrix, matrix.shape, f"{what}: checks", q), matrix, f"{what}: checks after"
    )
    return dict(k=k, g=g, s=s, r=r, logicals=logicals, center=center, gauge_ops=gauge_ops)


def check_logicals(
    c: Context, field: ff.Field, logicals: np.ndarray, rows: np.ndarray, what: str
) -> None:
    if len(rows):
        c.require(
            not field.symp(rows, logicals).any(), f"{what}: logical operators violate checks", logicals
        )
    util.check_conjugate_pairs(c, field, logicals, f"{what}: logical ops")


def indices(cols: Any, n: int) -> list[int]:
    """Explicit indices of a slice or index array."""
    return [int(x) for x in np.arange(n)[cols if not isinstance(cols, list) else np.array(cols, dtype=int)]]


def check_standard_form(
    c: Context,
    code: Any,
    field: ff.Field,
    rows: np.ndarray,
    center: np.ndarray,
    n: int,
    k: int,
    g: int,
    what: str,
) -> None:
    """The documented block structure of QuditCode.get_standard_form_data."""
    from qldpc.codes import QuditCode

    q, r = field.q, field.rank(rows)
    rank_x = field.rank(rows[:, :n])
    stab_rank_x = field.rank(center[:, :n]) if len(center) else 0
    if rank_x - stab_rank_x != g:
        # no matrix of the documented form generates these checks
        c.label("no standard form")
        c.raises(
            ValueError, lambda: QuditCode.get_standard_form_data(code), f"{what}: standard form"
        )
        return
    c.label("standard form")
    data = QuditCode.get_standard_form_data(code)
    matrix, locs, row_sectors, col_sectors = data
    check_form_blocks(
        c,
        field,
        util.ints(np.asarray(matrix)[:, 0, :], (r, n), f"{what}: standard form", q),
        util.ints(np.asarray(matrix)[:, 1, :], (r, n), f"{what}: standard form", q),
        locs,
        row_sectors,
        col_sectors,
        dict(n=n, k=k, g=g, rank_x=rank_x, stab_rank_x=stab_rank_x, s=len(center)),
        what,
    )
    row_indices = [indices(sector, r) for sector in row_sectors]
    c.equal(sorted(sum(row_indices, [])), list(range(r)), f"{what}: row sectors")
    rx, gx, rz, gz = row_indices
    plain = np.array(np.asarray(matrix).view(np.ndarray)).astype(int)
    c.require(not plain[rz + gz, 0, :].any(), f"{what}: X support in Z-type rows")
    inverse = np.argsort(np.asarray(locs))
    original = plain[:, :, inverse].reshape(r, 2 * n)
    c.require(field.same_span(original, rows), f"{what}: standard form generates another group")
    c.require(
        field.same_span(original[rx + rz], center), f"{what}: stabilizer rows of the standard form"
    )


def check_form_blocks(
    c: Context,
    field: ff.Field,
    matrix_x: np.ndarray,
    matrix_z: np.ndarray,
    locs: Any,
    row_sectors: Any,
    col_sectors: Any,
    numbers: dict,
    what: str,
) -> None:
    n, k, g = numbers["n"], numbers["k"], numbers["g"]
    c.equal(sorted(map(int, locs)), list(range(n)), f"{what}: qudit locations")
    rsx, rgx, rsz, rgz = (
        indices(sector, len(mat))
        for sector, mat in zip(row_sectors, (matrix_x, matrix_x, matrix_z, matrix_z))
    )
    csx, cgx, clx, csz, cgz, clz = (indices(sector, n) for sector in col_sectors)
    c.equal(len(rsx), numbers["stab_rank_x"], f"{what}: number of X-type stabilizer rows")
    c.equal(len(rsx) + len(rsz), numbers["s"], f"{what}: number of stabilizer rows")
    c.equal([len(rgx), len(rgz)], [g, g], f"{what}: number of gauge rows")
    c.equal([len(clx), len(clz)], [k, k], f"{what}: number of logical columns")
    c.equal(sorted(csx + csz + cgx + clx), list(range(n)), f"{what}: X column sectors")
    c.equal(sorted(csx + csz + cgz + clz), list(range(n)), f"{what}: Z column sectors")
    for name, mat, r, cols in (
        ("S_X", matrix_x, rsx, csx),
        ("G_X", matrix_x, rgx, cgx),
        ("S_Z", matrix_z, rsz, csz),
        ("G_Z", matrix_z, rgz, cgz),
    ):
        block = mat[np.ix_(r, cols)]
        c.equal(block, np.eye(len(r), dtype=int), f"{what}: identity block {name}")
    c.require(not matrix_x[np.ix_(rgx, csx)].any(), f"{what}: zero block (G_X, S_X)")
    c.require(not matrix_z[np.ix_(rgz, csz)].any(), f"{what}: zero block (G_Z, S_Z)")


def code_rows(case: dict) -> np.ndarray:
    """Full symplectic check matrix of a code drawn by gen.any_code."""
    n = case["n"]
    if "rows" in case:
        return util.mat(case["rows"], 2 * n)
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    return np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])


def dimensions(field: ff.Field, rows: np.ndarray) -> tuple[int, int, int]:
    """Numbers of stabilizers, gauge qudits and logical qudits."""
    n = rows.shape[1] // 2
    s = len(field.center(rows))
    g = (field.rank(rows) - s) // 2
    return s, g, n - s - g


def build(case: dict) -> Any:
    """Build a code drawn by gen.any_code."""
    from qldpc import codes

    from . import gen

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    if "rows" in case:
        code = codes.QuditCode(util.mat(case["rows"], 2 * n), q)
    else:
        code = codes.CSSCode(util.mat(case["hx"], n), util.mat(case["hz"], n), q)
    if case["preset"] == "queried":
        code.get_logical_ops()
    elif case["preset"] == "supplied":
        rng = np.random.default_rng(case["seed"])
        old = util.ints(code.get_logical_ops(), (None, 2 * n), "logical ops", q)
        k = len(old) // 2
        if not k:
            return code
        if "rows" in case:
            gates = []
            for _ in range(4 * k):
                a = int(rng.integers(k))
                kind = int(rng.integers(4 if k > 1 else 3))
                b = (a + int(rng.integers(1, k))) % k if kind == 3 else a
                gates.append((kind, a, b, int(rng.integers(1, q))))
            new = field.matmul(gen.apply_symplectic(field, np.eye(2 * k, dtype=int), gates), old)
            center = field.center(code_rows(case))
            if len(center):
                coeffs = rng.integers(0, q, (2 * k, len(center)))
                new = field.add[new, field.matmul(coeffs, center)]
            code.set_logical_ops(new)
        else:
            change = np.eye(k, dtype=int)
            for _ in range(3 * k):
                i, j = rng.integers(k), rng.integers(k)
                if i != j:
                    change[i] = field.add[change[i], field.mul[rng.integers(q), change[j]]]
            change = field.mul[int(rng.integers(1, q)), change]
            code.set_logical_ops_xz(
                field.matmul(change, old[:k, :n]),
                field.matmul(field.inverse(change).T, old[k:, n:]),
            )
    return code


def css_min_distance(field: ff.Field, own: np.ndarray, other: np.ndarray) -> int | None:
    """Least weight of an operator of one Pauli type that commutes with all stabilizers of the other
    type and is not in the gauge group, where own and other are the gauge generators of that type
    and of the other type.  Lists all such operators."""
    n = own.shape[1]
    own = field.rref(own)
    # stabilizers of the other type: combinations of `other` that commute with `own`
    other = field.rref(other)
    if len(other) and len(own):
        coeffs = field.null_space(field.matmul(own, other.T))
        stabs = field.matmul(coeffs, other) if len(coeffs) else other[:0]
    else:
        stabs = other
    kernel = field.null_space(stabs) if len(stabs) else np.eye(n, dtype=int)
    logical = []  # complete the gauge operators to a basis of the kernel
    basis, rank = own, len(own)
    for vec in kernel:
        grown = field.rref(np.vstack([basis, vec]))
        if len(grown) > rank:
            basis, rank = grown, len(grown)
            logical.append(vec)
    if not logical:
        return None
    if field.q ** len(kernel) > 2**22:
        return css_min_distance_by_weight(field, field.null_space(own), stabs)
    best = n + 1
    if field.q == 2 and n <= 63:
        weights = 1 << np.arange(n, dtype=np.uint64)
        words = np.zeros(1, dtype=np.uint64)
        for vec in own:
            words = np.concatenate([words, words ^ np.uint64((vec.astype(np.uint64) * weights).sum())])
        packed = [np.uint64((vec.astype(np.uint64) * weights).sum()) for vec in logical]
        shift = np.uint64(0)
        for index in range(1, 2 ** len(logical)):  # Gray code order
            shift ^= packed[(index & -index).bit_length() - 1]
            best = min(best, int(np.bitwise_count(words ^ shift).min()))
        return best
    words = field.span(own) if len(own) else np.zeros((1, n), dtype=int)
    for coeffs in field.all_vectors(len(logical))[1:]:
        if coeffs[np.nonzero(coeffs)[0][0]] != 1:
            continue  # a scalar multiple of another combination, up to gauge operators
        vec = field.matmul(coeffs, np.array(logical))
        best = min(best, int(np.count_nonzero(field.add[words, vec], axis=1).min()))
    return best


def css_min_distance_by_weight(field: ff.Field, tests: np.ndarray, stabs: np.ndarray) -> int:
    """Least weight of v with stabs @ v = 0 and tests @ v != 0, going through all v by weight."""
    n = stabs.shape[1]
    assert field.q == 2 and max(len(tests), len(stabs)) < 64
    cols = []
    for mat in (stabs, tests):
        weights = 1 << np.arange(len(mat), dtype=np.uint64)
        cols.append([np.uint64((mat[:, j].astype(np.uint64) * weights).sum()) for j in range(n)])
    # images of all errors of one weight, sorted by the last qudit in their support
    level: list[tuple] = [(np.zeros(1, dtype=np.uint64), np.zeros(1, dtype=np.uint64))] + [
        (np.zeros(0, dtype=np.uint64), np.zeros(0, dtype=np.uint64)) for _ in range(n)
    ]
    for weight in range(1, n + 1):
        new: list[tuple] = [(np.zeros(0, dtype=np.uint64),) * 2]
        for j in range(n):
            before = [np.concatenate([lev[i] for lev in level[: j + 1]]) for i in (0, 1)]
            new.append((before[0] ^ cols[0][j], before[1] ^ cols[1][j]))
        total = sum(len(lev[0]) for lev in new)
        assert total < 10**7, "too many operators to list"
        if any(bool(((lev[0] == 0) & (lev[1] != 0)).any()) for lev in new):
            return weight
        level = new
    raise AssertionError("no logical operator")


def supplied_logicals(c: Any, case: dict, code: Any, rows: np.ndarray, n: int, q: int) -> None:
    """Supplied logical operators are accepted exactly if they satisfy all relations."""
    field = ff.get(q)
    old = util.ints(code.get_logical_ops(), (None, 2 * n), "logical ops", q)
    k = len(old) // 2
    # a symplectic change of basis: rows of the basis-change matrix are images of unit vectors
    change = apply_symplectic(field, np.eye(2 * k, dtype=int), case["gates"])
    new = field.matmul(change, old)
    stabs = field.center(rows)
    if len(stabs):
        coeffs = np.asarray(case["coeffs"], dtype=int).reshape(2 * k, -1)[:, : len(stabs)]
        new = field.add[new, field.matmul(coeffs, stabs[: coeffs.shape[1]])]
    a, b, d = case["numbers"]
    kind = case["corrupt"]
    if kind == "entry":
        new[a % (2 * k), b % (2 * n)] = d % q
    elif kind == "add":
        i, j = a % (2 * k), b % (2 * k)
        if i != j:
            new[i] = field.add[new[i], field.mul[1 + d % (q - 1), new[j]]]
    elif kind == "same" and k > 1:
        # violates only relations between operators of the same type
        i, j = a % k, b % k
        if i != j:
            half = k * (d % 2)
            new[half + i] = field.add[new[half + i], new[(k - half) + j]]
    elif kind == "check":
        # violates only one check
        form = field.symp(np.vstack([new, rows]), np.eye(2 * n, dtype=int))
        vector = violating_vector(field, form[2 * k :], form[: 2 * k], np.random.default_rng(b))
        if vector is not None:
            new[a % (2 * k)] = field.add[new[a % (2 * k)], vector]
    elif kind == "drop":
        keep = [i for i in range(2 * k) if i % k != a % k]
        new = new[keep]
    elif kind == "swap":
        new = np.vstack([new[k:], new[:k]])
    elif kind == "scale":
        new[a % (2 * k)] = field.mul[1 + d % (q - 1), new[a % (2 * k)]]
    products = field.symp(new, new) if len(new) else np.zeros((0, 0), dtype=int)
    half = len(new) // 2
    expected = np.zeros((len(new), len(new)), dtype=int)
    for i in range(half):
        expected[i, i + half], expected[i + half, i] = 1, field.neg[1]
    valid = half == k and bool(np.all(products == expected))
    if len(rows):
        valid = valid and not field.symp(rows, new).any()
    c.label(kind, "valid" if valid else "invalid")
    if valid:
        code.set_logical_ops(new.tolist() if a % 2 and len(new) else new.copy())
        c.equal(util.ints(code.get_logical_ops(), new.shape, "ops", q), new, "ops after setting")
        check_code(
            c, code, rows, n, q, subsystem=case.get("flag"), what="code with supplied logical ops"
        )
        if a % 3 == 0:
            again = code.get_logical_ops(recompute=True)
        else:
            from qldpc.objects import Pauli

            code.get_logical_ops((Pauli.X, Pauli.Z)[b % 2], recompute=True)
            again = code.get_logical_ops()
        c.equal(util.ints(again, old.shape, "ops", q), old, "supplied ops are replaced when recomputing")
    else:
        c.raises(ValueError, lambda: code.set_logical_ops(new.copy()), "invalid logical operators")
        c.equal(util.ints(code.get_logical_ops(), old.shape, "ops", q), old, "ops after rejection")
        c.equal(int(code.dimension), k, "dimension after rejection")
