"""C12: named quantum code families have the parameters they promise."""

from __future__ import annotations

import itertools
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C12",
    "Every named family, enumerated over sizes (rectangular, degenerate and odd ones included),"
    " orientations, layouts and fields F_2,3,4,5,7,8,9 up to about 40 qubits (10^6 operators per Pauli"
    " type), plus random sets of conjugated qudits.  The oracle lists all operators of each type.  "
    "Non-trivial: at least 4 qudits and distance at least 2 for one Pauli type.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


def make(case: dict) -> Any:
    kind, args, kwargs = case["family"], case["args"], dict(case.get("kwargs", {}))
    return getattr(codes(), kind)(*args, **kwargs)


def grids(tier: str) -> list[dict]:
    cases: list[dict] = []
    limit = (
        {2: 16, 3: 9, 4: 7, 5: 6, 7: 5, 8: 5, 9: 5}
        if tier == "quick"
        else {2: 20, 3: 11, 4: 9, 5: 8, 7: 7, 8: 6, 9: 6}
    )

    def add(family: str, rows: int, cols: int, q: int, **kwargs: Any) -> None:
        cases.append(dict(family=family, args=[rows, cols, q], kwargs=kwargs, q=q))
        if rows == cols:  # the second size defaults to the first
            kwargs = dict(kwargs, field=q) if q != 2 else kwargs
            if family != "BaconShorCode" or q == 2:
                cases.append(dict(family=family, args=[rows], kwargs=kwargs, q=q))

    for q, rows, cols in itertools.product(limit, range(1, 9), range(1, 9)):
        size = rows * cols
        if q > 5 and (min(rows, cols) == 1 and size > 5 or size == 10):
            continue  # too many operators
        for rotated in (True, False):
            n = size if rotated else size + (rows - 1) * (cols - 1)
            if (n + 1) / 2 <= limit[q]:
                add("SurfaceCode", rows, cols, q, rotated=rotated)
            n = size if rotated else 2 * size
            if n / 2 + 1 <= limit[q] and not (rotated and (rows % 2 or cols % 2)):
                add("ToricCode", rows, cols, q, rotated=rotated)
        if size <= {2: limit[2], 3: 6}.get(q, 4):
            add("BaconShorCode", rows, cols, q)
            add("BaconShorCode", rows, cols, q, set_logicals=False)
    return cases


def small_families(tier: str) -> list[dict]:
    cases: list[dict] = [
        dict(family="FiveQubitCode", args=[]),
        dict(family="SteaneCode", args=[]),
        dict(family="C4Code", args=[]),
        dict(family="C6Code", args=[]),
    ]
    for size in range(1, 10 if tier == "quick" else 12):
        for alternative in (False, True):
            kwargs = {"alternative_logicals": alternative}
            cases.append(dict(family="IcebergCode", args=[size], kwargs=kwargs))
    for dim_x, dim_z in itertools.product((None, 2, 3), repeat=2):
        if dim_x is None:
            continue
        n = (2**dim_x - 1) * (2 ** (dim_z or dim_x) - 1)
        if n > 63 or dim_x + (dim_z or dim_x) > (5 if tier == "quick" else 6):
            continue
        for set_logicals in (True, False):
            args = [dim_x] if dim_z is None else [dim_x, dim_z]
            cases.append(
                dict(family="SHYPSCode", args=args, kwargs={"set_logicals": set_logicals})
            )
    for size, dim, periodic, q in itertools.product(
        (1, 2, 3, 4, 5), (2, 3, 4), (False, True), (2, 3, 4, 5, 7, 9)
    ):
        if periodic:
            n = dim * size**dim
        else:
            n = size**dim + (dim - 1) * size ** (dim - 2) * (size - 1) ** 2
        if n <= (30 if tier == "quick" else 36) if q == 2 else n <= (13 if q == 3 else 8):
            cases.append(
                dict(
                    family="GeneralizedSurfaceCode",
                    args=[size, dim] + ([q] if q > 2 else []),
                    kwargs={"periodic": periodic},
                    q=q,
                )
            )
    return cases


def expected_params(case: dict) -> tuple[int, int, Any, Any, bool]:
    """Documented parameters: length, dimension, X-distance, Z-distance, subsystem code."""
    family, args, kwargs = case["family"], case["args"], case.get("kwargs", {})
    if family == "FiveQubitCode":
        return 5, 1, 3, 3, False
    if family == "SteaneCode":
        return 7, 1, 3, 3, False
    if family == "C4Code":
        return 4, 2, 2, 2, False
    if family == "C6Code":
        return 6, 2, 2, 2, False
    if family == "IcebergCode":
        size = args[0]
        distance = 2 if size > 1 else None
        return 2 * size, 2 * size - 2, distance, distance, False
    if family == "SHYPSCode":
        dim_x, dim_z = args[0], args[-1]
        n = (2**dim_x - 1) * (2**dim_z - 1)
        return n, dim_x * dim_z, 2 ** (dim_z - 1), 2 ** (dim_x - 1), True
    if family == "GeneralizedSurfaceCode":
        size, dim = args[0], args[1]
        if kwargs["periodic"]:
            return dim * size**dim, dim, size ** (dim - 1), size, False
        # edges of a lattice: along one direction, or across two of the others
        n = size**dim + (dim - 1) * size ** (dim - 2) * (size - 1) ** 2
        return n, 1, size ** (dim - 1), size, False
    rows = args[0]
    cols = args[1] if len(args) > 1 else rows
    if family == "BaconShorCode":
        return rows * cols, 1, cols, rows, True
    rotated = kwargs["rotated"]
    if family == "SurfaceCode":
        n = rows * cols if rotated else rows * cols + (rows - 1) * (cols - 1)
        return n, 1, cols, rows, False
    assert family == "ToricCode"
    n = rows * cols if rotated else 2 * rows * cols
    return n, 2, min(rows, cols), min(rows, cols), False


def is_nan(value: Any) -> bool:
    return bool(value != value)


def check_params(case: dict, c: Context) -> None:
    """Parameters, by formula and by listing all operators of each type."""
    from qldpc.objects import Pauli

    q = case.get("q", 2)
    field = ff.get(q)
    what = f"{case['family']}{tuple(case['args'])}"
    c.label(case["family"], f"q={q}")
    code = make(case)
    n, k, distance_x, distance_z, subsystem = expected_params(case)
    c.equal(len(code), n, f"{what}: length")
    rows = util.ints(code.matrix, (None, 2 * n), f"{what}: checks", q)
    distances: dict = {}
    if case["family"] == "FiveQubitCode":
        from props import c09

        distances = {None: c09.dressed_distance(field, rows, n)}
    else:
        hx = util.ints(code.matrix_x, (None, n), f"{what}: X checks", q)
        hz = util.ints(code.matrix_z, (None, n), f"{what}: Z checks", q)
        full = np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])
        c.require(field.same_span(full, rows), f"{what}: check matrices disagree")
        distances[Pauli.X] = quantum.css_min_distance(field, hx, hz)
        distances[Pauli.Z] = quantum.css_min_distance(field, hz, hx)
        c.equal(distances[Pauli.X], distance_x, f"{what}: X distance of the checks")
        c.equal(distances[Pauli.Z], distance_z, f"{what}: Z distance of the checks")
        distances[None] = min(distances.values(), key=lambda d: -1 if d is None else d)
    expected = {Pauli.X: distance_x, Pauli.Z: distance_z}
    expected[None] = None if distance_x is None else min(distance_x, distance_z)
    c.equal(distances[None], expected[None], f"{what}: distance of the checks")
    for pauli, distance in distances.items():
        got = code.get_distance() if pauli is None else code.get_distance(pauli)
        if distance is None:
            c.require(is_nan(got), f"{what}: distance without logical qudits", got)
        else:
            c.equal(int(got), distance, f"{what}: reported {pauli} distance")
    c.equal(int(code.dimension), k, f"{what}: reported dimension")
    numbers = code.get_code_params()
    c.equal([int(numbers[0]), int(numbers[1])], [n, k], f"{what}: reported parameters")
    if expected[None] is not None:
        c.equal(int(numbers[2]), expected[None], f"{what}: reported parameters")
    c.nontrivial(n >= 4 and (distances[None] or 0) >= 1 and max(d or 0 for d in distances.values()) > 1)


def check_operators(case: dict, c: Context) -> None:
    """The code object is consistent, including operators that constructors supply."""
    q = case.get("q", 2)
    field = ff.get(q)
    what = f"{case['family']}{tuple(case['args'])}"
    code = make(case)
    n = len(code)
    rows = util.ints(code.matrix, (None, 2 * n), f"{what}: checks", q)
    subsystem = expected_params(case)[4]
    quantum.check_code(c, code, rows, n, q, what=what, subsystem=subsystem)
    if case["family"] == "IcebergCode":
        c.equal(rows[:1, :n], np.ones((1, n), dtype=int), f"{what}: X check")
        if case["kwargs"]["alternative_logicals"] and n == 6:
            # pairs of logical qubits with disjoint support
            ops = util.ints(code.get_logical_ops(), (8, 12), what, 2)
            support = (ops[:, :6] | ops[:, 6:]).reshape(2, 2, 2, 6)
            c.require(
                not support[:, 0, :, 3:].any() and not support[:, 1, :, :3].any(),
                f"{what}: supports of alternative logical operators",
                ops,
            )
    if "rotated" in case.get("kwargs", {}) and case["kwargs"]["rotated"]:
        check_layout(case, code, c, what)
    conjugate = default_conjugate(case)
    if conjugate is not None:
        # XZZX-type variants: X and Z are exchanged on one sublattice
        default = code.conjugated()
        mask = np.zeros(n, dtype=bool)
        mask[conjugate] = True
        image = rows.copy()
        x, z = rows[:, :n][:, mask], rows[:, n:][:, mask]
        image[:, :n][:, mask], image[:, n:][:, mask] = field.neg[z], x
        got = util.ints(default.matrix, rows.shape, f"{what}: conjugated checks", q)
        c.require(field.same_span(got, image), f"{what}: conjugated checks")
        c.equal(int(default.dimension), int(code.dimension), f"{what}: conjugated dimension")
        c.require(not field.symp(got, got).any(), f"{what}: conjugated checks do not commute")
        if "rotated" in case["kwargs"] and min(case["args"][:2]) > 2:
            # each bulk check has two X-type and two Z-type factors
            for row in got:
                support = np.count_nonzero(row[:n]), np.count_nonzero(row[n:])
                if sum(support) == 4:
                    c.equal(list(support), [2, 2], f"{what}: conjugated check is not of XZZX type")
    c.nontrivial(n >= 4)


def default_conjugate(case: dict) -> list[int] | None:
    """Every other qudit of a rotated code, or the second sector of an unrotated one."""
    if case["family"] not in ("SurfaceCode", "ToricCode"):
        return None
    rows = case["args"][0]
    cols = case["args"][1] if len(case["args"]) > 1 else rows
    if case["kwargs"]["rotated"]:
        return [r * cols + s for r in range(rows) for s in range(cols) if (r + s) % 2]
    if case["family"] == "ToricCode":
        return list(range(rows * cols, 2 * rows * cols))
    return list(range(rows * cols, rows * cols + (rows - 1) * (cols - 1)))


def check_layout(case: dict, code: Any, c: Context, what: str) -> None:
    """The documented arrangement of tiles of rotated codes."""
    rows = case["args"][0]
    cols = case["args"][1] if len(case["args"]) > 1 else rows
    periodic = case["family"] == "ToricCode"
    tiles: dict[int, set] = {0: set(), 1: set()}
    for row in range(0 if periodic else -1, rows):
        for col in range(0 if periodic else -1, cols):
            kind = (row + col) % 2  # 0 for X-type tiles
            corners = itertools.product((row, row + 1), (col, col + 1))
            if periodic:
                qubits = {(a % rows) * cols + b % cols for a, b in corners}
            else:
                qubits = {a * cols + b for a, b in corners if 0 <= a < rows and 0 <= b < cols}
                if len(qubits) == 1:
                    continue
                if kind == 0 and not 0 <= row < rows - 1:
                    continue
                if kind == 1 and not 0 <= col < cols - 1:
                    continue
            tiles[kind].add(frozenset(qubits))
    for kind, matrix in ((0, code.matrix_x), (1, code.matrix_z)):
        matrix = util.ints(matrix, (None, rows * cols), f"{what}: checks")
        supports = {frozenset(map(int, np.nonzero(row)[0])) for row in matrix}
        c.equal(
            sorted(map(sorted, supports)), sorted(map(sorted, tiles[kind])), f"{what}: tile layout"
        )


@PROP.test(cases=grids, shards=7)
def grid_parameters(case: dict, c: Context) -> None:
    check_operators(case, c)
    check_params(case, c)


@PROP.test(cases=small_families, shards=4)
def family_parameters(case: dict, c: Context) -> None:
    check_operators(case, c)
    check_params(case, c)


REJECTED = (
    [["ToricCode", [a, b], {"rotated": True}] for a in range(1, 8) for b in range(1, 8) if a % 2 or b % 2]
    + [["ToricCode", [a], {}] for a in (1, 3, 5, 7, 9)]
    + [["GeneralizedSurfaceCode", [a, b], {"periodic": p}] for a in (1, 2, 3) for b in (-1, 0, 1) for p in (True, False)]
    + [["SHYPSCode", [a], {}] for a in (0, 1, 8, 9)]
    + [["SHYPSCode", [2, a], {}] for a in (0, 1, 8)]
    + [["SHYPSCode", [a, 2], {}] for a in (0, 1, 8)]
)


@PROP.test(cases=lambda tier: REJECTED, shards=1)
def inadmissible_sizes(case: list, c: Context) -> None:
    name, args, kwargs = case
    c.raises(
        ValueError, lambda: getattr(codes(), name)(*args, **kwargs), f"{name}{tuple(args)} {kwargs}"
    )
    c.nontrivial()


@st.composite
def conjugations(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 3]))
    family = draw(
        st.sampled_from(["SurfaceCode", "ToricCode", "BaconShorCode", "SteaneCode", "C6Code"])
    )
    case: dict = {"family": family, "args": [], "kwargs": {}, "q": 2}
    if family in ("SurfaceCode", "ToricCode", "BaconShorCode"):
        rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3 if q == 2 else 2))
        if family != "BaconShorCode":
            case["kwargs"]["rotated"] = draw(st.booleans())
        if family == "ToricCode":
            rows, cols = (2, 2) if case["kwargs"]["rotated"] else (min(rows, 2), min(cols, 2))
        elif family == "SurfaceCode" and not case["kwargs"]["rotated"]:
            rows = min(rows, 2)
        if q == 3 and family == "ToricCode":
            rows = cols = 2
            case["kwargs"]["rotated"] = True
        case["args"], case["q"] = [rows, cols, q], q
    case["mask"] = draw(st.integers(0, 2**9 - 1))
    case["default"] = draw(st.booleans())
    return case


@PROP.test(conjugations, quick=150, shards=3)
def conjugated_parameters(case: dict, c: Context) -> None:
    """Conjugation changes neither the number of logical qudits nor the distance."""
    from props import c09

    q = case["q"]
    field = ff.get(q)
    code = make(case)
    n = len(code)
    if q ** (2 * n) > 4**9:
        # list operators of a smaller code instead
        n_limit = True
    else:
        n_limit = False
    what = f"conjugated {case['family']}{tuple(case['args'])}"
    if case["default"]:
        new = code.conjugated()
    else:
        new = code.conjugated([j for j in range(n) if case["mask"] >> j & 1])
    rows = util.ints(new.matrix, (None, 2 * n), what, q)
    k, distance_x, distance_z = expected_params(case)[1:4]
    s, g, dim = quantum.dimensions(field, rows)
    c.equal(dim, k, f"{what}: number of logical qudits of the checks")
    c.equal(int(new.dimension), k, f"{what}: number of logical qudits")
    expected = min(distance_x, distance_z)
    if not n_limit:
        if q ** (2 * n - s) <= 4**8 * 4:
            c.equal(c09.dressed_distance(field, rows, n), expected, f"{what}: distance of the checks")
        if q == 2:
            c.equal(int(new.get_distance()), expected, f"{what}: distance")
    ops = util.ints(new.get_logical_ops(), (2 * k, 2 * n), what, q)
    quantum.check_logicals(c, field, ops, rows, what)
    c.nontrivial(n >= 4 and expected > 1)
