"""C14: two-block, quasi-cyclic and bicycle codes match their polynomials and layouts."""

from __future__ import annotations

import itertools
import math
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C14",
    "Commuting and non-commuting matrix pairs over F_2,3,4,5 for two-block codes (up to 7x7);"
    " polynomials in one to three symbols with up to 5 terms, positive, negative and redundant"
    " exponents and any coefficients, with orders given as lists (in any of the documented ways)"
    " or dictionaries, on up to about 48 qudits; bicycle codes from the literature."
    "  Non-trivial: both polynomials (matrices) are non-zero and the group has at least 3 members.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


# ---------------------------------------------------------------------- two-block codes


@st.composite
def block_pairs(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 2, 3, 4, 5, 9)))
    n = draw(st.integers(1, 7 if q == 2 else 5))
    kind = draw(st.sampled_from(["polynomial", "circulant", "any", "any", "twisted"]))
    entries = st.integers(0, q - 1)
    base = [[draw(entries) for _ in range(n)] for _ in range(n)]
    other = [[draw(entries) for _ in range(n)] for _ in range(n)]
    return dict(
        q=q,
        kind=kind,
        base=base,
        other=other,
        coeffs=[[draw(entries) for _ in range(4)] for _ in range(2)],
        form=draw(st.integers(0, 4)),
        flip=draw(st.integers(0, n * n - 1)),
        promise=draw(st.booleans()),
    )


@PROP.test(block_pairs, quick=500, thorough=8000, shards=2)
def two_block_codes(case: dict, c: Context) -> None:
    import galois

    q = case["q"]
    F = ff.get(q)
    base = np.array(case["base"], dtype=int)
    n = len(base)
    if case["kind"] == "any":
        a, b = base, np.array(case["other"], dtype=int)
    else:
        if case["kind"] == "circulant":
            base = np.roll(np.eye(n, dtype=int), 1, axis=1)
        powers = [np.eye(n, dtype=int)]
        for _ in range(3):
            powers.append(F.matmul(powers[-1], base))
        a, b = np.zeros((n, n), dtype=int), np.zeros((n, n), dtype=int)
        for power, x, y in zip(powers, *case["coeffs"]):
            a, b = F.plus(a, F.times(x, power)), F.plus(b, F.times(y, power))
        if case["kind"] == "twisted":  # one entry away from a commuting pair
            i, j = divmod(case["flip"], n)
            b = b.copy()
            b[i, j] = (b[i, j] + 1) % q
    commute = np.array_equal(F.matmul(a, b), F.matmul(b, a))
    form = case["form"]
    kwargs: dict = {"field": q}
    if form == 0:
        given: list = [a.tolist(), b.tolist()]
    elif form == 1:
        given, kwargs = [galois.GF(q)(a), galois.GF(q)(b)], {}
    elif form == 2:
        given, kwargs = [codes().ClassicalCode(a, q), codes().ClassicalCode(b, q)], {}
    else:
        given = [a.copy(), b.copy()]
        if q == 2:
            kwargs = {}
    c.label(f"q={q}", case["kind"], "commuting" if commute else "not commuting")
    if not commute:
        c.nontrivial(n >= 3)
        c.raises(ValueError, lambda: codes().TBCode(*given, **kwargs), "non-commuting matrices")
        return
    c.nontrivial(a.any() and b.any() and n >= 3)
    hx = np.hstack([a, b])
    hz = np.hstack([b.T, F.neg[a.T]])
    zero = np.zeros_like(hx)
    rows = np.block([[hx, zero], [zero, hz]])
    if case["promise"]:
        kwargs["validate"] = False
    code = codes().TBCode(*given, **kwargs)
    quantum.check_code(c, code, rows, 2 * n, q, what="TBCode", subsystem=False)
    c.equal(util.ints(code.matrix_x, hx.shape, "X checks", q), hx, "X checks")
    c.equal(util.ints(code.matrix_z, hz.shape, "Z checks", q), hz, "Z checks")


# ---------------------------------------------------------------------- polynomials

NAMES = ("x", "y", "z", "a", "b", "c", "aa", "xy", "x2", "x10", "Y", "_", "yx")


def symbol(name: str) -> Any:
    import sympy

    return sympy.Symbol(name)


def to_sympy(terms: list, names: list[str], factored: bool = False) -> Any:
    """[[coefficient, exponents], ...] as a sympy expression; no two terms may coincide."""
    import sympy

    expr = sympy.Integer(0)
    for coeff, exps in terms:
        monomial = sympy.Integer(1)
        for name, e in zip(names, exps):
            monomial = monomial * symbol(name) ** e
        expr = expr + coeff * monomial
    if factored and len(terms) > 1:
        shift = sympy.Integer(1)
        for name, e in zip(names, terms[0][1]):
            shift = shift * symbol(name) ** e
        expr = shift * sympy.expand(expr / shift)
    return expr


def element(F: Any, terms: list, orders: list[int]) -> np.ndarray:
    """Coefficient array over the torus of group members."""
    out = np.zeros(orders, dtype=int)
    for coeff, exps in terms:
        index = tuple(e % r for e, r in zip(exps, orders))
        out[index] = F.add[out[index], coeff] if hasattr(F, "add") else F.plus(out[index], coeff)
    return out


def from_sympy(F: Any, expr: Any, symbols: Any) -> list:
    """Terms of a sympy expression, read without help from the code under test."""
    import sympy

    expr = sympy.expand(expr.as_expr() if hasattr(expr, "as_expr") else expr)
    out = []
    for term in sympy.Add.make_args(expr):
        coeff, rest = term.as_coeff_Mul()
        if coeff == 0:
            continue
        powers = rest.as_powers_dict() if rest != 1 else {}
        exps = [int(powers.get(s, 0)) for s in symbols]
        if not all(p in symbols or p == 1 for p in powers) or int(coeff) != coeff:
            raise ValueError(f"unexpected term {term}")
        out.append([int(coeff), exps])
    return out


def shift_matrix(array: np.ndarray) -> np.ndarray:
    """Entry [check at a, qudit at a + e] is the coefficient of the monomial with exponents e."""
    shape = array.shape
    size = array.size
    out = np.zeros((size, size), dtype=int)
    points = list(np.ndindex(*shape))
    index = {p: i for i, p in enumerate(points)}
    support = [(e, int(array[e])) for e in points if array[e]]
    for p in points:
        for e, value in support:
            out[index[p], index[tuple((a + b) % r for a, b, r in zip(p, e, shape))]] = value
    return out


def code_rows(F: Any, a: np.ndarray, b: np.ndarray) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
    ma, mb = shift_matrix(a), shift_matrix(b)
    hx, hz = np.hstack([ma, mb]), np.hstack([mb.T, F.neg[ma.T]])
    zero = np.zeros_like(hx)
    return hx, hz, np.block([[hx, zero], [zero, hz]])


@st.composite
def polynomial(draw: Any, q: int, orders: list[int], max_terms: int = 5) -> list:
    """Distinct monomials (as polynomials), possibly equal as group members."""
    style = draw(st.integers(0, 4))
    seen: dict = {}
    for _ in range(draw(st.integers(1, max_terms))):
        exps = []
        for r in orders:
            kind = draw(st.integers(0, 2))
            if kind == 0:
                exps.append(0)
            elif style == 0:
                exps.append(draw(st.integers(-2 * r, 2 * r)))
            elif style == 1:
                exps.append(draw(st.integers(-(r // 2), r // 2)))
            else:
                exps.append(draw(st.integers(0, r - 1)))
        seen[tuple(exps)] = draw(st.integers(1, q - 1))
    return [[coeff, list(exps)] for exps, coeff in seen.items()]


@st.composite
def order_lists(draw: Any, lengths: tuple[int, ...], cap: int) -> list[int]:
    m = draw(st.sampled_from(lengths))
    orders: list[int] = []
    for i in range(m):
        room = cap // util.prod(orders)
        orders.append(draw(st.integers(1 if m > 1 else 2, max(1, min(room, 13 if m == 1 else 9)))))
    return draw(st.permutations(orders))


@st.composite
def quasi_cyclic(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 2, 3, 4, 5, 9)))
    orders = draw(order_lists((1, 2, 2, 3), 24 if q == 2 else 12))
    names = draw(st.permutations(list(NAMES)))[: len(orders)]
    return dict(
        q=q,
        orders=orders,
        names=list(names),
        a=draw(polynomial(q, orders)),
        b=draw(polynomial(q, orders)),
        style=draw(st.integers(0, 3)),
        factored=draw(st.booleans()),
    )


def used_symbols(case: dict) -> list[int]:
    return [
        i
        for i in range(len(case["orders"]))
        if any(exps[i] for _, exps in case["a"] + case["b"])
    ]


def present(case: dict) -> tuple[Any, Any, Any, list[int], list[int]]:
    """(orders argument, two expressions, order of the axes, axes in the code)."""
    import sympy

    names, orders = case["names"], case["orders"]
    used = used_symbols(case)
    pa = to_sympy(case["a"], names, case["factored"])
    pb = to_sympy(case["b"], names, case["factored"])
    if not pa.free_symbols:
        pa = sympy.Poly(pa, symbol(names[0]))
    if not pb.free_symbols:
        pb = sympy.Poly(pb, symbol(names[0]))
    if case["style"] == 0:
        # the documented default: lexicographic order of the free variables, then placeholders
        axes = sorted(used, key=lambda i: names[i])
        axes += [i for i in range(len(orders)) if i not in used]
        return [orders[i] for i in axes], pa, pb, axes, used
    axes = list(range(len(orders)))
    if case["style"] == 1:
        axes = axes[::-1]
    return {symbol(names[i]): orders[i] for i in axes}, pa, pb, axes, used


@PROP.test(quasi_cyclic, quick=800, thorough=6000, shards=4)
def quasi_cyclic_codes(case: dict, c: Context) -> None:
    q = case["q"]
    F = ff.get(q)
    given, pa, pb, axes, used = present(case)
    if pa.free_symbols | pb.free_symbols != {symbol(case["names"][i]) for i in used}:
        # Poly(1, x) has no free symbols, but may be reported to have some
        used = [i for i in range(len(axes)) if symbol(case["names"][i]) in pa.free_symbols | pb.free_symbols]
        if case["style"] == 0:
            axes = sorted(used, key=lambda i: case["names"][i])
            axes += [i for i in range(len(case["orders"])) if i not in used]
            given = [case["orders"][i] for i in axes]
    orders = [case["orders"][i] for i in axes]
    terms_a = [[v, [e[i] for i in axes]] for v, e in case["a"]]
    terms_b = [[v, [e[i] for i in axes]] for v, e in case["b"]]
    a, b = element(F, terms_a, orders), element(F, terms_b, orders)
    size = a.size
    c.label(
        f"q={q}",
        f"{len(orders)} symbols",
        "orders as a dictionary" if isinstance(given, dict) else "orders as a list",
        "unused symbols" if len(used) < len(orders) else "all symbols used",
    )
    if any(e < 0 for _, exps in case["a"] + case["b"] for e in exps):
        c.label("negative exponents")
    c.nontrivial(a.any() and b.any() and size >= 3)
    code = codes().QCCode(given, pa, pb, q)
    hx, hz, rows = code_rows(F, a, b)
    quantum.check_code(
        c, code, rows, 2 * size, q, what="QCCode", subsystem=False, gauge=2 * size <= 24
    )
    c.equal(util.ints(code.matrix_x, hx.shape, "X checks", q), hx, "X checks of the polynomials")
    c.equal(util.ints(code.matrix_z, hz.shape, "Z checks", q), hz, "Z checks of the polynomials")
    c.equal([int(r) for r in code.orders], orders, "orders of the cyclic groups")
    for i, axis in enumerate(axes):
        if axis in used or isinstance(given, dict):
            c.equal(code.symbols[i], symbol(case["names"][axis]), "symbols")
    c.equal(len(set(code.symbols)), len(orders), "symbols are distinct")

    # the group algebra element of each polynomial
    for poly, array in [(code.poly_a, a), (code.poly_b, b)]:
        vector = util.ints(code.eval(poly).to_vector(), None, "group algebra element", q)
        c.equal(vector.reshape(orders), array, "group algebra element of a polynomial")
        # canonical form: the same element with least exponents
        canonical = code.get_canonical_form(poly)
        terms = from_sympy(F, canonical, code.symbols)
        c.equal(element(F, terms, orders), array, "canonical form is another element")
        for coeff, exps in terms:
            c.require(0 < coeff < q, "canonical coefficients", canonical)
            for e, r in zip(exps, orders):
                c.require(-r < 2 * e <= r, "exponents of canonical forms", canonical, orders)
        if terms:
            vector = util.ints(code.eval(canonical).to_vector(), None, "canonical element", q)
            c.equal(vector.reshape(orders), array, "element of a canonical form")

    # equal X and Z distances, as promised to the distance methods
    k = int(code.dimension)
    if k and q ** (2 * size - F.rank(hx)) <= 3000:
        from qldpc.objects import Pauli

        c.label("distances")
        dx = quantum.css_min_distance(F, hx, hz)
        dz = quantum.css_min_distance(F, hz, hx)
        c.equal((int(code.get_distance(Pauli.X)), int(code.get_distance(Pauli.Z))), (dx, dz), "distances")
        c.equal(int(code.get_distance()), min(dx, dz), "distance")


@PROP.test(quasi_cyclic, quick=250, thorough=3000, shards=2)
def presentations(case: dict, c: Context) -> None:
    """Names of symbols, redundant exponents and the two ways to give orders do not matter."""
    q = case["q"]
    F = ff.get(q)
    names, orders = case["names"], case["orders"]
    used = used_symbols(case)
    if len(used) < len(orders):
        c.label("unused symbols")
        return
    c.nontrivial(util.prod(orders) >= 3 and len(orders) > 1)
    pa, pb = to_sympy(case["a"], names), to_sympy(case["b"], names)
    if not pa.free_symbols or not pb.free_symbols:
        return
    by_name = sorted(range(len(orders)), key=lambda i: names[i])
    one = codes().QCCode([orders[i] for i in by_name], pa, pb, q)
    two = codes().QCCode({symbol(names[i]): orders[i] for i in by_name}, pa, pb, q)
    shape = one.matrix.shape
    rows = util.ints(one.matrix, shape, "checks", q)
    c.equal(util.ints(two.matrix, shape, "checks", q), rows, "orders as a list and as a dictionary")
    fresh = [f"s{i}" for i in range(len(orders))]
    renamed = {names[i]: fresh[j] for j, i in enumerate(by_name)}
    three = codes().QCCode(
        [orders[i] for i in by_name],
        to_sympy(case["a"], [renamed[x] for x in names]),
        to_sympy(case["b"], [renamed[x] for x in names]),
        q,
    )
    c.equal(util.ints(three.matrix, shape, "checks", q), rows, "renamed symbols")
    moved = [[v, [e + r * ((i + v) % 3 - 1) for i, (e, r) in enumerate(zip(exps, orders))]] for v, exps in case["a"]]
    if len({tuple(e) for _, e in moved}) == len(moved):
        expr = to_sympy(moved, names)
        if expr.free_symbols == pa.free_symbols:
            four = codes().QCCode([orders[i] for i in by_name], expr, pb, q)
            c.equal(util.ints(four.matrix, shape, "checks", q), rows, "redundant exponents")
    # fewer orders than symbols
    c.raises(
        ValueError, lambda: codes().QCCode([orders[i] for i in by_name][:-1], pa, pb, q), "too few orders"
    )
    if len(orders) != 2:
        c.raises(
            ValueError, lambda: codes().BBCode([orders[i] for i in by_name], pa, pb, q), "not bivariate"
        )


# ---------------------------------------------------------------------- bicycle codes


@st.composite
def bicycles(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 2, 3, 4)))
    orders = draw(order_lists((2,), 24 if q == 2 else 15))
    names = draw(st.permutations(list(NAMES)))[:2]
    style = draw(st.integers(0, 3))
    if style < 3:  # likely to be connected
        a, b = [], []
        for out, axis in [(a, 0), (b, 1)]:
            exps = {(0, 0): draw(st.integers(1, q - 1))}
            step = [0, 0]
            step[axis] = draw(st.sampled_from([1, -1, 2, 3]))
            if style == 1:
                step[1 - axis] = draw(st.integers(-2, 2))
            exps[tuple(step)] = draw(st.integers(1, q - 1))
            for _ in range(draw(st.integers(0, 2))):
                exps[tuple(draw(st.integers(0, r - 1)) for r in orders)] = draw(st.integers(1, q - 1))
            shift = [draw(st.integers(0, r - 1)) for r in orders]
            if draw(st.booleans()):
                exps = {tuple((x + y) % r for x, y, r in zip(e, shift, orders)): v for e, v in exps.items()}
            out.extend([v, list(e)] for e, v in exps.items())
        if draw(st.booleans()):
            a, b = b, a
    else:
        a, b = draw(polynomial(q, orders, 4)), draw(polynomial(q, orders, 4))
    return dict(q=q, orders=orders, names=list(names), a=a, b=b, style=draw(st.integers(0, 2)))


def make_bicycle(case: dict) -> tuple[Any, list[int], list, list]:
    """Code, orders and terms with axes in the order the code uses."""
    names, orders = case["names"], case["orders"]
    pa, pb = to_sympy(case["a"], names), to_sympy(case["b"], names)
    axes = [0, 1]
    if case["style"] == 0:
        axes.sort(key=lambda i: names[i])
        given: Any = tuple(orders[i] for i in axes)
    else:
        axes = axes[:: 1 if case["style"] == 1 else -1]
        given = {symbol(names[i]): orders[i] for i in axes}
    code = codes().BBCode(given, pa, pb, case["q"])
    a = [[v, [e[i] for i in axes]] for v, e in case["a"]]
    b = [[v, [e[i] for i in axes]] for v, e in case["b"]]
    return code, [orders[i] for i in axes], a, b


def valid(case: dict, c: Context) -> bool:
    if len(used_symbols(case)) == 2:
        import sympy

        pa, pb = to_sympy(case["a"], case["names"]), to_sympy(case["b"], case["names"])
        if pa.free_symbols and pb.free_symbols:
            return True
        c.label("constant polynomial")
        return False
    c.label("unused symbols")
    pa, pb = to_sympy(case["a"], case["names"]), to_sympy(case["b"], case["names"])
    if pa.free_symbols and pb.free_symbols:
        c.raises(ValueError, lambda: codes().BBCode(case["orders"], pa, pb, case["q"]), "one symbol")
    return False


@PROP.test(bicycles, quick=350, thorough=5000, shards=3)
def plaquette_layout(case: dict, c: Context) -> None:
    """Labels and positions are bijections, and the checks address the documented qubits."""
    from qldpc.objects import Node

    if not valid(case, c):
        return
    q = case["q"]
    F = ff.get(q)
    code, orders, terms_a, terms_b = make_bicycle(case)
    a, b = element(F, terms_a, orders), element(F, terms_b, orders)
    size = a.size
    c.nontrivial(a.any() and b.any() and size >= 3)
    c.label(f"q={q}")
    hx, hz, rows = code_rows(F, a, b)
    quantum.check_code(
        c, code, rows, 2 * size, q, what="BBCode", subsystem=False, gauge=False
    )
    labels: dict = {}
    for is_data, index in itertools.product((True, False), range(2 * size)):
        label = code.get_node_label(Node(index, is_data=is_data))
        half, rest = divmod(index, size)
        expected = ("LR" if is_data else "XZ")[half], rest // orders[1], rest % orders[1]
        c.equal(tuple(label), expected, f"label of node {index} (data: {is_data})")
        labels[expected] = Node(index, is_data=is_data)
    for folded in (False, True):
        positions = {}
        for label, node in labels.items():
            by_node = code.get_qubit_pos(node, folded)
            by_label = code.get_qubit_pos(label, folded)
            c.equal(tuple(by_node), tuple(by_label), "position of a node and of its label")
            positions[label] = tuple(int(x) for x in by_node)
        c.equal(
            sorted(positions.values()),
            sorted(itertools.product(range(2 * orders[0]), range(2 * orders[1]))),
            "positions fill the array",
        )
        for (sector, x, y), (px, py) in positions.items():
            if not folded:
                expected_pos = (2 * x + (sector in "XR"), 2 * y + (sector in "XL"))
                c.equal((px, py), expected_pos, f"position of {(sector, x, y)} in its plaquette")
        if folded:
            # neighbours on the torus of qubits stay close
            flat = {
                (2 * x + (s in "XR"), 2 * y + (s in "XL")): p for (s, x, y), p in positions.items()
            }
            for (px, py), (fx, fy) in flat.items():
                right = flat[(px + 1) % (2 * orders[0]), py]
                up = flat[px, (py + 1) % (2 * orders[1])]
                c.require(
                    right[1] == fy and abs(right[0] - fx) <= 2 and up[0] == fx and abs(up[1] - fy) <= 2,
                    "folded layouts keep neighbours within distance two",
                    (px, py),
                )
    # read the checks through the labels
    matrix = util.ints(code.matrix, rows.shape, "checks", q)
    for x, y in np.ndindex(*orders):
        expected_x: dict = {}
        expected_z: dict = {}
        for array, to_x, to_z, sign in [(a, "L", "R", -1), (b, "R", "L", 1)]:
            for e in np.ndindex(*orders):
                if array[e]:
                    value = int(array[e])
                    ahead = ((x + e[0]) % orders[0], (y + e[1]) % orders[1])
                    behind = ((x - e[0]) % orders[0], (y - e[1]) % orders[1])
                    expected_x[(to_x, *ahead)] = value
                    expected_z[(to_z, *behind)] = value if sign > 0 else int(F.neg[value])
        for sector, expected, offset in [("X", expected_x, 0), ("Z", expected_z, 2 * size)]:
            row = matrix[labels[sector, x, y].index]
            got = {
                tuple(code.get_node_label(Node(int(j) % (2 * size), is_data=True))): int(row[j])
                for j in np.nonzero(row)[0]
            }
            c.equal(got, expected, f"qubits addressed by check {(sector, x, y)}")
            c.require(
                not row[2 * size - offset : 4 * size - offset].any(), "type of a check", sector
            )
    # edges of the Tanner graph
    if size <= 16:
        graph = code.graph
        for node in labels.values():
            if not node.is_data:
                row = matrix[node.index]
                support = {int(j) % (2 * size) for j in np.nonzero(row)[0]}
                c.equal({int(m.index) for m in graph.successors(node)}, support, "Tanner graph")
    text = str(code)
    c.require(str(code.orders[0]) in text and str(code.symbols[0]) in text, "text of a code", text)


def span_size(vectors: list, orders: list[int]) -> int:
    seen = {(0, 0)}
    todo = [(0, 0)]
    while todo:
        p = todo.pop()
        for v in vectors:
            n = tuple((x + y) % r for x, y, r in zip(p, v, orders))
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return len(seen)


def vec_order(vec: Any, orders: list[int]) -> int:
    return math.lcm(*(r // math.gcd(int(e), r) for e, r in zip(vec, orders)))


def check_layouts(c: Context, F: Any, code: Any, orders: list[int], terms_a: list, terms_b: list) -> int:
    q = F.q
    a, b = element(F, terms_a, orders), element(F, terms_b, orders)
    size = a.size
    layouts = code.get_equivalent_toric_layout_code_data()
    hx, hz, rows = code_rows(F, a, b)

    def support(array: np.ndarray) -> list:
        return [e for e in np.ndindex(*orders) if array[e]]

    def pullback(array: np.ndarray, base: Any, g: Any, h: Any, shape: tuple) -> np.ndarray:
        out = np.zeros(shape, dtype=int)
        for u, v in np.ndindex(*shape):
            point = tuple((o + u * x + v * y) % r for o, x, y, r in zip(base, g, h, orders))
            out[u, v] = array[point]
        return out

    # all bases that generate the torus of plaquettes
    # (a trivial vector is one of them: two monomials may be the same member of the group)
    candidates: list = []
    for a1, a2 in itertools.product(support(a), repeat=2):
        for b1, b2 in itertools.product(support(b), repeat=2):
            g = tuple((y - x) % r for x, y, r in zip(a1, a2, orders))
            h = tuple((y - x) % r for x, y, r in zip(b1, b2, orders))
            og, oh = vec_order(g, orders), vec_order(h, orders)
            if og * oh == size == span_size([g, h], orders):
                candidates.append((a1, b1, g, h, og, oh))
    differences = [tuple(y - x for x, y in zip(p, r)) for p in support(a) for r in support(a)]
    differences += [tuple(y - x for x, y in zip(p, r)) for p in support(b) for r in support(b)]
    connected = bool(a.any() and b.any()) and span_size(differences, orders) == size
    c.label("connected" if connected else "disconnected")
    if not connected:
        c.equal(len(layouts), 0, "toric layouts of a disconnected Tanner graph")
        return 0
    written = [tuple(e % r for e, r in zip(exps, orders)) for _, exps in terms_a]
    written += [tuple(e % r for e, r in zip(exps, orders)) for _, exps in terms_b]
    if len(set(written[: len(terms_a)])) + len(set(written[len(terms_a) :])) == len(written):
        proper = [x for x in candidates if any(x[2]) and any(x[3])]
        c.equal(bool(layouts), bool(proper), "whether toric layouts are found")
    else:
        c.label("monomials that are the same member")
    for position, (shape, poly_a, poly_b) in enumerate(layouts):
        shape = tuple(int(r) for r in shape)
        what = f"layout {shape} {poly_a} {poly_b}"
        ta, tb = (from_sympy(F, p, code.symbols) for p in (poly_a, poly_b))
        na, nb = element(F, ta, list(shape)), element(F, tb, list(shape))
        c.equal(shape[0] * shape[1], size, f"{what}: number of plaquettes")
        # manifestly toric: 1 + x + ... and 1 + y + ...
        one = (0, 0)
        x, y = (1 % shape[0], 0), (0, 1 % shape[1])
        c.require(na[one] and na[x] and nb[one] and nb[y], f"{what}: is not manifestly toric")
        if min(shape) > 1:
            c.require(
                all(-r < 2 * e <= r for _, exps in ta + tb for e, r in zip(exps, shape)),
                f"{what}: exponents",
            )
        # the same code up to relabelling of qubits and checks
        found = None
        for a1, b1, g, h, og, oh in candidates:
            if (og, oh) == shape and np.array_equal(pullback(a, a1, g, h, shape), na):
                if np.array_equal(pullback(b, b1, g, h, shape), nb):
                    found = (a1, b1, g, h, False)
                    break
            if (oh, og) == shape and np.array_equal(pullback(b, b1, h, g, shape), na):
                if np.array_equal(pullback(a, a1, h, g, shape), nb):
                    found = (a1, b1, h, g, True)
                    break
        c.require(found, f"{what}: is not a relabelling of the code", orders, terms_a, terms_b)
        if position >= 3 or min(shape) == 1:
            continue
        twin = codes().BBCode(shape, poly_a, poly_b, q)
        if twin.symbols != code.symbols:
            twin = codes().BBCode(dict(zip(code.symbols, shape)), poly_a, poly_b, q)
        assert found
        a1, b1, u, v, swapped = found

        def old_index(point: Any, base: Any) -> int:
            px, py = ((o + point[0] * s + point[1] * t) % r for o, s, t, r in zip(base, u, v, orders))
            return int(px * orders[1] + py)

        # columns and rows of the old code, in the order of the new one
        zero = (0, 0)
        points = list(np.ndindex(*shape))
        bases = [(b1, size), (a1, 0)] if swapped else [(a1, 0), (b1, size)]
        columns = [half + old_index(p, base) for base, half in bases for p in points]
        x_rows = [old_index(p, zero) for p in points]
        both = tuple((s + t) % r for s, t, r in zip(a1, b1, orders))
        z_rows = [old_index(p, both) for p in points]
        new_x = util.ints(twin.matrix_x, hx.shape, f"{what}: X checks", q)
        new_z = util.ints(twin.matrix_z, hz.shape, f"{what}: Z checks", q)
        c.equal(new_x, hx[x_rows][:, columns], f"{what}: X checks")
        old_z = hz[z_rows][:, columns]
        c.equal(new_z, F.neg[old_z] if swapped else old_z, f"{what}: Z checks")

        # every check sees its four nearest neighbours on the torus of qubits
        from qldpc.objects import Node

        torus = (2 * shape[0], 2 * shape[1])
        place = {
            (d, i): twin.get_qubit_pos(Node(i, is_data=d)) for d in (True, False) for i in range(2 * size)
        }
        for i in range(2 * size):
            row = (new_x[i] if i < size else new_z[i - size]) != 0
            seen = {tuple(place[True, int(j)]) for j in np.nonzero(row)[0]}
            px, py = place[False, i]
            near = {
                ((px + dx) % torus[0], (py + dy) % torus[1])
                for dx, dy in [(0, 1), (1, 0), (0, -1), (-1, 0)]
            }
            c.require(near <= seen, f"{what}: nearest neighbours of check {i}", near, seen)
    return len(layouts)


@PROP.test(bicycles, quick=650, thorough=3500, shards=5)
def toric_layouts(case: dict, c: Context) -> None:
    if not valid(case, c):
        return
    q = case["q"]
    F = ff.get(q)
    code, orders, terms_a, terms_b = make_bicycle(case)
    if "~" in str(code.symbols):
        return
    c.label(f"q={q}")
    if {tuple(sorted(map(str, code.symbols)))} == {tuple(map(str, code.symbols))}:
        c.label("symbols in order")
    number = check_layouts(c, F, code, orders, terms_a, terms_b)
    c.label("toric" if number else "no toric layout")
    c.nontrivial(number and util.prod(orders) >= 3)


@st.composite
def torus_vectors(draw: Any) -> dict:
    orders = draw(order_lists((2,), 36))
    return dict(
        orders=orders,
        g=[draw(st.integers(-2 * r, 2 * r)) for r in orders],
        h=[draw(st.integers(-2 * r, 2 * r)) for r in orders],
        target=[draw(st.integers(-r, 2 * r)) for r in orders],
    )


@PROP.test(torus_vectors, quick=400, thorough=6000, shards=1)
def changes_of_basis(case: dict, c: Context) -> None:
    """Orders of vectors, bases of the torus and coordinates with respect to them."""
    orders, g, h, target = case["orders"], case["g"], case["h"], case["target"]
    x, y = symbol("x"), symbol("y")
    code = codes().BBCode(tuple(orders), 1 + x, 1 + y)
    size = orders[0] * orders[1]
    og, oh = vec_order(g, orders), vec_order(h, orders)
    c.equal((int(code.get_order(tuple(g))), int(code.get_order(tuple(h)))), (og, oh), "order of a vector")
    basis = og * oh == size == span_size([g, h], orders)
    c.label("basis" if basis else "not a basis")
    c.nontrivial(basis and size >= 3)
    c.equal(bool(code.is_valid_basis(tuple(g), tuple(h))), basis, "basis of the torus")
    t = [e % r for e, r in zip(target, orders)]
    solvable = any(
        all((u * gg + v * hh) % r == e for gg, hh, e, r in zip(g, h, t, orders))
        for u in range(og)
        for v in range(oh)
    )

    def solve() -> Any:
        return code.modular_inverse((tuple(g), tuple(h)), *target)

    if solvable:
        u, v = solve()
        c.equal([(u * gg + v * hh) % r for gg, hh, r in zip(g, h, orders)], t, "coordinates")
    else:
        c.raises(ValueError, solve, "unsolvable system")


@PROP.test(bicycles, quick=150, thorough=2000, shards=2)
def monomials(case: dict, c: Context) -> None:
    """Monomials are read as documented, and changes of basis keep elements of the algebra."""
    import sympy

    if not valid(case, c):
        return
    q = case["q"]
    F = ff.get(q)
    code, orders, terms_a, terms_b = make_bicycle(case)
    c.nontrivial(util.prod(orders) >= 3)
    names = [str(s) for s in code.symbols]
    for coeff, exps in terms_a + terms_b:
        expr = to_sympy([[coeff, exps]], names)
        got, powers = code.get_coefficient_and_exponents(expr)
        c.equal(int(got), coeff, f"coefficient of {expr}")
        powers = {str(s): int(e) for s, e in powers.items() if e}
        c.equal(powers, {n: e for n, e in zip(names, exps) if e}, f"exponents of {expr}")
        monomial = to_sympy([[1, exps]], names)
        if monomial != 1:
            c.equal(tuple(int(e) for e in code.as_exponent_vector(monomial)), tuple(exps), "exponents")
        member = code.to_group_member(sympy.sympify(monomial))
        unit = np.zeros(orders, dtype=int)
        unit[tuple(e % r for e, r in zip(exps, orders))] = 1
        vector = util.ints((code.ring.one * member).to_vector(), None, "member", q)
        c.equal(vector.reshape(orders), unit, f"group member of {expr}")


TABLE = [
    # orders, A, B, field, dimension (arXiv:2308.07915, arXiv:2404.18809 and the Steane-type toric code)
    ((6, 6), "x**3 + y + y**2", "y**3 + x + x**2", 2, 12),
    ((15, 3), "x**9 + y + y**2", "1 + x**2 + x**7", 2, 8),
    ((9, 6), "x**3 + y + y**2", "y**3 + x + x**2", 2, 8),
    ((12, 6), "x**3 + y + y**2", "y**3 + x + x**2", 2, 12),
    ((12, 12), "x**3 + y**2 + y**7", "y**3 + x + x**2", 2, 12),
    ((12, 4), "1 + y + x*y + x**9", "1 + x**2 + x**7 + x**9*y**2", 2, 10),
    ((4, 4), "1 + x", "1 + y", 2, 2),
    ((3, 5), "1 + x", "1 + y", 2, 2),
    ((6, 4), "1 + 2*x", "1 + 2*y", 3, 2),
    ((12, 6), "x**3 + y + y**2", "y**3 + x + x**2", 3, 8),
]


@PROP.test(cases=lambda tier: list(range(len(TABLE))), quick=len(TABLE), shards=8)
def literature(case: int, c: Context) -> None:
    import sympy

    orders, pa, pb, q, k = TABLE[case]
    F = ff.get(q)
    c.nontrivial()
    x, y = symbol("x"), symbol("y")
    exprs = [sympy.sympify(p, locals={"x": x, "y": y}) for p in (pa, pb)]
    code = codes().BBCode(orders, *exprs, q)
    n = 2 * orders[0] * orders[1]
    c.equal((len(code), int(code.dimension)), (n, k), "parameters")
    terms = [from_sympy(F, e, (x, y)) for e in exprs]
    a, b = (element(F, t, list(orders)) for t in terms)
    hx, hz, _ = code_rows(F, a, b)
    c.equal(util.ints(code.matrix_x, hx.shape, "X checks", q), hx, "X checks")
    c.equal(util.ints(code.matrix_z, hz.shape, "Z checks", q), hz, "Z checks")
    c.equal(F.rank(hx) + F.rank(hz) + k, n, "dimension")
    if n <= 150:
        check_layouts(c, F, code, list(orders), *terms)
