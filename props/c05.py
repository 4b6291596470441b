"""C05: graphs, strings and operators round-trip to the same code."""

from __future__ import annotations

import re
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property

PROP = Property(
    "C05",
    "Parity check matrices over F_2,3,4,5,7,8,9 (including zero and repeated rows, idle columns,"
    " full-range entries) for classical, qudit and CSS codes, in several container types; qudit"
    " operators with values 0..30; operator strings drawn from the grammar, mutated, and free-form"
    " over its alphabet.  Non-trivial: the matrix has a nonzero entry / the string is not 'I'.",
    ["Every code has at least one bit; string round trips also need at least one check."],
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def classical_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    rows = draw(gen.matrix(q, 0, 5, 1, 8))
    n = len(rows[0]) if rows else draw(st.integers(1, 8))
    return {"q": q, "rows": rows, "n": n, "kind": draw(st.integers(0, 5))}


@PROP.test(classical_case, quick=3000, shards=2)
def classical_graphs(case: dict, c: Context) -> None:
    from qldpc.objects import Node

    q, n = case["q"], case["n"]
    h = util.mat(case["rows"], n)
    matrix, kwargs = util.container(case["kind"], case["rows"], n, q)
    code = codes().ClassicalCode(matrix, **kwargs)
    c.nontrivial(h.any())
    if (~h.any(axis=1)).any():
        c.label("empty check")
    if (~h.any(axis=0)).any():
        c.label("idle bit")
    graph = code.graph
    nodes = {(node.index, node.is_data) for node in graph.nodes}
    expected = {(i, False) for i in range(len(h))} | {(j, True) for j in range(n)}
    c.equal(nodes, expected, "nodes of the Tanner graph")
    edges = {(a.index, a.is_data, b.index, b.is_data) for a, b in graph.edges}
    c.equal(
        edges, {(int(i), False, int(j), True) for i, j in np.argwhere(h)}, "edges of the graph"
    )
    for i, j in np.argwhere(h):
        val = graph[Node(int(i), False)][Node(int(j), True)]["val"]
        c.equal(int(val), int(h[i, j]), "edge value")
    back = codes().ClassicalCode.graph_to_matrix(graph)
    c.equal(type(back).order, q, "field after the round trip")
    c.equal(util.ints(back, h.shape, "matrix from graph", q), h, "matrix from graph")
    again = codes().ClassicalCode(back)
    c.require(again == code, "code rebuilt from its graph differs", h)
    if len(h):
        c.equal(int(code.get_weight()), int((h != 0).sum(axis=1).max()), "weight of the code")
    if q == 2:
        for form in (h, h.tolist()) if len(h) else (h,):
            back = codes().ClassicalCode.graph_to_matrix(
                codes().ClassicalCode.matrix_to_graph(form)
            )
            c.equal(util.ints(back, h.shape, "matrix", q), h, "plain matrix to graph and back")


@st.composite
def qudit_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    n = draw(st.integers(1, 6))
    rows = draw(gen.matrix(q, 0, 5, 2 * n, 2 * n))
    if rows and draw(st.booleans()):
        j = draw(st.integers(0, n - 1))
        for vec in rows:
            vec[j] = vec[j + n] = 0
    return {"q": q, "n": n, "rows": rows, "kind": draw(st.integers(0, 5))}


@PROP.test(qudit_case, quick=3000, shards=2)
def qudit_graphs(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    h = util.mat(case["rows"], 2 * n)
    matrix, kwargs = util.container(case["kind"], case["rows"], 2 * n, q)
    code = codes().QuditCode(matrix, **kwargs)
    c.nontrivial(h.any())
    check_qudit_graph(c, code, h, n, q)
    if q == 2:
        for form in (h, h.tolist()) if len(h) else (h,):
            back = codes().QuditCode.graph_to_matrix(codes().QuditCode.matrix_to_graph(form))
            c.equal(util.ints(back, h.shape, "matrix", q), h, "plain matrix to graph and back")


def check_qudit_graph(c: Context, code: Any, h: np.ndarray, n: int, q: int) -> None:
    from qldpc.objects import Node, Pauli, QuditOperator

    graph = code.graph
    support = h[:, :n] + h[:, n:] > 0
    if (~support.any(axis=1)).any():
        c.label("empty check")
    if (~support.any(axis=0)).any():
        c.label("idle qudit")
    nodes = {(node.index, node.is_data) for node in graph.nodes}
    expected = {(i, False) for i in range(len(h))} | {(j, True) for j in range(n)}
    c.equal(nodes, expected, "nodes of the Tanner graph")
    edges = {(a.index, a.is_data, b.index, b.is_data) for a, b in graph.edges}
    c.equal(edges, {(int(i), False, int(j), True) for i, j in np.argwhere(support)}, "graph edges")
    for i, j in np.argwhere(support):
        data = graph[Node(int(i), False)][Node(int(j), True)]
        op = data[Pauli] if q == 2 else data[QuditOperator]
        c.equal(tuple(map(int, op.value)), (int(h[i, j]), int(h[i, j + n])), "edge operator")
    back = codes().QuditCode.graph_to_matrix(graph)
    c.equal(type(back).order, q, "field after the round trip")
    c.equal(util.ints(back, h.shape, "matrix from graph", q), h, "matrix from graph")
    if len(h):
        c.equal(int(code.get_weight()), int(support.sum(axis=1).max()), "weight of the code")


@st.composite
def css_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    n = draw(st.integers(1, 6))
    hx = draw(gen.matrix(q, 0, 4, n, n))
    hz = draw(gen.matrix(q, 0, 4, n, n))
    return {"q": q, "n": n, "hx": hx, "hz": hz}


@PROP.test(css_case, quick=1500, shards=1)
def css_graphs_and_strings(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    code = codes().CSSCode(hx, hz, q)
    c.nontrivial(hx.any() and hz.any())
    h = np.zeros((len(hx) + len(hz), 2 * n), dtype=int)
    h[: len(hx), :n] = hx
    h[len(hx) :, n:] = hz
    check_qudit_graph(c, code, h, n, q)
    check_strings(c, code, h, n, q)


def check_strings(c: Context, code: Any, h: np.ndarray, n: int, q: int) -> None:
    strings = code.get_strings()
    c.equal(len(strings), len(h), "number of strings")
    for text, vec in zip(strings, h):
        tokens = text.split(" ")
        c.equal(len(tokens), n, "number of operators in a string")
        for j, token in enumerate(tokens):
            c.equal(parse(token, q), (int(vec[j]), int(vec[j + n])), f"operator {token!r}")
    if len(h):
        back = codes().QuditCode.from_strings(*strings, field=q)
        c.equal(back.field.order, q, "field after the round trip")
        c.equal(util.ints(back.matrix, h.shape, "matrix", q), h, "matrix from strings")
        if q == 2:
            back = codes().QuditCode.from_strings(*strings)
            c.equal(util.ints(back.matrix, h.shape, "matrix", q), h, "matrix from strings")


def parse(token: str, q: int) -> tuple[int, int] | None:
    """Independent reading of the documented string forms."""
    if q == 2:
        return {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}.get(token)
    return parse_operator(token)


def parse_operator(token: str) -> tuple[int, int] | None:
    if token == "I":
        return (0, 0)
    if match := re.fullmatch(r"([XYZ])\(([0-9]+)\)", token):
        val = int(match[2])
        return (val if match[1] in "XY" else 0, val if match[1] in "YZ" else 0)
    if match := re.fullmatch(r"X\(([0-9]+)\)\*Z\(([0-9]+)\)", token):
        return (int(match[1]), int(match[2]))
    if match := re.fullmatch(r"Z\(([0-9]+)\)\*X\(([0-9]+)\)", token):
        return (int(match[2]), int(match[1]))
    return None


@PROP.test(qudit_case, quick=2000, shards=2)
def qudit_strings(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    h = util.mat(case["rows"], 2 * n)
    code = codes().QuditCode(h, q)
    c.nontrivial(h.any())
    check_strings(c, code, h, n, q)
    if len(h) > 1 and n > 1:
        strings = code.get_strings()
        strings[-1] = " ".join(strings[-1].split()[:-1])
        c.raises(
            ValueError,
            lambda: codes().QuditCode.from_strings(*strings, field=q),
            "strings of different lengths",
        )
    if len(h) and q > 2:
        tokens = code.get_strings()[0].split()
        tokens[case["kind"] % n] = f"X({q})"
        c.raises(
            ValueError,
            lambda: codes().QuditCode.from_strings(" ".join(tokens), field=q),
            "operator value outside the field",
        )
    if len(h) and q == 2:
        tokens = code.get_strings()[0].split()
        tokens[case["kind"] % n] = ["X(1)", "x", "XX", "i", "-", "Q"][case["kind"]]
        c.raises(
            ValueError,
            lambda: codes().QuditCode.from_strings(" ".join(tokens)),
            "malformed Pauli string",
        )


####################################################################################################


@PROP.test(cases=lambda tier: [[a, b] for a in range(31) for b in range(31)], shards=1)
def operator_values(case: list, c: Context) -> None:
    from qldpc.objects import QuditOperator

    a, b = case
    c.nontrivial(a or b)
    op = QuditOperator((a, b))
    c.equal(parse_operator(str(op)), (a, b), "string form of an operator")
    back = QuditOperator.from_string(str(op))
    c.require(back == op and tuple(back.value) == (a, b), "operator round trip", str(op))
    c.equal(tuple((~op).value), (b, a), "Fourier transform")
    c.require(~~op == op and -(-op) == op, "involutions")
    c.equal(tuple((-op).value), (-a, -b), "inverse operator")
    c.require((op == QuditOperator((b, a))) == (a == b), "operator equality")
    c.require(QuditOperator() == QuditOperator((0, 0)), "default operator")


def operator_strings() -> Any:
    factor = st.builds(
        lambda p, v: f"{p}({v})", st.sampled_from("XYZ"), st.integers(0, 20)
    )
    good = st.one_of(factor, st.tuples(factor, factor).map("*".join), st.just("I"))

    def mutate(pair: tuple) -> str:
        text, kind, pos, char = pair
        pos %= len(text) + 1
        if kind == 0:
            return text[:pos] + char + text[pos:]
        if kind == 1:
            return text[:pos] + text[pos + 1 :]
        if kind == 2:
            return text[:pos] + char + text[pos + 1 :]
        return text + "*" + text

    alphabet = "IXYZ()*0123456789-+ .ixyz"
    mutated = st.tuples(
        good, st.integers(0, 3), st.integers(0, 12), st.sampled_from(alphabet)
    ).map(mutate)
    free = st.text(alphabet=alphabet, max_size=10)
    several = st.lists(st.one_of(factor, factor, st.just("I"), st.just("")), min_size=2, max_size=5).map("*".join)
    return st.one_of(good, mutated, mutated, free, several)


@PROP.test(operator_strings, quick=6000, shards=1)
def operator_parsing(case: str, c: Context) -> None:
    from qldpc.objects import Pauli, QuditOperator

    expected = parse_operator(case)
    c.nontrivial(case != "I")
    c.label("valid" if expected is not None else "malformed")
    if expected is None:
        c.raises(ValueError, lambda: QuditOperator.from_string(case), f"operator {case!r}")
    else:
        c.equal(tuple(QuditOperator.from_string(case).value), expected, f"operator {case!r}")
    if case in ("I", "X", "Y", "Z"):
        c.equal(str(Pauli.from_string(case)), case, "Pauli string")
    else:
        c.raises(ValueError, lambda: Pauli.from_string(case), f"Pauli {case!r}")


@PROP.test(cases=lambda tier: [[a, b] for a in range(4) for b in range(4)], shards=1)
def pauli_operators(case: list, c: Context) -> None:
    from qldpc.objects import PAULIS_XZ, Pauli

    names = "IXZY"
    a, b = case
    c.nontrivial(a and b)
    vecs = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}
    op_a, op_b = Pauli.from_string(names[a]), Pauli.from_string(names[b])
    c.equal(tuple(op_a.value), vecs[names[a]], "value of a Pauli")
    c.require(Pauli(vecs[names[a]]) is op_a, "Pauli from value")
    c.equal(str(op_a), names[a], "string of a Pauli")
    product = op_a * op_b
    expected = tuple((x + y) % 2 for x, y in zip(op_a.value, op_b.value))
    c.equal(tuple(product.value), expected, "product of Paulis")
    c.equal(tuple((~op_a).value), tuple(op_a.value)[::-1], "Hadamard transform of a Pauli")
    c.require((op_a is op_b) == (a == b), "distinct Paulis")
    c.equal([str(p) for p in PAULIS_XZ], ["X", "Z"], "PAULIS_XZ")
    c.equal([p.index for p in PAULIS_XZ], [0, 1], "Pauli indices")
    c.equal([int(np.array([5, 7])[p]) for p in PAULIS_XZ], [5, 7], "indexing by a Pauli")
    if names[a] in "IY":
        c.raises(AttributeError, lambda: op_a.index, "index of I or Y")


@PROP.test(qudit_case, quick=800, shards=1)
def symplectic_vectors(case: dict, c: Context) -> None:
    """The helpers that define commutation and Pauli strings, against their documented formulas."""
    import galois

    from qldpc.math import first_nonzero_cols, op_to_string, symplectic_conjugate

    q, n, field = case["q"], case["n"], ff.get(case["q"])
    h = util.mat(case["rows"], 2 * n)
    c.nontrivial(h.any())
    if not len(h):
        return
    array = galois.GF(q)(h)
    conj = symplectic_conjugate(array)
    expected = np.hstack([field.neg[h[:, n:]], h[:, :n]])
    c.equal(util.ints(conj, h.shape, "symplectic conjugate", q), expected, "symplectic conjugate")
    c.equal(util.ints(symplectic_conjugate(array[0]), (2 * n,), "vector", q), expected[0], "vector")
    c.equal(symplectic_conjugate(h), np.hstack([-h[:, n:], h[:, :n]]), "plain arrays")
    c.equal(util.ints(array, h.shape, "input", q), h, "input of symplectic_conjugate")
    firsts = [int(np.nonzero(row)[0][0]) if row.any() else 0 for row in h]
    c.equal(first_nonzero_cols(array), np.array(firsts), "first nonzero columns")
    if q == 2:
        for row in h:
            text = "".join("_XZY"[int(row[j]) + 2 * int(row[j + n])] for j in range(n))
            c.equal(str(op_to_string(row)), "+" + text, "Pauli string")
