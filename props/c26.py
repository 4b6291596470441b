"""C26: library calls leave callers' data and random state alone; seeds fix results."""

from __future__ import annotations

import itertools
import json
import os
import random
import subprocess
import sys
from collections.abc import Callable
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import core, gen, quantum
from vlib import group as groups
from vlib.core import Context, Property

PROP = Property(
    "C26",
    "Histories: an object (classical code, stabilizer or subsystem code, named family, chain or"
    " Cayley complex, group algebra array, decoder, circuit) is built from generated arguments (lists,"
    " integer and field arrays, graphs, codes, sets, strings), and up to 6 public queries,"
    " conversions and changes are applied to it and to codes derived from it; afterwards every"
    " argument must be as it was.  Seeded functions are called again after the random generators of"
    " Python, numpy and sympy were disturbed, on the same and on equal objects, and in other"
    " processes with other hash seeds.  Non-trivial: at least one call succeeded on arguments that"
    " hold data, or two different seeds were compared.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


####################################################################################################
# snapshots


def snap(x: Any) -> Any:
    """A value that changes if and only if the content of x changes."""
    import networkx as nx
    import stim

    from qldpc import abstract

    mod = codes()
    if isinstance(x, abstract.RingArray):
        return ("ring array", x.shape, [snap(val) for val in x.ravel()])
    if isinstance(x, abstract.RingMember):
        terms = sorted((tuple(map(int, g.array_form)), int(v)) for g, v in x._vec.items() if v) if (
            hasattr(x, "_vec")
        ) else None
        return ("ring member", terms, np.asarray(x.to_vector()).astype(int).tolist())
    if isinstance(x, np.ndarray):
        return (type(x).__name__, str(x.dtype), x.shape, x.view(np.ndarray).tolist())
    if isinstance(x, mod.AbstractCode):
        return snap_code(x)
    if isinstance(x, nx.Graph):
        return (
            type(x).__name__,
            [(snap(node), sorted((str(k), snap(v)) for k, v in d.items())) for node, d in x.nodes(data=True)],
            [
                (snap(a), snap(b), sorted((str(k), snap(v)) for k, v in d.items()))
                for a, b, d in x.edges(data=True)
            ],
            sorted((str(k), snap(v)) for k, v in x.graph.items()),
        )
    if isinstance(x, dict):
        return ("dict", [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, map(snap, x))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, (stim.Circuit, stim.Tableau)):
        return (type(x).__name__, str(x))
    if isinstance(x, abstract.GroupMember):
        return ("member", tuple(map(int, x.array_form)))
    if isinstance(x, abstract.Group):
        return ("group", [tuple(map(int, g.array_form)) for g in x.generators], x.order)
    if isinstance(x, np.random.Generator):
        return str(x.bit_generator.state)
    return repr(x)


def snap_code(code: Any) -> Any:
    mod = codes()
    base = (
        type(code).__name__,
        code.name,
        code.field.order,
        snap(code.matrix),
        len(code),
    )
    if isinstance(code, mod.ClassicalCode):
        return (*base, snap(code.generator), int(code.dimension))
    logicals = code.get_logical_ops()
    out = (*base, snap(logicals), bool(code.is_subsystem_code), int(code.dimension))
    if isinstance(code, mod.CSSCode):
        out = (*out, snap(code.matrix_x), snap(code.matrix_z))
    return out


class Watch:
    """Arguments that calls must leave alone."""

    def __init__(self) -> None:
        self.items: list[tuple[str, Any, Any]] = []

    def add(self, name: str, obj: Any, twin: Any = None) -> Any:
        """Watch an argument.  Looking at a code fills its caches, so an equal code is looked at."""
        before = snap(obj if twin is None else twin)
        self.items.append((name, obj, before))
        return obj

    def check(self, c: Context, when: str) -> None:
        for name, obj, before in self.items:
            after = snap(obj)
            if after != before:
                c.require(False, f"{when}: the argument '{name}' was modified", before, after)


####################################################################################################
# arguments


def matrix_arg(rng: np.random.Generator, q: int, rows: int, cols: int, form: int) -> Any:
    """A matrix in one of many forms."""
    import galois

    array = rng.integers(0, q, (rows, cols))
    array[rng.random(array.shape) < 0.3] = 0
    form = form % 7
    if form == 0:
        return [list(map(int, row)) for row in array]
    if form == 1:
        return galois.GF(q)(array)
    if form == 2:
        return array.astype(np.uint8)
    if form == 3:
        return np.asfortranarray(array)
    if form == 4:
        return tuple(tuple(map(int, row)) for row in array)
    if form == 5:
        return np.repeat(array, 2, axis=0)[::2]  # a view
    return array


class Chooser:
    """Random choices fixed by the case."""

    def __init__(self, case: dict) -> None:
        self.rng = np.random.default_rng(case["seed"])
        self.q = case["q"]
        self.form = case["form"]
        self.watch = Watch()

    def size(self, low: int, high: int) -> int:
        return int(self.rng.integers(low, high + 1))

    def flip(self) -> bool:
        return bool(self.rng.integers(2))

    def matrix(self, name: str, rows: int, cols: int, q: int | None = None) -> Any:
        self.form += 1
        return self.watch.add(name, matrix_arg(self.rng, q or self.q, rows, cols, self.form))

    def classical(self, name: str, rows: int, cols: int, q: int | None = None) -> Any:
        """A classical code that is watched, with or without its caches filled."""
        q = q or self.q
        array = self.rng.integers(0, q, (rows, cols))
        mod = codes()
        if self.flip():
            code, twin = (mod.ClassicalCode(array.copy(), q) for _ in range(2))
        else:
            code, twin = (mod.ClassicalCode.from_generator(array.copy(), q) for _ in range(2))
        if self.flip():
            code.generator, code.rank, code.canonicalized
        return self.watch.add(name, code, twin)

    def row(self, cols: int, q: int | None = None) -> Any:
        self.form += 1
        out = matrix_arg(self.rng, q or self.q, 1, cols, self.form)
        return self.watch.add("vector", out[0])


def quiet(c: Context, label: str, func: Callable[[], Any]) -> Any:
    """What the function returns, or None if it refuses these arguments."""
    try:
        out = func()
    except core.CaseHang:
        raise
    except Exception as error:
        c.label(f"refused: {label}")
        if os.environ.get("C26_DEBUG"):
            print("REF", label, repr(error)[:200], flush=True)
        return None
    c.label(label)
    return out


####################################################################################################
# histories on classical codes


def classical_steps(ch: Chooser, code: Any) -> list[tuple[str, Callable[[], Any]]]:
    mod = codes()
    q, n = code.field.order, len(code)
    rng = ch.rng
    small = q**n <= 3000
    bits = [int(b) for b in rng.permutation(n)[: max(1, n // 3)]]

    def generator() -> Any:
        return ch.watch.add("generator", np.array(code.generator[::-1].copy()).astype(int))

    def other() -> Any:
        return ch.classical("other code", ch.size(1, 2), ch.size(2, 3), q)

    def regenerate() -> Any:
        out = mod.ClassicalCode(code)
        gens = code.generator.view(np.ndarray).astype(int)[::-1]
        out.set_generator(ch.watch.add("generator", gens.copy()))
        return out

    steps: list[tuple[str, Callable[[], Any]]] = [
        ("copy", lambda: mod.ClassicalCode(code)),
        ("regenerate", regenerate),
        ("dual", lambda: ~code),
        ("canonicalized", lambda: code.canonicalized),
        ("queries", lambda: (code.rank, code.dimension, code.generator, code.get_weight() if len(code.matrix) else 0, str(code))),
        ("graph", lambda: mod.ClassicalCode.graph_to_matrix(ch.watch.add("graph", code.graph))),
        ("from graph matrix", lambda: mod.ClassicalCode.matrix_to_graph(ch.matrix("matrix", 2, 3, q))),
        ("words", lambda: [word for word in itertools.islice(code.iter_words(), 20)]),
        ("random word", lambda: code.get_random_word(seed=3)),
        ("membership", lambda: ch.row(n, q) in code),
        ("tensor product", lambda: mod.ClassicalCode.tensor_product(code, other())),
        ("stack", lambda: mod.ClassicalCode.stack(other(), code)),
        ("puncture", lambda: code.puncture(*bits)),
        ("shorten", lambda: code.shorten(*bits)),
        ("equiv", lambda: mod.ClassicalCode.equiv(code, other())),
        ("from generator", lambda: mod.ClassicalCode.from_generator(generator(), q)),
        ("hypergraph product", lambda: mod.HGPCode(code, other())),
        ("subsystem product", lambda: mod.SHPCode(code, other())),
        ("CSS", lambda: mod.CSSCode(code, ~code)),
        ("params", lambda: code.get_code_params(bound=None) if small else None),
        ("error rate", lambda: code.get_logical_error_rate_func(20, 0.2, with_lookup=True, max_weight=1)(0.1)
         if n <= 8 and q == 2 else None),
    ]  # fmt: skip
    if small:
        steps += [
            ("distance", lambda: code.get_distance()),
            ("distance to a vector", lambda: code.get_distance(vector=ch.row(n, q))),
            ("distance bound", lambda: code.get_distance_bound(2, with_lookup=True, max_weight=n)),
        ]
    return steps


@st.composite
def histories(draw: Any, orders: tuple = (2, 2, 3, 4, 5)) -> dict:
    return dict(
        q=draw(gen.field_orders(orders)),
        seed=draw(st.integers(0, 2**30)),
        form=draw(st.integers(0, 6)),
        kind=draw(st.integers(0, 30)),
        steps=draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 3)).map(list), max_size=6)),
    )


def walk(c: Context, ch: Chooser, case: dict, start: Any) -> None:
    """Apply steps to the object, and to codes that come out of the steps."""
    mod = codes()
    c.nontrivial(start is not None)
    pool = [start] if isinstance(start, mod.AbstractCode) else []
    for index, which in case["steps"]:
        if not pool:
            return
        code = pool[which % len(pool)]
        table = classical_steps if isinstance(code, mod.ClassicalCode) else quantum_steps
        steps = table(ch, code)
        name, func = steps[index % len(steps)]
        result = quiet(c, name, func)
        ch.watch.check(c, name)
        if isinstance(result, mod.AbstractCode) and len(result) <= 16:
            pool.append(result)


@PROP.test(lambda: histories((2, 2, 2, 3, 4, 5)), quick=1500, shards=4)
def classical_codes(case: dict, c: Context) -> None:
    mod = codes()
    ch = Chooser(case)
    rows, cols = ch.size(1, 4), ch.size(1, 6)
    kind = case["kind"] % 4
    field = case["q"]
    if kind == 0:
        code = quiet(c, "matrix", lambda: mod.ClassicalCode(ch.matrix("matrix", rows, cols), field))
    elif kind == 1:
        code = quiet(
            c, "generator", lambda: mod.ClassicalCode.from_generator(ch.matrix("gens", rows, cols), field)
        )
    elif kind == 2:
        code = ch.classical("code", rows, cols)
    else:
        matrix = ch.matrix("matrix", rows, cols)
        graph = quiet(c, "graph", lambda: mod.ClassicalCode(matrix, field).graph)
        if graph is not None:
            ch.watch.add("graph", graph)
            code = quiet(
                c, "from graph", lambda: mod.ClassicalCode(mod.ClassicalCode.graph_to_matrix(graph))
            )
        else:
            code = None
    ch.watch.check(c, "construction")
    walk(c, ch, case, code)


####################################################################################################
# histories on quantum codes


def quantum_steps(ch: Chooser, code: Any) -> list[tuple[str, Callable[[], Any]]]:
    import stim

    from qldpc import circuits
    from qldpc.objects import Pauli

    mod = codes()
    q, n = code.field.order, len(code)
    rng = ch.rng
    k = code.dimension
    pauli = Pauli.X if ch.flip() else Pauli.Z
    is_css = isinstance(code, mod.CSSCode)
    tiny = n <= (6 if q == 2 else 3)

    def watched(obj: Any, name: str) -> Any:
        return ch.watch.add(name, obj)

    def set_logicals() -> Any:
        new = mod.CSSCode(code.code_x, code.code_z) if is_css else mod.QuditCode(code)
        ops = code.get_logical_ops()
        ops = watched(ops if ch.flip() else ops.view(np.ndarray).astype(int), "logical ops")
        new.set_logical_ops(ops)
        return new

    def reduce() -> Any:
        new = mod.CSSCode(code.code_x, code.code_z)
        new.set_logical_ops(watched(code.get_logical_ops(), "logical ops"))
        watched(code, "code")
        new.reduce_logical_ops(with_lookup=True, max_weight=n)
        return new

    def concatenate() -> Any:
        if not k:
            return None
        outer = mod.QuditCode(ch.matrix("outer", 1, 2 * 2 * k, q), q) if not is_css else mod.CSSCode(
            mod.ClassicalCode(np.ones((1, 2 * k), dtype=int), q),
            mod.ClassicalCode(np.zeros((1, 2 * k), dtype=int), q),
        )
        watched(code, "inner")
        wires = watched([int(x) for x in rng.permutation(2 * k)][: 2 * k], "wires") if k else [0]
        cls = mod.CSSCode if is_css else mod.QuditCode
        return cls.concatenate(code, outer, wires)

    circuit_text = "".join(
        f"{['H', 'S', 'X'][int(rng.integers(3))]} {int(rng.integers(n))}\n" for _ in range(3)
    )
    qudits = [int(x) for x in rng.permutation(n)[: max(1, n // 2)]]
    twin = None

    def pair() -> Any:
        other = mod.CSSCode(code.code_x, code.code_z) if is_css else mod.QuditCode(code)
        watched(code, "stacked code")
        return (mod.CSSCode if is_css and ch.flip() else mod.QuditCode).stack(code, other)

    del twin
    steps: list[tuple[str, Callable[[], Any]]] = [
        ("copy", lambda: mod.QuditCode(watched(code, "code"))),
        ("set logicals", set_logicals),
        ("conjugated", lambda: watched(code, "code").conjugated(watched(qudits, "qudits"))),
        ("stack", pair),
        ("concatenate", concatenate),
        ("canonicalized", lambda: watched(code, "code").canonicalized),
        ("dual subsystem", lambda: watched(code, "code").get_dual_subsystem_code()),
        ("queries", lambda: (code.rank, code.dimension, code.gauge_dimension,
                             code.get_weight() if len(code.matrix) else 0, str(code))),
        ("operators", lambda: (code.get_logical_ops(), code.get_stabilizer_ops(), code.get_gauge_ops())),
        ("stabilizers", lambda: code.get_stabilizer_ops(recompute=True, canonicalized=ch.flip())),
        ("recompute", lambda: mod.QuditCode(code).get_logical_ops(recompute=True)),
        ("standard form", lambda: mod.QuditCode.get_standard_form_data(watched(code, "code"))),
        ("strings", lambda: mod.QuditCode.from_strings(*watched(code.get_strings(), "strings"), field=q)
         if len(code.matrix) else None),
        ("graph", lambda: mod.QuditCode.graph_to_matrix(watched(mod.QuditCode(code).graph, "graph"))),
        ("equiv", lambda: mod.QuditCode.equiv(watched(code, "code"), mod.QuditCode(code))),
    ]  # fmt: skip
    if tiny:
        steps += [
            ("distance", lambda: watched(code, "code").get_distance()),
            ("params", lambda: watched(code, "code").get_code_params(bound=None)),
        ]
    if is_css:
        steps += [
            ("random logical", lambda: code.get_random_logical_op(pauli, seed=2)),
            ("standard form xz", lambda: code.get_standard_form_data_xz()),
            ("codes", lambda: (code.get_code(pauli).generator, code.get_matrix(pauli))),
        ]
        if tiny:
            steps += [
                ("reduce", reduce),
                ("distance bound", lambda: watched(code, "code").get_distance_bound(
                    2, pauli, with_lookup=True, max_weight=n)),
            ]  # fmt: skip
            if q == 2:
                steps.append(
                    ("error rate", lambda: watched(code, "code").get_logical_error_rate_func(
                        20, 0.2, watched([1.0, 2.0, 3.0], "bias"), with_lookup=True, max_weight=1)(0.1))
                )  # fmt: skip
    if q == 2:
        circuit = stim.Circuit(circuit_text)
        steps += [
            ("deformed", lambda: watched(code, "code").deformed(watched(circuit, "circuit"))),
            ("encoder", lambda: circuits.get_encoding_circuit(watched(code, "code"))),
            ("logical tableau", lambda: circuits.get_logical_tableau(
                watched(code, "code"), watched(circuit, "circuit"))),
        ]  # fmt: skip
    return steps


FAMILIES = [
    "general", "general", "css", "css", "css codes", "strings", "tb", "qc", "hgp", "hgp codes", "hgp graphs",
    "shp", "lp", "slp", "qt", "tanner", "generated",
]  # fmt: skip


def build_family(c: Context, ch: Chooser, kind: str) -> Callable[[], Any]:
    """A constructor call on watched arguments."""
    import networkx as nx
    import sympy

    from qldpc import abstract, objects

    mod = codes()
    q, rng = ch.q, ch.rng
    flag = ch.flip()
    if kind in ("general", "css", "generated"):
        case = None
        n = ch.size(2, 4 if q > 2 else 5)
        x = rng.integers(0, q, (ch.size(1, 2), n))
        null = util_null(q, x)
        if kind == "css":
            forms = [ch.form, ch.form + 3]
            mats = [as_form(x, q, forms[0]), as_form(null[: ch.size(0, len(null))], q, forms[1])]
            mats = [ch.watch.add(f"matrix {i}", m) for i, m in enumerate(mats)]
            del case
            return lambda: mod.CSSCode(*mats, field=q)
        if kind == "general":
            rows = rng.integers(0, q, (ch.size(1, 3), 2 * n))
            arg = ch.watch.add("matrix", as_form(rows, q, ch.form))
            return lambda: mod.QuditCode(arg, q)
        return lambda: [mod.SteaneCode, mod.FiveQubitCode, mod.C6Code, lambda: mod.SurfaceCode(2, 3, field=q),
                        lambda: mod.ToricCode(2, 2, field=q), lambda: mod.BaconShorCode(2, 3, q)][ch.size(0, 5)]()  # fmt: skip
    if kind == "css codes":
        a = ch.classical("code x", 2, 4)
        b = ~a
        ch.watch.add("code z", b, ~mod.ClassicalCode(a))
        return lambda: mod.CSSCode(a, b)
    if kind == "strings":
        strings = ch.watch.add("strings", ["X Z I", "Z X Z"] if q == 2 else ["X(1)*Z(1) I I", "I X(1) X(1)"])
        return lambda: mod.QuditCode.from_strings(*strings, field=q)
    if kind == "tb":
        order = ch.size(2, 3)
        shift = np.roll(np.eye(order, dtype=int), 1, axis=0)
        a = (np.eye(order, dtype=int) + shift * int(rng.integers(q))) % q
        b = (shift + shift @ shift * int(rng.integers(q))) % q
        mats = [ch.watch.add(name, as_form(m, q, ch.form + i)) for i, (name, m) in enumerate([("a", a), ("b", b)])]
        return lambda: mod.TBCode(*mats, field=q)
    if kind == "qc":
        x, y = sympy.symbols("x y")
        orders: Any = {x: 2, y: 3} if flag else [2, 3]
        orders = ch.watch.add("orders", orders)
        poly = ch.watch.add("polynomial", sympy.Poly(1 + x * y) if ch.flip() else 1 + x * y)
        cls = mod.BBCode if ch.flip() else mod.QCCode
        return lambda: cls(orders, poly, x + y**2, field=q)
    if kind in ("hgp", "shp"):
        a, b = ch.matrix("a", 2, 3), ch.matrix("b", ch.size(1, 2), ch.size(2, 3))
        return lambda: (mod.HGPCode if kind == "hgp" else mod.SHPCode)(a, b, field=q)
    if kind == "hgp codes":
        a, b = ch.classical("a", 2, 3), ch.classical("b", 1, 3)
        return lambda: mod.HGPCode(a, b if flag else None)
    if kind == "hgp graphs":
        graphs = [
            ch.watch.add(f"graph {i}", mod.ClassicalCode(rng.integers(0, q, (2, 3)), q).graph) for i in range(2)
        ]
        return lambda: mod.HGPCode.get_graph_product(*graphs)
    if kind in ("lp", "slp"):
        gg = abstract.CyclicGroup(ch.size(2, 3))
        ring = abstract.GroupRing(gg, q)
        members = list(gg.generate())
        data = [
            [
                abstract.RingMember(ring, (int(rng.integers(q)), members[int(rng.integers(len(members)))]))
                for _ in range(2)
            ]
            for _ in range(2)
        ]
        ch.watch.add("nested lists", data)
        a = ch.watch.add("array a", abstract.RingArray.build(data if flag else np.array(data), ring))
        b = ch.watch.add("array b", abstract.RingArray.build([[members[0], 0]], ring))
        if kind == "lp":
            return lambda: mod.LPCode(a, b if ch.flip() else None)
        return lambda: mod.SLPCode(a, b)
    if kind == "qt":
        gg = abstract.CyclicGroup(ch.size(4, 6))
        members = list(gg.generate())
        aa, bb = {members[1], members[-1]}, {members[0], members[1], members[-1]}
        box: Any = [set, list, tuple][ch.size(0, 2)]
        aa, bb = box(sorted(aa)), box(sorted(bb))
        ch.watch.add("subset a", aa)
        ch.watch.add("subset b", bb)
        a = ch.classical("code a", 1, 2)
        b = ch.classical("code b", 1, 3)
        return lambda: mod.QTCode(aa, bb, a, b, bipartite=ch.flip())
    assert kind == "tanner"
    graph: Any = nx.random_regular_graph(3, ch.size(2, 3) * 2, seed=int(rng.integers(1000)))
    if flag:
        sort = {edge: {node: int(rng.integers(9)) for node in edge} for edge in graph.edges}
        nx.set_edge_attributes(graph, sort, "sort")
    if ch.flip():
        ch.watch.add("graph", graph)
        digraph = quiet(c, "direction", lambda: mod.TannerCode.as_directed_subgraph(graph))
        ch.watch.check(c, "direction")
        graph = graph if digraph is None else digraph
    ch.watch.add("subgraph", graph)
    sub = ch.classical("subcode", 1, 3)
    del objects
    return lambda: mod.TannerCode(graph, sub)


def as_form(array: np.ndarray, q: int, form: int) -> Any:
    import galois

    form = form % 5
    if form == 0 and len(array):
        return [list(map(int, row)) for row in array]
    if form == 1:
        return galois.GF(q)(array)
    if form == 2:
        return array.astype(np.uint8)
    if form == 3:
        return np.asfortranarray(array)
    return array.copy()


def util_null(q: int, x: np.ndarray) -> np.ndarray:
    from vlib import ff

    return np.asarray(ff.get(q).null_space(x)).reshape(-1, x.shape[1])


@PROP.test(lambda: histories((2, 2, 2, 3, 4)), quick=2400, shards=8)
def quantum_codes(case: dict, c: Context) -> None:
    ch = Chooser(case)
    kind = FAMILIES[case["kind"] % len(FAMILIES)]
    func = build_family(c, ch, kind)
    code = quiet(c, f"built: {kind}", func)
    ch.watch.check(c, f"construction ({kind})")
    walk(c, ch, case, code)


@st.composite
def code_histories(draw: Any) -> dict:
    case = draw(histories((2, 2, 2, 3)))
    case["code"] = draw(gen.any_code(case["q"], 1, 5 if case["q"] == 2 else 3))
    return case


@PROP.test(code_histories, quick=1500, shards=4)
def derived_codes(case: dict, c: Context) -> None:
    """Changes to derived codes leave the original code alone."""
    ch = Chooser(case)
    code = ch.watch.add("code", quantum.build(case["code"]), quantum.build(case["code"]))
    walk(c, ch, case, code)


####################################################################################################
# everything else


@PROP.test(lambda: histories((2, 2, 3, 4, 5)), quick=1000, shards=3)
def other_objects(case: dict, c: Context) -> None:
    import stim

    from qldpc import abstract, decoders, math, objects

    ch = Chooser(case)
    rng, q = ch.rng, ch.q
    watch = ch.watch
    kind = case["kind"] % 8
    todo: list[tuple[str, Callable[[], Any]]] = []
    if kind == 0:
        import galois

        vectors = galois.GF(q)(rng.integers(0, q, (3, 4)))
        watch.add("vectors", vectors)
        plain = watch.add("plain", rng.integers(0, 2, 6))
        rows = ch.matrix("rows", 3, 4)
        todo = [
            ("conjugate", lambda: math.symplectic_conjugate(vectors)),
            ("conjugate plain", lambda: math.symplectic_conjugate(plain)),
            ("string", lambda: math.op_to_string(plain)),
            ("pivots", lambda: math.first_nonzero_cols(np.asarray(rows))),
            ("symplectic weight", lambda: decoders.get_symplectic_weight(plain)),
        ]
    elif kind == 1:
        # decoders, and codes decoded by them
        matrix = as_form(rng.integers(0, q, (3, 5)), q, 1 + case["form"] % 4 if q == 2 else 1)
        watch.add("matrix", matrix)
        error = rng.integers(0, q, 5) * (rng.random(5) < 0.4)
        F = __import__("galois").GF(q)
        syndrome = np.asarray(F(np.asarray(matrix).astype(int)) @ F(error)).view(np.ndarray).astype(int)
        syndrome = watch.add("syndrome", F(syndrome) if ch.flip() or q > 2 else syndrome)
        todo = [
            (name, lambda kwargs=kwargs: decoders.decode(matrix, syndrome, **watch.add("options", kwargs)))
            for name, kwargs in [
                ("lookup", dict(with_lookup=True, max_weight=2)),
                ("ILP", dict(with_ILP=True)),
                ("GUF", dict(with_GUF=True)),
            ]
        ]
        if q == 2:
            todo.append(("BP-OSD", lambda: decoders.decode(matrix, syndrome)))
    elif kind == 2:
        # chain complexes
        F = __import__("galois").GF(q)
        ops = [as_form(rng.integers(0, q, (2, 3)), q, 1 + ch.size(0, 3)) for _ in range(2)]
        watch.add("operators", ops)
        first = quiet(c, "chain", lambda: objects.ChainComplex(ops[0], field=q))
        second = quiet(c, "chain", lambda: objects.ChainComplex(ops[1], field=q))
        if first is not None and second is not None:
            todo = [
                ("product", lambda: objects.ChainComplex.tensor_product(first, second).ops),
                ("transpose", lambda: first.T.ops),
                ("degrees", lambda: [first.op(i) for i in range(3)]),
            ]
    elif kind == 3:
        # Cayley complexes
        gg = groups.build([["cyclic", 5], ["dihedral", 3], ["quaternion"]][ch.size(0, 1)])
        members = list(gg.generate())
        picks = {members[int(rng.integers(len(members)))] for _ in range(2)}
        subset = picks | {~x for x in picks}
        box: Any = [set, list, tuple][ch.size(0, 2)]
        a, b = watch.add("a", box(sorted(subset))), watch.add("b", box(sorted(subset)[::-1]))
        todo = [
            ("Cayley complex", lambda: objects.CayleyComplex(a, b).graph),
            ("Cayley graph", lambda: objects.CayleyComplex.build_cayley_graph(a, b)),
            ("conjugacy", lambda: objects.CayleyComplex.satisfies_total_no_conjugacy(a, b)),
        ]
    elif kind in (4, 5):
        # group algebras
        gg = watch.add("group", groups.build([["cyclic", 3], ["dihedral", 3], ["abelian", [2, 2]]][ch.size(0, 1)]))
        ring = abstract.GroupRing(gg, q)
        members = list(gg.generate())
        vectors = [watch.add("vector", as_form(rng.integers(0, q, (1, gg.order)), q, 1 + i)[0]) for i in range(2)]
        x, y = (abstract.RingMember.from_vector(ring, np.asarray(v)) for v in vectors)
        watch.add("x", x)
        watch.add("y", y)
        array = watch.add(
            "array", abstract.RingArray.build([[x, y], [abstract.RingMember(ring, members[-1]), 0]], ring)
        )
        coeffs = watch.add("coefficients", rng.integers(0, q, (2, gg.order)))
        todo = [
            ("sum", lambda: x + y),
            ("difference", lambda: x - y),
            ("product", lambda: x * y),
            ("scaled", lambda: x * int(rng.integers(q))),
            ("moved", lambda: members[-1] * x if ch.flip() else x * members[-1]),
            ("power", lambda: x**3),
            ("negation", lambda: (-x, x.T)),
            ("copy", lambda: x.copy()),
            ("lift", lambda: (x.lift(), x.regular_lift())),
            ("inverse", lambda: x.inverse()),
            ("array lift", lambda: (array.lift(), array.regular_lift(), array.T)),
            ("array product", lambda: (array @ array, array + array, array * x)),
            ("null space", lambda: array.null_space()),
            ("row reduce", lambda: array.row_reduce()),
            ("field array", lambda: abstract.RingArray.from_field_array(ring, coeffs)),
            ("table", lambda: abstract.Group.from_table(watch.add("table", gg.table))),
            ("in place", lambda: in_place(x, y, ring)),
        ]
    elif kind == 6:
        mats = [watch.add("generator", np.roll(np.eye(3, dtype=int), 1, axis=0)), watch.add("list", [[0, 1, 0], [1, 0, 0], [0, 0, 1]])]
        gg = watch.add("group", abstract.SymmetricGroup(3))
        todo = [
            ("matrix group", lambda: abstract.Group.from_generating_mats(*mats[: ch.size(1, 2)])),
            ("group product", lambda: gg * abstract.CyclicGroup(2)),
            ("group power", lambda: gg**2),
            ("sympy", lambda: abstract.Group.from_sympy(gg.to_sympy())),
            ("abelian", lambda: abstract.AbelianGroup(*watch.add("orders", [2, 3]))),
        ]
    else:
        circuit = watch.add("circuit", stim.Circuit("H 0\nCX 0 1"))
        code = ch.classical("code", 2, 4, 2)
        todo = [
            ("deformed", lambda: codes().QuditCode(ch.matrix("checks", 1, 4, 2)).deformed(circuit)),
            ("classical graph", lambda: codes().ClassicalCode.graph_to_matrix(watch.add("graph", code.graph))),
            ("quantum graph", lambda: codes().QuditCode.graph_to_matrix(
                watch.add("graph", codes().QuditCode.matrix_to_graph(ch.watch.add("checks", as_form(rng.integers(0, q, (2, 4)), q, 1)))))),
        ]  # fmt: skip
    watch.check(c, "construction")
    for index, _ in case["steps"] or [[0, 0]]:
        if todo:
            name, func = todo[index % len(todo)]
            result = quiet(c, name, func)
            c.nontrivial(result is not None)
            watch.check(c, name)


def in_place(x: Any, y: Any, ring: Any) -> Any:
    """In-place operations on a copy leave the original and the other operand alone."""
    z = x.copy()
    z += y
    z *= y
    z -= x
    return z


####################################################################################################
# seeds


def disturb(seed: int) -> None:
    import sympy

    random.seed(seed)
    np.random.seed(seed % 2**32)
    if seed % 3 != 1:
        # the state may include the second one of a pair of normally distributed numbers
        np.random.normal()
        random.gauss(0, 1)
    sympy.core.random.seed(seed)


def random_state() -> tuple:
    name, keys, *rest = np.random.get_state()
    return random.getstate(), (name, keys.tolist(), *rest)


SEEDED = ["array", "code", "word", "logical", "logical nontrivial", "member", "subset", "subset no identity",
          "tanner", "tanner one", "tanner pair"]  # fmt: skip


def seeded(kind: str, case: dict, fresh: bool) -> tuple[Callable[[int], Any], int]:
    """A seeded function of the seed alone, and a bound on its number of equally likely results."""
    from qldpc import abstract
    from qldpc.codes import common
    from qldpc.objects import Pauli

    mod = codes()
    q = case["q"]
    rng = np.random.default_rng(case["seed"])
    n = int(rng.integers(3, 7))
    if kind == "array":
        import galois

        shape: Any = (2, n) if rng.integers(2) else 2 * n
        limit = int(rng.integers(0, 3))
        field = galois.GF(q)
        return (
            lambda seed: common.get_random_array(
                field, shape, satisfy=lambda x: np.count_nonzero(x) >= limit, seed=seed
            ),
            q**n,
        )
    if kind == "code":
        checks = int(rng.integers(2, 5))
        return lambda seed: mod.ClassicalCode.random(n, checks, q, seed=seed).matrix, q**n
    if kind == "word":
        gens = np.hstack([np.eye(3, dtype=int), rng.integers(0, q, (3, n))])
        code = mod.ClassicalCode.from_generator(gens, q)
        if not fresh:
            code.get_random_word()
        return lambda seed: code.get_random_word(seed=seed), q**3
    if kind.startswith("logical"):
        size = int(rng.integers(2, 4))
        code = [mod.SurfaceCode(size, field=q), mod.ToricCode(2, field=q), mod.BaconShorCode(size, field=q)][
            int(rng.integers(3))
        ]
        pauli = Pauli.X if rng.integers(2) else Pauli.Z
        if not fresh:
            code.get_random_logical_op(pauli)
        strict = kind.endswith("nontrivial")
        return (
            lambda seed: code.get_random_logical_op(pauli, ensure_nontrivial=strict, seed=seed),
            q ** int(code.dimension),
        )
    group = [
        lambda: abstract.CyclicGroup(11),
        lambda: abstract.SymmetricGroup(4),
        lambda: abstract.DihedralGroup(7),
        lambda: abstract.AlternatingGroup(5),
        lambda: abstract.SymmetricGroup(9),
        lambda: abstract.CyclicGroup(3) * abstract.SymmetricGroup(3),
        lambda: abstract.QuaternionGroup(),
        lambda: abstract.Group(abstract.GroupMember([1, 2, 3, 4, 5, 6, 7, 8, 9, 0]),
                               abstract.GroupMember([9, 8, 7, 6, 5, 4, 3, 2, 1, 0])),
    ][int(rng.integers(8))]()  # fmt: skip
    if not fresh:
        group.random()
    if kind == "member":
        return lambda seed: tuple(group.random(seed=seed).array_form), group.order
    if kind.startswith("subset"):
        size = int(rng.integers(3, 6))
        no_identity = kind != "subset" and not isinstance(group, abstract.QuaternionGroup)
        odd = group.order % 2
        size += size % 2 if (odd or no_identity) else 0
        return (
            lambda seed: sorted(
                tuple(x.array_form)
                for x in group.random_symmetric_subset(size, exclude_identity=no_identity, seed=seed)
            ),
            3,
        )
    group = [abstract.CyclicGroup(7), abstract.DihedralGroup(4), abstract.SymmetricGroup(3)][int(rng.integers(3))]
    codes_ab: list = [mod.RepetitionCode(3, q)]
    if kind == "tanner pair":
        codes_ab.append(mod.RepetitionCode(2, q))
    one = kind == "tanner one"

    def tanner(seed: int) -> Any:
        code = mod.QTCode.random(group, *codes_ab, one_subset=one, bipartite=False, seed=seed)
        return (code.matrix, sorted(code.complex.subset_a), sorted(code.complex.subset_b))

    return tanner, 3


@st.composite
def seed_cases(draw: Any) -> dict:
    return dict(
        kind=draw(st.sampled_from(SEEDED)),
        q=draw(gen.field_orders((2, 2, 3, 4))),
        seed=draw(st.integers(0, 2**30)),
        first=draw(st.sampled_from([0, 1, 2, 17, 2**31 - 1, 2**32 - 1]) | st.integers(0, 2**32 - 1)),
        noise=draw(st.lists(st.integers(0, 2**31), min_size=2, max_size=2)),
    )


@PROP.test(seed_cases, quick=1000, shards=5)
def seeds_fix_results(case: dict, c: Context) -> None:
    kind = case["kind"]
    c.label(kind)
    c.nontrivial()
    func, space = seeded(kind, case, True)
    disturb(case["noise"][0])
    before = random_state()
    first = snap(func(case["first"]))
    c.equal(random_state(), before, f"{kind}: the global random state after a seeded call")
    second = snap(func(case["first"]))
    c.equal(second, first, f"{kind}: called again with the same seed")
    disturb(case["noise"][1])
    c.equal(snap(func(case["first"])), first, f"{kind}: with the same seed, in another random state")
    again, _ = seeded(kind, case, False)
    c.equal(snap(again(case["first"])), first, f"{kind}: with the same seed, on an equal object in use")
    # other seeds reach other results
    tries = 40 if space <= 3 else 24
    seen = {repr(first)}
    for index in range(tries):
        seen.add(repr(snap(func((case["first"] + 1 + index) % 2**32))))
        if len(seen) > 1:
            break
    if len(seen) == 1 and kind.startswith(("tanner", "subset")):
        c.label("possibly one result")  # there may be a single subset of this size
        return
    c.require(len(seen) > 1, f"{kind}: {tries + 1} seeds give one and the same result", first)


PROBE = """
import json, sys
sys.path.insert(0, {verif!r})
from vlib import core
from props import c26
print(json.dumps([repr(c26.snap(c26.seeded(kind, case, True)[0](seed))) for kind, case, seed in json.loads(sys.argv[1])]))
"""


def process_cases(tier: str) -> list:
    rng = np.random.default_rng(int(os.environ.get("VERIF_SEED", "1")))
    out = []
    for _ in range(3 if tier == "quick" else 20):
        out.append(
            [
                [kind, {"q": int(rng.choice([2, 3])), "seed": int(rng.integers(2**30))}, int(rng.integers(2**31))]
                for kind in SEEDED
            ]
        )
    return out


@PROP.test(cases=process_cases, shards=3)
def seeds_across_processes(case: list, c: Context) -> None:
    """Equal results in processes that order hashes differently."""
    here = [repr(snap(seeded(kind, spec, True)[0](seed))) for kind, spec, seed in case]
    c.nontrivial()
    for hash_seed in ("1", "4242"):
        env = {**os.environ, "PYTHONHASHSEED": hash_seed}
        out = subprocess.run(
            [sys.executable, "-c", PROBE.format(verif=core.VERIF), json.dumps(case)],
            env=env,
            capture_output=True,
            text=True,
        )
        if out.returncode:
            raise RuntimeError(out.stderr[-2000:])
        there = json.loads(out.stdout.strip().splitlines()[-1])
        for (kind, _, _), a, b in zip(case, here, there):
            c.equal(b, a, f"{kind}: with the same seed, in another process")


