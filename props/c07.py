"""C07: subsystem codes split into stabilizers, gauge operators and logical operators."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C07",
    "Gauge groups over F_2,3,4,5,7,8,9 on 1-5 qudits: images of <Z_1..Z_s, X_i, Z_i> under random"
    " generalised Clifford circuits, pairs of arbitrary X/Z check matrices, and arbitrary check"
    " matrices; redundant and zero generators included; with and without the explicit subsystem"
    " flag.  Non-trivial: at least one gauge qudit.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def gauge_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    kind = draw(st.sampled_from(["clifford", "clifford", "free", "css"]))
    if kind == "clifford":
        case = draw(gen.gauge_matrix(q, 1, 5))
        rows, n = case["rows"], case["n"]
    elif kind == "free":
        n = draw(st.integers(1, 5))
        rows = draw(gen.matrix(q, 0, 6, 2 * n, 2 * n))
    else:
        n = draw(st.integers(1, 6))
        hx = draw(gen.matrix(q, 0, 4, n, n))
        hz = draw(gen.matrix(q, 0, 4, n, n))
        rows = [row + [0] * n for row in hx] + [[0] * n + row for row in hz]
    flag = draw(st.sampled_from([None, None, True]))
    return {"q": q, "n": n, "rows": rows, "flag": flag, "origin": kind}


@PROP.test(gauge_case, quick=3000, shards=5)
def decomposition(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    rows = util.mat(case["rows"], 2 * n)
    code = codes().QuditCode(rows, q, is_subsystem_code=case["flag"])
    info = quantum.check_code(
        c, code, rows, n, q, subsystem=case["flag"], standard_form=True
    )
    g, k = info["g"], info["k"]
    c.nontrivial(g)
    c.label(case["origin"], f"g={min(g, 2)}", f"k={min(k, 2)}")
    c.equal(info["s"] + g + k, n, "stabilizer, gauge and logical qudits")
    check_dual(c, code, info, rows, n, q)


def check_dual(c: Context, code: Any, info: dict, rows: np.ndarray, n: int, q: int) -> None:
    """The dual subsystem code exchanges gauge and logical qudits."""
    dual = code.get_dual_subsystem_code()
    dual_rows = np.vstack([info["center"], info["logicals"]])
    dual_info = quantum.check_code(
        c, dual, dual_rows, n, q, what="dual code", subsystem=info["k"] != 0, exact_rows=False
    )
    c.equal((dual_info["k"], dual_info["g"]), (info["g"], info["k"]), "dimensions of the dual code")
    twice = dual.get_dual_subsystem_code()
    quantum.check_code(
        c, twice, rows, n, q, what="twice dual code", subsystem=info["g"] != 0, exact_rows=False
    )


@st.composite
def css_gauge_case(draw: Any) -> dict:
    q = draw(gen.field_orders())
    n = draw(st.integers(1, 7))
    if draw(st.booleans()):
        hx = draw(gen.matrix(q, 0, 4, n, n))
        hz = draw(gen.matrix(q, 0, 4, n, n))
    else:
        case = draw(gen.css_matrices(q, n, n))
        hx, hz = case["hx"], case["hz"]
        if draw(st.booleans()):
            hx.append(draw(gen.row(q, n)))
    flag = draw(st.sampled_from([None, None, True]))
    return {"q": q, "n": n, "hx": hx, "hz": hz, "flag": flag}


@PROP.test(css_gauge_case, quick=2200, shards=3)
def css_decomposition(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    rows = np.vstack([np.hstack([hx, 0 * hx]), np.hstack([0 * hz, hz])])
    code = codes().CSSCode(hx, hz, q, is_subsystem_code=case["flag"])
    info = quantum.check_code(c, code, rows, n, q, subsystem=case["flag"], standard_form=True)
    c.nontrivial(info["g"])
    c.label(f"g={min(info['g'], 2)}", f"k={min(info['k'], 2)}")
    check_dual(c, code, info, rows, n, q)


@st.composite
def user_logicals_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    case = draw(gen.gauge_matrix(q, 2, 5, min_k=1))
    k = case["n"] - case["s"] - case["g"]
    return {
        "q": q,
        **case,
        "flag": draw(st.sampled_from([None, True])),
        "gates": [gen.symplectic_gate(draw, ff.get(q), k) for _ in range(draw(st.integers(0, 5)))],
        "coeffs": [draw(gen.row(q, len(case["rows"]))) for _ in range(2 * k)],
        "corrupt": draw(st.sampled_from(gen.CORRUPTIONS)),
        "numbers": [draw(st.integers(0, 10**6)) for _ in range(3)],
        "before": draw(st.lists(st.sampled_from(["gauge", "stabilizers", "dual"]), max_size=2)),
    }


@PROP.test(user_logicals_case, quick=1200, shards=3)
def supplied_logical_operators(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    rows = util.mat(case["rows"], 2 * n)
    code = codes().QuditCode(rows, q, is_subsystem_code=case["flag"])
    for query in case["before"]:
        if query == "gauge":
            code.get_gauge_ops()
        elif query == "stabilizers":
            code.get_stabilizer_ops(canonicalized=True)
        else:
            code.get_dual_subsystem_code()
    quantum.supplied_logicals(c, case, code, rows, n, q)
    c.nontrivial(case["g"])
