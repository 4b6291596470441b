"""C06: logical operators of stabilizer codes."""

from __future__ import annotations

from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, quantum, util
from vlib.core import Context, Property

PROP = Property(
    "C06",
    "Stabilizer groups over F_2,3,4,5,7,8,9 on 1-6 qudits, drawn as images of Z_1..Z_r under random"
    " products of generalised Clifford gates, with mixed, redundant and zero generators.  User"
    " supplied logical operators are images of the computed ones under random symplectic maps of"
    " the logical space and multiplication by stabilizers, then possibly corrupted.  Non-trivial:"
    " at least one logical qudit and one independent check.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


@st.composite
def stabilizer_case(draw: Any, max_n: int = 6) -> dict:
    q = draw(gen.field_orders())
    case = draw(gen.stabilizer_matrix(q, 1, max_n))
    return {"q": q, **case, "kind": draw(st.integers(0, 5))}


def build(case: dict) -> Any:
    matrix, kwargs = util.container(case["kind"], case["rows"], 2 * case["n"], case["q"])
    return codes().QuditCode(matrix, **kwargs)


@PROP.test(stabilizer_case, quick=2400, shards=3)
def logical_operators(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    rows = util.mat(case["rows"], 2 * n)
    code = build(case)
    info = quantum.check_code(c, code, rows, n, q, standard_form=True)
    k = info["k"]
    c.nontrivial(k and info["r"])
    c.label(f"q={q}", f"k={min(k, 3)}", "redundant" if len(rows) > info["r"] else "independent")
    logicals = info["logicals"]
    # documented shape of the computed operators
    c.require(not logicals[k:, :n].any(), "logical Z-type operators have X support", logicals)
    c.require(logicals[:k, :n].any(axis=1).all(), "logical X-type operator without X support")
    # logical operators and stabilizers together generate everything that commutes with the checks
    complement = field.symp_complement(rows)
    everything = np.vstack([info["center"], logicals])
    c.require(field.same_span(everything, complement), "logical ops and stabilizers are not all")
    again = util.ints(code.get_logical_ops(recompute=True), logicals.shape, "recomputed", q)
    quantum.check_logicals(c, field, again, rows, "recomputed logical ops")


@PROP.test(stabilizer_case, quick=700, shards=2)
def canonical_form_and_equivalence(case: dict, c: Context) -> None:
    q, n, field = case["q"], case["n"], ff.get(case["q"])
    rows = util.mat(case["rows"], 2 * n)
    code = build(case)
    reduced = field.rref(rows)
    c.nontrivial(len(reduced) > 1)
    canon = code.canonicalized
    c.equal(util.ints(canon.matrix, reduced.shape, "canonical checks", q), reduced, "canonical")
    other = codes().QuditCode(reduced[::-1].copy(), q)
    QuditCode = codes().QuditCode
    c.require(QuditCode.equiv(code, other), "equivalent codes are reported as different")
    c.require(QuditCode.equiv(code, canon), "a code differs from its canonical form")
    c.equal(code == other, rows.shape == other.matrix.shape and bool((rows == reduced[::-1]).all()), "==")
    if len(reduced):
        smaller = QuditCode(reduced[:-1].copy(), q)
        c.require(not QuditCode.equiv(code, smaller), "different codes are reported as equivalent")
    kept = QuditCode(code)
    c.require(kept == code and int(kept.dimension) == int(code.dimension), "copy of a code")
    c.raises(
        ValueError, lambda: QuditCode(code, 2 if q != 2 else 3), "copy over another field"
    )


@st.composite
def user_logicals_case(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    case = draw(gen.stabilizer_matrix(q, 1, 5, min_k=1))
    field = ff.get(q)
    k = case["n"] - field.rank(util.mat(case["rows"], 2 * case["n"]))
    gates = [gen.symplectic_gate(draw, field, k) for _ in range(draw(st.integers(0, 6)))]
    coeffs = [draw(gen.row(q, len(case["rows"]))) for _ in range(2 * k)]
    corrupt = draw(st.sampled_from(gen.CORRUPTIONS))
    numbers = [draw(st.integers(0, 10**6)) for _ in range(3)]
    return {"q": q, **case, "gates": gates, "coeffs": coeffs, "corrupt": corrupt, "numbers": numbers}


@PROP.test(user_logicals_case, quick=2400, shards=3)
def supplied_logical_operators(case: dict, c: Context) -> None:
    q, n = case["q"], case["n"]
    rows = util.mat(case["rows"], 2 * n)
    code = codes().QuditCode(rows, q)
    c.nontrivial(len(rows))
    quantum.supplied_logicals(c, case, code, rows, n, q)
