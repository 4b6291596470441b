"""C21: logical error rate estimates follow from the decoder and the error model."""

from __future__ import annotations

import hashlib
import itertools
import math
import warnings
from typing import Any

import numpy as np
from hypothesis import strategies as st

from vlib import ff, gen, util
from vlib.core import Context, Property

PROP = Property(
    "C21",
    "Classical codes of up to 8 and CSS codes of up to 6 qudits over F_2,3,4,5; decoders that record"
    " every sampled error and fail on an arbitrary drawn set of errors, and lookup decoders; 1 to"
    " 3000 samples; limits on the error rate between 0 and 1; every Pauli bias.  The rate is compared"
    " with the binomial mixture of the failure fractions of the recorded samples (exactly), and with"
    " the enumerated truth (exactly if failures are a function of the weight, else statistically with"
    " error probability below 1e-9).  Non-trivial: some sampled weight fails and the rate at a"
    " positive physical rate is strictly between 0 and 1.",
)


def codes() -> Any:
    from qldpc import codes

    return codes


def decoders() -> Any:
    from qldpc import decoders

    return decoders


def binomial(n: int, k: int, p: float) -> float:
    return math.comb(n, k) * p**k * (1 - p) ** (n - k)


def pseudo(salt: int, *things: Any) -> int:
    text = repr((salt, things)).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:6], "big")


class Recorder:
    """Builds decoders that record what they are asked, and answer by a given rule."""

    def __init__(self) -> None:
        self.words: dict[str, list[tuple]] = {}

    def direct(self, name: str, answer: Any, q: int) -> Any:
        calls = self.words.setdefault(name, [])

        def decode(word: Any) -> Any:
            word = util.ints(word, None, f"error handed to the {name} decoder", q)
            calls.append(tuple(int(x) for x in word.ravel()))
            return np.array(answer(calls[-1]), dtype=int)

        return decoders().DirectDecoder(decode)


RATES = (0.001, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.75, 0.9, 0.99, 1.0)


@st.composite
def budgets(draw: Any, top: int = 60) -> dict:
    limit = draw(st.sampled_from((0.3, *RATES, 1e-9, 0.0)))
    below = [r for r in (*RATES, 1e-9, 1e-5) if r <= limit]
    return dict(
        samples=draw(st.sampled_from([1, 2, 3, 7, draw(st.integers(1, top))])),
        limit=limit,
        default=limit == 0.3 and draw(st.booleans()),
        rates=draw(st.lists(st.sampled_from(below), max_size=3)) if below else [],
        above=draw(st.floats(1e-6, 2, allow_nan=False)),
    )


def check_interface(c: Context, function: Any, budget: dict) -> None:
    """The returned function at zero, at its limit, above its limit, and for sequences."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rate, error = function(0)
        c.equal((float(rate), float(error)), (0.0, 0.0), "rate at zero physical error rate")
        c.raises(
            ValueError,
            lambda: function(budget["limit"] + budget["above"]),
            "physical error rates above the limit",
        )
        rates = [0.0, *budget["rates"], budget["limit"]]
        many, errors = function(rates)
        c.equal((len(many), len(errors)), (len(rates),) * 2, "number of results for a sequence")
        for p, value, error in zip(rates, many, errors):
            one = function(p)
            c.equal((float(one[0]), float(one[1])), (float(value), float(error)), "single call")
            c.require(-1e-9 <= value <= 1 + 1e-9, "logical error rate outside [0, 1]", p, value)
            c.require(error >= 0 and np.isfinite(error), "standard error", p, error)


def check_mixture(
    c: Context, function: Any, n: int, budget: dict, counts: dict, failures: dict
) -> None:
    """The rate and its error follow from the sampled failures for every weight."""
    c.require(0 not in counts, "samples of weight zero")
    total = sum(counts.values())
    if budget["limit"] > 0:
        c.require(total >= budget["samples"], "not all samples are used", total, budget["samples"])
        top = max(counts)
        c.equal(sorted(counts), list(range(1, top + 1)), "weights that are sampled")
    seen = False
    for p in [0.0, *budget["rates"], budget["limit"]]:
        fidelity = binomial(n, 0, p)
        variance = 0.0
        for k, count in counts.items():
            share = failures.get(k, 0) / count
            fidelity += binomial(n, k, p) * (1 - share)
            variance += binomial(n, k, p) ** 2 * share * (1 - share) / count
        rate, error = function(p)
        tail = 1 - sum(binomial(n, k, p) for k in (0, *counts))
        c.require(abs(float(rate) - (1 - fidelity)) < 1e-8, "logical error rate", p, rate, 1 - fidelity, tail)
        c.require(abs(float(error) - math.sqrt(variance)) < 1e-8, "standard error", p, error)
        seen = seen or (any(failures.values()) and 1e-6 < 1 - fidelity < 1 - 1e-6)
    if seen:
        c.nontrivial()


RULES = ("hash", "first site", "weight", "value", "always", "never")


def failing(rule: str, salt: int, word: tuple) -> bool:
    weight = sum(map(bool, word))
    if rule == "never":
        return False
    if rule == "always":
        return weight > 0
    if rule == "weight":
        return weight > salt % 4
    if rule == "first site":
        return bool(word[salt % len(word)])
    if rule == "value":
        return any(x > 1 for x in word)
    return pseudo(salt, word) % 3 == 0


####################################################################################################
# classical codes


@st.composite
def classical(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    rows = draw(gen.matrix(q, 1, 5, 1, 8))
    return dict(
        q=q,
        rows=rows,
        budget=draw(budgets()),
        rule=draw(st.sampled_from(RULES)),
        salt=draw(st.integers(0, 2**20)),
        indirect=draw(st.integers(0, 3)) == 3,
    )


@PROP.test(classical, quick=500)
def classical_rates(case: dict, c: Context) -> None:
    """Recorded samples determine the whole function."""
    import galois

    q, rows, budget = case["q"], util.mat(case["rows"], len(case["rows"][0])), case["budget"]
    n = rows.shape[1]
    code = codes().ClassicalCode(galois.GF(q)(rows))
    F = ff.get(q)
    words: list[tuple] = []
    recorder = Recorder()
    c.label(f"q={q}", case["rule"], "indirect" if case["indirect"] else "direct")

    def answer(word: tuple) -> list[int]:
        if not failing(case["rule"], case["salt"], word):
            return [0] * n
        word_index = case["salt"] % n
        return [int(i == word_index) * (1 + case["salt"] % (q - 1)) for i in range(n)]

    class Indirect:
        """A decoder of syndromes: the caller subtracts what it returns from the error."""

        def __init__(self) -> None:
            self.calls: list[tuple] = []

        def decode(self, syndrome: Any) -> Any:
            self.calls.append(tuple(util.ints(syndrome, (len(rows),), "syndrome", q).tolist()))
            return np.zeros(n, dtype=int)

    built = []

    def constructor(matrix: Any, **args: Any) -> Any:
        c.equal(util.ints(matrix, rows.shape, "matrix of the decoder", q), rows, "decoder matrix")
        c.equal(args, {"option": 3}, "decoder options")
        built.append(
            Indirect() if case["indirect"] else recorder.direct("word", answer, q)
        )
        return built[-1]

    args: dict = {} if budget["default"] else {"max_error_rate": budget["limit"]}
    function = code.get_logical_error_rate_func(
        budget["samples"], **args, decoder_constructor=constructor, option=3
    )
    c.require(len(built) >= 1, "no decoder was built")
    check_interface(c, function, budget)
    if case["indirect"]:
        # nothing is ever corrected, so every error is a failure
        top = None
        for p in [*budget["rates"], budget["limit"]]:
            rate, error = function(p)
            c.require(
                abs(float(rate) - (1 - (1 - p) ** n)) < 1e-8 and abs(float(error)) < 1e-8,
                "rate without correction",
                p,
                rate,
            )
        calls = sum(len(d.calls) for d in built)
        if budget["limit"]:
            c.require(calls >= budget["samples"], "not all samples are decoded", calls)
        return
    counts: dict[int, int] = {}
    failures: dict[int, int] = {}
    for word in recorder.words["word"]:
        weight = sum(map(bool, word))
        c.require(all(0 <= x < q for x in word), "sampled error outside of the field", word)
        counts[weight] = counts.get(weight, 0) + 1
        failures[weight] = failures.get(weight, 0) + failing(case["rule"], case["salt"], word)
    check_mixture(c, function, n, budget, counts, failures)


####################################################################################################
# CSS codes

BIASES = {
    "depolarizing": None,
    "X": (1, 0, 0),
    "Y": (0, 1, 0),
    "Z": (0, 0, 1),
    "XY": None,
    "YZ": None,
    "XZ": None,
    "any": None,
}


@st.composite
def css(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 3, 4, 5)))
    data = draw(gen.css_matrices(q, 1, {2: 6, 3: 5}.get(q, 4), 0 if draw(st.integers(0, 5)) == 0 else 1))
    if draw(st.integers(0, 3)) == 0:
        data["hx" if draw(st.booleans()) else "hz"].append(draw(gen.row(q, data["n"])))
    kind = draw(st.sampled_from(["X", "Y", "Z", "XY", "YZ", "XZ", "any", "depolarizing"]))
    parts = [draw(st.sampled_from([0.1, 0.5, 1, 2, 3])) for _ in range(3)]
    if kind == "depolarizing":
        bias = None
    elif kind == "any":
        bias = parts
    else:
        bias = [part if axis in kind else 0 for axis, part in zip("XYZ", parts)]
    # which decoder may fail, such that the weights of failing samples can be told from its words
    if kind in ("X", "XY"):
        fails = "X"
    elif kind in ("Z", "YZ"):
        fails = "Z"
    elif kind == "Y":
        fails = draw(st.sampled_from(["both", "X", "Z"]))
    else:
        fails = "none"
    return dict(
        q=q,
        **data,
        kind=kind,
        bias=bias,
        as_tuple=draw(st.booleans()),
        fails=fails,
        budget=draw(budgets()),
        rule=draw(st.sampled_from(RULES[1:3] if fails == "both" else RULES)),
        salt=draw(st.integers(0, 2**20)),
    )


@PROP.test(css, quick=500)
def css_rates(case: dict, c: Context) -> None:
    import galois
    from qldpc.objects import Pauli

    q, n, budget = case["q"], case["n"], case["budget"]
    hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
    F = ff.get(q)
    GF = galois.GF(q)
    noncommuting = len(hx) and len(hz) and F.matmul(hx, hz.T).any()
    code = codes().CSSCode(GF(hx), GF(hz), is_subsystem_code=bool(noncommuting))
    stabs = {
        p: util.ints(code.get_stabilizer_ops(p, canonicalized=False), (None, n), "stabilizers", q)
        for p in (Pauli.X, Pauli.Z)
    }
    logicals = {
        p: util.ints(code.get_logical_ops(p), (None, n), "logical operators", q)
        for p in (Pauli.X, Pauli.Z)
    }
    k = len(logicals[Pauli.X])
    recorder = Recorder()
    fails = case["fails"] if k else "none"
    c.label(f"q={q}", case["kind"], f"fails {fails}", "subsystem" if noncommuting else "stabilizer")

    def answers(pauli: Any, name: str) -> Any:
        """Residual errors of a decoder: harmless, or a logical operator."""

        def answer(word: tuple) -> np.ndarray:
            number = pseudo(case["salt"], word, name)
            out = np.zeros(n, dtype=int)
            for row in stabs[pauli]:
                number, coeff = divmod(number, q)
                out = F.plus(out, F.times(coeff, row))
            if fails in (name, "both") and failing(case["rule"], case["salt"], word):
                number, index = divmod(number, k)
                out = F.plus(out, F.times(1 + number % (q - 1), logicals[pauli][index]))
            return out

        return answer

    same = F.same_span(stabs[Pauli.X], stabs[Pauli.Z])

    def constructor(matrix: Any, **args: Any) -> Any:
        c.equal(args, {"option": "a"}, "decoder options")
        matrix = util.ints(matrix, (None, n), "matrix of the decoder", q)
        if F.same_span(matrix, stabs[Pauli.Z]) and not (same and "X" in recorder.words):
            return recorder.direct("X", answers(Pauli.X, "X"), q)
        c.require(F.same_span(matrix, stabs[Pauli.X]), "decoder for other parity checks", matrix)
        return recorder.direct("Z", answers(Pauli.Z, "Z"), q)

    if same:
        # the decoders cannot be told apart, other than by the errors that they see
        if fails != "none":
            c.label("decoders not distinguishable")
            return
    args: dict = {} if budget["default"] else {"max_error_rate": budget["limit"]}
    if case["bias"] is not None:
        bias = tuple(case["bias"]) if case["as_tuple"] else list(case["bias"])
        args["pauli_bias"] = bias
    function = code.get_logical_error_rate_func(
        budget["samples"], **args, decoder_constructor=constructor, option="a"
    )
    if case["bias"] is not None:
        c.equal(list(bias), case["bias"], "caller's bias after the call")
    check_interface(c, function, budget)
    words = recorder.words
    for name in ("X", "Z"):
        c.require(name in words, f"no decoder for {name}-type errors was built")
    counts: dict[int, int] = {}
    failures: dict[int, int] = {}
    if fails == "none":
        # all samples pass through both decoders
        c.equal(len(words["X"]), len(words["Z"]), "decodings of X-type and Z-type errors")
        for x, z in zip(words["X"], words["Z"]):
            weight = sum(bool(a or b) for a, b in zip(x, z))
            counts[weight] = counts.get(weight, 0) + 1
            if not same:
                check_kind(c, case, x, z)
    else:
        if fails == "both":
            # errors have equal supports, which decide about failure: all see the first decoder
            fails = max("XZ", key=lambda name: len(words[name]))
        for word in words[fails]:
            weight = sum(map(bool, word))
            counts[weight] = counts.get(weight, 0) + 1
            failures[weight] = failures.get(weight, 0) + failing(case["rule"], case["salt"], word)
        other = words["Z" if fails == "X" else "X"]
        if case["kind"] in ("X", "Z"):
            c.require(not any(map(any, other)), "errors of an excluded type")
        if case["kind"] == "Y":
            c.require(
                set(tuple(map(bool, w)) for w in other)
                <= set(tuple(map(bool, w)) for w in words[fails]),
                "Y errors have equal X and Z support",
            )
    check_mixture(c, function, n, budget, counts, failures)
    if fails == "none" and budget["limit"] and sum(counts.values()) > 3:
        c.nontrivial()


def check_kind(c: Context, case: dict, x: tuple, z: tuple) -> None:
    """Errors only have the types that the bias allows."""
    kind = case["kind"]
    if kind in ("any", "depolarizing"):
        return
    for a, b in zip(x, z):
        if a or b:
            pauli = "Y" if a and b else "X" if a else "Z"
            c.require(pauli in kind, "error of an excluded type", pauli, kind)


####################################################################################################
# distribution of the sampled errors


@st.composite
def distributions(draw: Any) -> dict:
    q = draw(st.sampled_from([2, 2, 3, 4]))
    parts = [draw(st.sampled_from([0, 1, 1, 2, 4])) for _ in range(3)]
    if not any(parts):
        parts[draw(st.integers(0, 2))] = 1
    return dict(
        q=q,
        n=draw(st.integers(2, 6)),
        bias=None if draw(st.integers(0, 2)) == 0 else parts,
        scale=draw(st.sampled_from([1, 0.01, 7])),
        limit=draw(st.sampled_from([0.2, 0.5, 1.0])),
        samples=draw(st.sampled_from([2000, 3000])),
        classical=draw(st.integers(0, 3)) == 0,
    )


@PROP.test(distributions, quick=60, thorough=500)
def error_models(case: dict, c: Context) -> None:
    """Sites, types and values of the sampled errors have the documented frequencies."""
    import galois

    q, n = case["q"], case["n"]
    GF = galois.GF(q)
    recorder = Recorder()
    zeros = lambda word: [0] * n  # noqa: E731
    ones = [[1] * n]
    if case["classical"]:
        c.label("classical")
        code = codes().ClassicalCode(GF(ones))
        build = lambda matrix: recorder.direct("word", zeros, q)  # noqa: E731
        code.get_logical_error_rate_func(
            case["samples"], case["limit"], decoder_constructor=build
        )
        samples = recorder.words["word"]
        check_sites(c, samples, n)
        check_values(c, [x for word in samples for x in word if x], q)
        c.nontrivial()
        return
    # X-type checks only: the decoder of X-type errors has no checks at all
    code = codes().CSSCode(GF(ones), np.zeros((0, n), dtype=int).view(GF))

    def build_css(matrix: Any) -> Any:
        return recorder.direct("Z" if len(matrix) else "X", zeros, q)

    args = {}
    bias = [1, 1, 1]
    if case["bias"] is not None:
        bias = [part * case["scale"] for part in case["bias"]]
        args["pauli_bias"] = bias
    code.get_logical_error_rate_func(
        case["samples"], case["limit"], decoder_constructor=build_css, **args
    )
    xs, zs = recorder.words["X"], recorder.words["Z"]
    c.equal(len(xs), len(zs), "decodings of X-type and Z-type errors")
    samples = [tuple((a, b) if a or b else 0 for a, b in zip(x, z)) for x, z in zip(xs, zs)]
    check_sites(c, samples, n)
    paulis = ["XYZ"[(1 if a and b else 0 if a else 2)] for w in samples for a, b in filter(None, w)]
    for axis, part in zip("XYZ", bias):
        frequency = paulis.count(axis) / len(paulis)
        # at least 2000 independent draws: deviations of 0.08 have probability below 1e-10
        c.require(
            abs(frequency - part / sum(bias)) < 0.08, f"frequency of {axis} errors", frequency, bias
        )
    check_values(c, [a for w in samples for a, b in filter(None, w) if a], q)
    check_values(c, [b for w in samples for a, b in filter(None, w) if b], q)
    for a_value in range(1, q):
        both = [b for w in samples for a, b in filter(None, w) if b and a == a_value]
        if len(both) > 500:
            check_values(c, both, q)
    c.nontrivial()


def check_values(c: Context, values: list[int], q: int) -> None:
    """All non-zero field elements are equally likely."""
    if len(values) < 500:
        return
    tolerance = math.sqrt(25 / (2 * len(values)))  # Hoeffding: probability below 1e-10
    for value in range(1, q):
        frequency = values.count(value) / len(values)
        c.require(abs(frequency - 1 / (q - 1)) < tolerance, f"frequency of value {value}", frequency)
    c.require(set(values) <= set(range(1, q)), "values of errors", set(values))


def check_sites(c: Context, samples: list[tuple], n: int) -> None:
    """Given the weight of an error, all supports are equally likely."""
    by_weight: dict[int, list[tuple]] = {}
    for word in samples:
        support = tuple(i for i, x in enumerate(word) if x)
        by_weight.setdefault(len(support), []).append(support)
    for weight, supports in by_weight.items():
        if len(supports) < 300:
            continue
        tolerance = math.sqrt(25 / (2 * len(supports)))
        for subset in itertools.combinations(range(n), weight):
            frequency = supports.count(subset) / len(supports)
            c.require(
                abs(frequency - 1 / math.comb(n, weight)) < tolerance,
                f"frequency of support {subset}",
                frequency,
            )


####################################################################################################
# real decoders


@st.composite
def truths(draw: Any) -> dict:
    q = draw(gen.field_orders((2, 2, 3)))
    is_css = draw(st.booleans())
    case: dict = dict(q=q, css=is_css)
    if is_css:
        case.update(draw(gen.css_matrices(q, 1, {2: 5, 3: 3}[q], 1)))
        parts = [draw(st.sampled_from([0, 1, 1, 3])) for _ in range(3)]
        case["bias"] = parts if any(parts) and draw(st.booleans()) else None
    else:
        rows = draw(gen.matrix(q, 1, 4, 1, {2: 7, 3: 5}[q]))
        case["rows"] = rows
    case["weight"] = draw(st.integers(0, 3))
    case["limit"] = draw(st.sampled_from([0.3, 0.1, 0.5, 1.0]))
    case["exact"] = draw(st.booleans())
    return case


@PROP.test(truths, quick=100, thorough=900)
def enumerated_rates(case: dict, c: Context) -> None:
    """Lookup decoders: exact when each weight surely fails or never does, else close to the truth."""
    import galois
    from qldpc.objects import Pauli

    q = case["q"]
    F = ff.get(q)
    GF = galois.GF(q)
    options = dict(with_lookup=True, max_weight=case["weight"])
    c.label(f"q={q}", "css" if case["css"] else "classical", f"weight {case['weight']}")
    if not case["css"]:
        rows = util.mat(case["rows"], len(case["rows"][0]))
        n = rows.shape[1]
        code = codes().ClassicalCode(GF(rows))
        decoder = decoders().get_decoder(GF(rows), **options)
        truth = np.zeros(n + 1)
        totals = np.zeros(n + 1)
        for word in F.all_vectors(n):
            weight = np.count_nonzero(word)
            totals[weight] += 1
            truth[weight] += (decoder.decode(F.matmul(rows, word)) != word).any()
        truth /= totals
        samples = [1, 5, 50] if case["exact"] else [4000]
        args: dict = {}
    else:
        n = case["n"]
        hx, hz = util.mat(case["hx"], n), util.mat(case["hz"], n)
        if not len(hx) or not len(hz):
            return
        code = codes().CSSCode(GF(hx), GF(hz))
        lx = util.ints(code.get_logical_ops(Pauli.X), (None, n), "logical operators", q)
        lz = util.ints(code.get_logical_ops(Pauli.Z), (None, n), "logical operators", q)
        decoder_x = decoders().get_decoder(GF(hz), **options)
        decoder_z = decoders().get_decoder(GF(hx), **options)
        all_words = F.all_vectors(n)
        bad = []
        for checks, decoder, tests in ((hz, decoder_x, lz), (hx, decoder_z, lx)):
            flags = {}
            for word in all_words:
                residual = F.minus(word, util.ints(decoder.decode(F.matmul(checks, word)), (n,), "error", q))
                flags[tuple(word.tolist())] = bool(F.matmul(tests, residual).any())
            bad.append(flags)
        bias = case["bias"] or [1, 1, 1]
        px, py, pz = (b / sum(bias) for b in bias)
        truth = np.zeros(n + 1)
        for x in all_words:
            for z in all_words:
                weight = np.count_nonzero(x | z)
                if not (bad[0][tuple(x.tolist())] or bad[1][tuple(z.tolist())]):
                    continue
                prob = 1 / math.comb(n, weight)
                for a, b in zip(x, z):
                    if a and b:
                        prob *= py / (q - 1) ** 2
                    elif a:
                        prob *= px / (q - 1)
                    elif b:
                        prob *= pz / (q - 1)
                truth[weight] += prob
        samples = [1, 5, 50] if case["exact"] else [3000]
        args = {} if case["bias"] is None else {"pauli_bias": tuple(case["bias"])}
    truth = np.round(truth, 12)
    for count in samples:
        function = code.get_logical_error_rate_func(count, case["limit"], **args, **options)
        sure = set(truth) <= {0.0, 1.0}
        for p in (case["limit"] / 4, case["limit"] / 2, case["limit"]):
            weights = [binomial(n, w, p) for w in range(n + 1)]
            exact = sum(a * b for a, b in zip(weights, truth))
            rate, error = map(float, function(p))
            c.require(-1e-9 <= rate <= 1 + 1e-9 and error >= 0, "rate or error", rate, error)
            if sure:
                # weights beyond the largest sampled one count as failures
                bounds = {
                    sum(a * b for a, b in zip(weights[: top + 1], truth)) + sum(weights[top + 1 :])
                    for top in range(1, n + 1)
                }
                c.require(any(abs(rate - bound) < 1e-8 for bound in bounds), "rate", p, rate, exact)
                if case["limit"] == 1.0:
                    c.require(abs(rate - exact) < 1e-8, "rate", p, rate, exact)
                c.require(error < 1e-8, "standard error of a certain result", error)
                c.nontrivial()
            elif not case["exact"]:
                # each weight that matters has hundreds of samples
                c.require(abs(rate - exact) < 0.15, "rate is far from the truth", p, rate, exact)
                c.require(abs(rate - exact) < 8 * error + 0.05, "standard error is too small", error)
                c.nontrivial()
