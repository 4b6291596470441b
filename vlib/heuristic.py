"""Decoders that are allowed to be wrong: a stand-in for heuristic decoders."""

from __future__ import annotations

from typing import Any

import numpy as np

from . import ff


class Heuristic:
    """Makes a few (wrong or lucky) guesses, and then finds solutions.

    The guesses and the choice of solution are pseudo-random.  All decoders built with one source
    share its budget of guesses, so that every search that retries ends.
    """

    def __init__(self, q: int, seed: int, guesses: int, light: bool = False) -> None:
        self.field = ff.get(q)
        self.rng = np.random.default_rng(seed)
        self.guesses = guesses
        self.wrong = 0
        self.light = light

    def __call__(self, matrix: Any, **kwargs: Any) -> "_Decoder":
        assert not kwargs, kwargs
        return _Decoder(self, np.asarray(matrix).astype(int))


class _Decoder:
    def __init__(self, source: Heuristic, matrix: np.ndarray) -> None:
        self.source, self.matrix = source, matrix

    def decode(self, syndrome: Any) -> np.ndarray:
        source, field, rng = self.source, self.source.field, self.source.rng
        s = np.asarray(syndrome).astype(int)
        n = self.matrix.shape[1]
        if source.guesses:
            source.guesses -= 1
            guess = np.zeros(n, dtype=int)
            kind = int(rng.integers(5))
            if kind < 3 and n:
                # one or two entries that address a violated check
                for _ in range(int(rng.integers(1, 3))):
                    rows = np.flatnonzero(s)
                    row = self.matrix[rng.choice(rows)] if len(rows) else np.ones(n, dtype=int)
                    sites = np.flatnonzero(row)
                    if len(sites):
                        guess[rng.choice(sites)] = rng.integers(1, field.q)
            elif kind == 3:
                guess = rng.integers(0, field.q, size=n)
            got = field.matmul(self.matrix, guess.reshape(-1, 1)).ravel()
            source.wrong += not np.array_equal(got, s)
            return guess
        one = field.solve(self.matrix, s)
        if one is None:
            return np.zeros(n, dtype=int)
        kernel = field.null_space(self.matrix)
        if len(kernel):
            if source.light and field.q ** len(kernel) <= 5000:
                all_of_them = field.plus(field.span(kernel), one.reshape(1, -1))
                return all_of_them[np.count_nonzero(all_of_them, axis=1).argmin()].copy()
            mix = rng.integers(0, field.q, size=(1, len(kernel)))
            one = field.plus(one.reshape(1, -1), field.matmul(mix, kernel))[0]
        return one.copy()
