"""Finite automata: explicit-state reference models of the stateful functions, replayed against the real code."""

import numpy as np


class Machine:
    """Reachable state graph of a step function: step(state, letter) -> (state, output)."""

    def __init__(self, step, initial, letters, depth=None):
        self.letters = list(letters)
        self.states = []
        self.index = {}
        for s in initial:
            self._add(s)
        self.init = [self.index[s] for s in initial]
        self.next, self.out = [], []
        level = {self.index[s]: 0 for s in initial}
        i = 0
        while i < len(self.states):
            row, out = [], []
            if depth is not None and level[i] >= depth:
                self.next.append(None)
                self.out.append(None)
                i += 1
                continue
            for a in self.letters:
                t, o = step(self.states[i], a)
                k = self._add(t)
                level.setdefault(k, level[i] + 1)
                row.append(k)
                out.append(o)
            self.next.append(row)
            self.out.append(out)
            i += 1
        self.transitions = sum(len(r) for r in self.next if r)
        N = len(self.states)
        self.nx = np.array([r if r else [-1] * len(self.letters) for r in self.next], dtype=np.int64).reshape(N, -1)

    def _add(self, s):
        if s not in self.index:
            self.index[s] = len(self.states)
            self.states.append(s)
        return self.index[s]

    def run(self, start, words):
        """start: state index (scalar or per word); words: (N, L) letter indices.
        Returns the visited state indices after each letter, (N, L)."""
        words = np.asarray(words)
        cur = np.broadcast_to(start, (len(words),)).copy()
        vis = np.empty(words.shape, dtype=np.int64)
        for k in range(words.shape[1]):
            cur = self.nx[cur, words[:, k]]
            vis[:, k] = cur
        return vis
