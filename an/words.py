"""Finite automata over marked words.

A word is the sequence  ^ u0 u1 ... u(n-1) $  of classes of code points; a mark is a name that sits on exactly one
letter (positions -1 .. n).  Class 0 is '^', class 1 is '$'.  All automata are deterministic and complete; the
languages are restricted to well-formed words on which every mark of the automaton occurs exactly once.
"""
from collections import deque
import numpy as np


class TooBig(Exception):
    pass


class A:
    """marks: tuple of names; d: int array [state][class][markset]; acc: bool array; state 0 is initial"""
    __slots__ = ("marks", "d", "acc")

    def __init__(self, marks, d, acc):
        self.marks, self.d, self.acc = marks, d, acc

    @property
    def n(self):
        return len(self.acc)


class Words:
    def __init__(self, nclasses, limit=6000):
        self.C = nclasses
        self.limit = limit
        self.cache = {}

    # ------------------------------------------------------------ construction
    def explore(self, marks, start, step, acc):
        """deterministic automaton from a step function state, class, markset -> state or None (dead)"""
        marks = tuple(marks)
        M = 1 << len(marks)
        ids = {start: 0}
        order = [start]
        rows = []
        k = 0
        while k < len(order):
            s = order[k]
            k += 1
            if k > self.limit:
                raise TooBig("automaton too large")
            row = np.full((self.C, M), -1, np.int32)
            for c in range(self.C):
                for m in range(M):
                    t = step(s, c, m)
                    if t is None:
                        continue
                    if t not in ids:
                        ids[t] = len(order)
                        order.append(t)
                    row[c, m] = ids[t]
            rows.append(row)
        n = len(order)
        d = np.stack(rows)
        dead = n
        d[d < 0] = dead
        d = np.concatenate([d, np.full((1, self.C, M), dead, np.int32)])
        a = np.array([bool(acc(s)) for s in order] + [False])
        return self.mini(A(marks, d, a))

    def mini(self, a):
        """minimal automaton, reachable states only, initial state 0"""
        n, flat = a.n, a.d.reshape(a.n, -1)
        # reachable
        seen = np.zeros(n, bool)
        seen[0] = True
        q = [0]
        while q:
            nx = np.unique(flat[q])
            nx = nx[~seen[nx]]
            seen[nx] = True
            q = list(nx)
        idx = np.nonzero(seen)[0]
        ren = np.full(n, -1, np.int64)
        ren[idx] = np.arange(len(idx))
        flat, acc = ren[flat[idx]], a.acc[idx]
        lab = acc.astype(np.int64)
        cnt = len(np.unique(lab))
        while True:
            key = np.concatenate([lab[:, None], lab[flat]], axis=1)
            _, first, new = np.unique(key, axis=0, return_index=True, return_inverse=True)
            new = new.reshape(-1)
            if len(first) == cnt:
                break
            lab, cnt = new, len(first)
        lab = new
        # initial state first
        perm = np.arange(cnt)
        perm[[0, lab[0]]] = perm[[lab[0], 0]]
        inv = np.argsort(perm)
        rep = first[inv]
        d = perm[lab[flat[rep]]].reshape(cnt, *a.d.shape[1:]).astype(np.int32)
        return A(a.marks, d, acc[rep])

    def valid(self, marks):
        """well-formed words with each mark exactly once"""
        marks = tuple(marks)
        if ('valid', marks) not in self.cache:
            full = (1 << len(marks)) - 1

            def step(s, c, m):
                ph, got = s
                if got & m:
                    return None
                if (ph == 0) != (c == 0) or ph == 2:
                    return None
                return (2 if c == 1 else 1), got | m
            self.cache[('valid', marks)] = self.explore(marks, (0, 0), step, lambda s: s == (2, full))
        return self.cache[('valid', marks)]

    def lift(self, a, marks):
        """the same condition with more marks (each exactly once)"""
        marks = tuple(marks)
        if marks == a.marks:
            return a
        pos = [marks.index(m) for m in a.marks]
        M = 1 << len(marks)
        sel = np.array([sum(((m >> p) & 1) << i for i, p in enumerate(pos)) for m in range(M)])
        return self.product(A(marks, a.d[:, :, sel], a.acc), self.valid(marks), np.logical_and)

    def product(self, a, b, op):
        assert a.marks == b.marks
        ids = {(0, 0): 0}
        order = [(0, 0)]
        rows = []
        k = 0
        fa, fb = a.d.reshape(a.n, -1).astype(np.int64), b.d.reshape(b.n, -1).astype(np.int64)
        while k < len(order):
            x, y = order[k]
            k += 1
            if k > 60000:
                raise TooBig("product too large")
            pair = fa[x] * b.n + fb[y]
            u, inv = np.unique(pair, return_inverse=True)
            loc = np.empty(len(u), np.int32)
            for j, p in enumerate(u):
                t = (int(p) // b.n, int(p) % b.n)
                if t not in ids:
                    ids[t] = len(order)
                    order.append(t)
                loc[j] = ids[t]
            rows.append(loc[inv.reshape(-1)])
        d = np.stack(rows).reshape(len(order), *a.d.shape[1:])
        o = np.array(order)
        return self.mini(A(a.marks, d, op(a.acc[o[:, 0]], b.acc[o[:, 1]])))

    def both(self, a, b):
        ms = tuple(sorted(set(a.marks) | set(b.marks)))
        return self.product(self.lift(a, ms), self.lift(b, ms), np.logical_and)

    def either(self, a, b):
        ms = tuple(sorted(set(a.marks) | set(b.marks)))
        return self.product(self.lift(a, ms), self.lift(b, ms), np.logical_or)

    def neg(self, a):
        return self.product(A(a.marks, a.d, ~a.acc), self.valid(a.marks), np.logical_and)

    def minus(self, a, b):
        return self.both(a, self.neg(b))

    def false(self, marks=()):
        marks = tuple(marks)
        return A(marks, np.zeros((1, self.C, 1 << len(marks)), np.int32), np.array([False]))

    def nfa(self, marks, starts, step, acc):
        """determinise: step(state, class, markset) -> iterable of states"""
        marks = tuple(marks)
        memo = {}

        def go(S, c, m):
            out = set()
            for s in S:
                k = (s, c, m)
                if k not in memo:
                    memo[k] = tuple(step(s, c, m))
                out.update(memo[k])
            return frozenset(out) if out else None
        a = self.explore(marks, frozenset(starts), go, lambda S: any(acc(s) for s in S))
        return self.product(a, self.valid(marks), np.logical_and)

    def project(self, a, mark):
        """there is a position for the mark"""
        if mark not in a.marks:
            return a
        i = a.marks.index(mark)
        ms = a.marks[:i] + a.marks[i + 1:]
        ins = lambda m, b: (m & ((1 << i) - 1)) | (b << i) | ((m >> i) << (i + 1))
        dead = self.dead(a)
        d = a.d

        def step(s, c, m):
            for b in (0, 1):
                t = int(d[s, c, ins(m, b)])
                if t not in dead:
                    yield t
        return self.nfa(ms, [0], step, lambda s: a.acc[s])

    def dead(self, a):
        """states from which nothing is accepted"""
        live = a.acc.copy()
        flat = a.d.reshape(a.n, -1)
        while True:
            n = live | live[flat].any(axis=1)
            if (n == live).all():
                return set(np.nonzero(~live)[0].tolist())
            live = n

    def witness(self, a):
        """shortest accepted word: list of (class, markset), or None"""
        prev = {0: None}
        q = deque([0])
        while q:
            s = q.popleft()
            if a.acc[s]:
                out = []
                while prev[s]:
                    p, c, m = prev[s]
                    out.append((c, m))
                    s = p
                return out[::-1]
            for c in range(self.C):
                for m in range(a.d.shape[2]):
                    t = int(a.d[s, c, m])
                    if t not in prev:
                        prev[t] = (s, c, m)
                        q.append(t)
        return None

    # ------------------------------------------------------------ atomic conditions
    # a position symbol is a mark, 'Z' (the first unit, position 0) or 'N' (the end, the position of '$')
    def unit(self, sym, c, classes):
        """the unit at sym+c exists and is in the set of classes"""
        cl = frozenset(classes)
        key = ('unit', sym, c, cl)
        if key in self.cache:
            return self.cache[key]
        marks = () if sym in 'ZN' else (sym,)
        W = max(0, -c)
        ok = lambda k: k > 1 and k in cl

        # state: (position counter up to 1, window of the last W membership bits, phase) phase: None before the
        # symbol, n>0 letters to go, True/False decided
        def step(s, k, m):
            cnt, win, ph = s
            at = (m == 1) if marks else (cnt == 1 if sym == 'Z' else k == 1)
            if ph is None and at:
                if c == 0:
                    ph = ok(k)
                elif c < 0:
                    ph = win[-W] if len(win) >= W else False
                else:
                    ph = ('in', c)
            elif isinstance(ph, tuple):
                ph = ok(k) if ph[1] == 1 else ('in', ph[1] - 1)
            if ph is True or ph is False:
                return (2, (), ph)
            return (min(cnt + 1, 2), (win + (ok(k),))[-W:] if W and ph is None else (), ph)
        a = self.explore(marks, (0, (), None), step, lambda s: s[2] is True)
        a = self.product(a, self.valid(marks), np.logical_and)
        self.cache[key] = a
        return a

    def diff(self, a, b, lo, hi):
        """lo <= pos(a) - pos(b) <= hi (None: unbounded)"""
        key = ('diff', a, b, lo, hi)
        if key in self.cache:
            return self.cache[key]
        marks = tuple(sorted({x for x in (a, b) if x not in 'ZN'}))
        K = max(abs(lo or 0), abs(hi or 0)) + 2

        def has(sym, cnt, k, m):
            if sym == 'Z':
                return cnt == 1
            if sym == 'N':
                return k == 1
            return bool(m >> marks.index(sym) & 1)

        def fin(v):
            return (lo is None or v >= lo) and (hi is None or v <= hi)

        # state: (counter, which came first, distance) or True/False
        def step(s, k, m):
            if s is True or s is False:
                return s
            cnt, first, dist = s
            A_, B_ = has(a, cnt, k, m), has(b, cnt, k, m)
            if first is None:
                if A_ and B_:
                    return fin(0)
                if A_ or B_:
                    first, dist = ('a' if A_ else 'b'), 0
            else:
                dist = min(dist + 1, K)
                if first == 'a' and B_:
                    return fin(-dist)
                if first == 'b' and A_:
                    return fin(dist)
            return (min(cnt + 1, 2), first, dist)
        r = self.explore(marks, (0, None, 0), step, lambda s: s is True)
        r = self.product(r, self.valid(marks), np.logical_and)
        self.cache[key] = r
        return r
