"""equational prover for goals  a1 ++ .. ++ an == b1 ++ .. ++ bm

Uses only the string equations among the hypotheses: definitions of single terms are expanded,
equations between concatenations are cancelled and used as rewrite rules in both directions.
Answers True (entailed) or False (don't know)."""
import z3
from .core import flat, const_of

TIDS = {}      # id -> term (kept alive)


def tokens(t):
    out = []
    for p in flat(t):
        if z3.is_string_value(p):
            out.extend(const_of(p))
        else:
            TIDS[p.get_id()] = p
            out.append(p.get_id())
    return tuple(out)


def conjuncts(fs):
    for f in fs:
        if z3.is_and(f):
            for g in conjuncts(f.children()):
                yield g
        else:
            yield f


def occurs(tid, parts):
    """does the term occur in one of the parts (also inside)?"""
    for p in parts:
        if isinstance(p, int):
            if p == tid:
                return True
            todo = [TIDS[p]]
            seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() == tid:
                    return True
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                todo.extend(x.children())
    return False


def cancel(l, r):
    while l and r and l[0] == r[0]:
        l, r = l[1:], r[1:]
    while l and r and l[-1] == r[-1]:
        l, r = l[:-1], r[:-1]
    return l, r


class Sys(object):
    def __init__(self, fs):
        self.defs = {}
        self.rules = []
        eqs = []
        for f in conjuncts(fs):
            if z3.is_eq(f) and z3.is_string(f.arg(0)):
                eqs.append((tokens(f.arg(0)), tokens(f.arg(1))))
        todo = eqs
        for rnd in range(6):
            later = []
            changed = False
            for l, r in todo:
                l, r = cancel(self.norm(l), self.norm(r))
                if l == r:
                    continue
                if self.define(l, r):
                    changed = True
                else:
                    later.append((l, r))
            todo = later
            if not changed:
                break
        for l, r in todo:
            l, r = cancel(self.norm(l), self.norm(r))
            if l and r and l != r and len(l) + len(r) < 60:
                self.rules.append((l, r))

    def define(self, l, r):
        for a, b in ((l, r), (r, l)):
            if len(a) == 0:
                # all parts are empty
                if all(isinstance(x, int) for x in b):
                    for x in b:
                        self.defs[x] = ()
                    return True
                return False
            if len(a) == 1 and isinstance(a[0], int):
                if len(b) == 1 and isinstance(b[0], int) and b[0] > a[0]:
                    continue
                if a[0] not in b and not self.cyc(a[0], b):
                    self.defs[a[0]] = b
                    return True
        return False

    def cyc(self, x, parts):
        seen = set()
        todo = [p for p in parts if isinstance(p, int)]
        while todo:
            p = todo.pop()
            if p == x:
                return True
            if p in seen:
                continue
            seen.add(p)
            todo.extend(q for q in self.defs.get(p, ()) if isinstance(q, int))
        return False

    def norm(self, parts, fuel=400):
        out = []
        stack = list(reversed(parts))
        while stack:
            p = stack.pop()
            if isinstance(p, int) and p in self.defs and fuel > 0:
                fuel -= 1
                stack.extend(reversed(self.defs[p]))
            else:
                out.append(p)
        return tuple(out)

    def prove(self, a, b, limit=300):
        a, b = cancel(self.norm(a), self.norm(b))
        if a == b:
            return True
        seen = {(a, b)}
        todo = [(a, b)]
        rules = [(l, r) for l, r in self.rules] + [(r, l) for l, r in self.rules]
        n = 0
        while todo and n < limit:
            x, y = todo.pop(0)
            n += 1
            for side, s in ((0, x), (1, y)):
                for l, r in rules:
                    k = len(l)
                    for i in range(len(s) - k + 1):
                        if s[i:i + k] == l:
                            t = s[:i] + r + s[i + k:]
                            if len(t) > 80:
                                continue
                            p = cancel(t, y) if side == 0 else cancel(x, t)
                            if p[0] == p[1]:
                                return True
                            if p not in seen:
                                seen.add(p)
                                todo.append(p)
        return False


def entails(fs, goal):
    if not (z3.is_eq(goal) and z3.is_string(goal.arg(0))):
        return False
    a, b = tokens(goal.arg(0)), tokens(goal.arg(1))
    if a == b:
        return True
    return Sys(fs).prove(a, b)
