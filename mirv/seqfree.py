"""Queries about sequences with the sequence operations replaced by uninterpreted functions and ground facts about them.
The result is weaker than the query (every model of the query gives one of it), so its unsatisfiability is conclusive."""
import z3

INT = z3.IntSort()
NTH = ('seq.nth', 'seq.nth_i', 'seq.nth_u')
E = frozenset()


def is_list(s):
    return s.kind() == z3.Z3_SEQ_SORT and not s.eq(z3.StringSort())


class SeqFree:
    def __init__(self):
        self.memo = {}      # id -> (rewritten term, ids of the applications of interest in it)
        self.keep = []
        self.fn = {}
        self.term = {}
        self.known = {}

    def op(self, what, *sorts):
        k = (what,) + tuple(s.sexpr() for s in sorts)
        f = self.fn.get(k)
        if f is None:
            f = self.fn[k] = z3.Function('%s_%d' % (what, len(self.fn)), *sorts)
        return f

    def length(self, s):
        return self.op('len', s.sort(), INT)(s)

    def nth(self, s, i):
        return self.op('nth', s.sort(), INT, s.sort().basis())(s, i)

    def rewrite(self, f):
        memo = self.memo
        stack = [f]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in memo:
                stack.pop()
                continue
            if not z3.is_app(t):
                memo[i] = (t, E)
                self.keep.append(t)
                stack.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            ids = E
            new = []
            for c in ch:
                n, a = memo[c.get_id()]
                new.append(n)
                if a and a is not ids:
                    ids = ids | a if ids else a
            d = t.decl()
            k = d.kind()
            r = None
            if ch and is_list(ch[0].sort()):
                if k == z3.Z3_OP_SEQ_LENGTH:
                    r = self.length(new[0])
                elif len(ch) == 2 and d.name() in NTH:
                    r = self.nth(new[0], new[1])
                elif k == z3.Z3_OP_SEQ_CONCAT:
                    r = self.op('concat%d' % len(ch), *([t.sort()] * (len(ch) + 1)))(*new)
                elif k == z3.Z3_OP_SEQ_EXTRACT:
                    r = self.op('extract', t.sort(), INT, INT, t.sort())(*new)
            elif k == z3.Z3_OP_SEQ_UNIT and is_list(t.sort()):
                r = self.op('unit', ch[0].sort(), t.sort())(new[0])
            if r is not None:
                ids = ids | {r.get_id()}
                self.term[r.get_id()] = (r, k if d.name() not in NTH else 'nth')
            elif all(a is b or a.eq(b) for a, b in zip(ch, new)):
                r = t
            else:
                r = d(*new)
            if k == z3.Z3_OP_SEQ_EMPTY and is_list(t.sort()):
                ids = ids | {r.get_id()}
                self.term[r.get_id()] = (r, k)
            memo[i] = (r, ids)
            self.keep.append(t)
            self.keep.append(r)
        return memo[f.get_id()]

    def facts(self, ids):
        out = {}
        for i in sorted(ids):
            fs = self.known.get(i)
            if fs is None:
                fs, lens = [], set()
                self.fact(*self.term[i], fs, lens)
                self.known[i] = fs
            for f in fs:
                out[f.get_id()] = f
        return list(out.values())

    def nonneg(self, s, out, lens):
        if s.get_id() not in lens:
            lens.add(s.get_id())
            out.append(self.length(s) >= 0)
            self.shape(s, out, lens)

    def shape(self, s, out, lens):
        n = s.decl().name()
        if n.startswith('concat'):
            out.append(self.length(s) == z3.Sum([self.length(c) for c in s.children()]))
            for c in s.children():
                self.nonneg(c, out, lens)
        elif n.startswith('unit_'):
            out.append(self.length(s) == 1)
        elif n.startswith('extract_'):
            b, o, m = s.children()
            lb = self.length(b)
            self.nonneg(b, out, lens)
            out.append(self.length(s) == z3.If(z3.And(o >= 0, o < lb, m > 0), z3.If(m <= lb - o, m, lb - o), z3.IntVal(0)))
        elif s.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            out.append(self.length(s) == 0)

    def fact(self, r, k, out, lens):
        if k == z3.Z3_OP_SEQ_LENGTH:
            self.nonneg(r.arg(0), out, lens)
        elif k == 'nth':
            self.cases(r.arg(0), r.arg(1), out, lens, 0)
        else:
            self.nonneg(r, out, lens)

    def cases(self, s, i, out, lens, depth):
        self.nonneg(s, out, lens)
        n = s.decl().name()
        if depth > 4:
            return
        if n.startswith('concat'):
            off = z3.IntVal(0)
            for c in s.children():
                lc = self.length(c)
                j = z3.simplify(i - off)
                out.append(z3.Implies(z3.And(j >= 0, j < lc), self.nth(s, i) == self.nth(c, j)))
                self.cases(c, j, out, lens, depth + 1)
                off = z3.simplify(off + (z3.IntVal(1) if c.decl().name().startswith('unit_') else lc))
        elif n.startswith('unit_'):
            out.append(z3.Implies(i == 0, self.nth(s, i) == s.arg(0)))
        elif n.startswith('extract_'):
            b, o, m = s.children()
            out.append(z3.Implies(z3.And(i >= 0, i < self.length(s)), self.nth(s, i) == self.nth(b, z3.simplify(o + i))))
            self.cases(b, z3.simplify(o + i), out, lens, depth + 1)

    def query(self, fs):
        """the weaker query, or None when no sequence operation occurs"""
        out, ids = [], E
        for f in fs:
            r, a = self.rewrite(f)
            out.append(r)
            if a and a is not ids:
                ids = ids | a if ids else a
        if not ids:
            return None
        return out + self.facts(ids)
