"""Symbolic executor over dumped MIR: forward, path based, loops cut at invariants."""
import os, re, time, z3, itertools
from .tys import Types, Unsupported, NonPure, norm, last
from .seqfree import SeqFree

I = z3.IntVal


def seq_parts(s):
    """the concatenated parts of a sequence term"""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in s.children() for p in seq_parts(c)]
    return [s]


def unfield(s):
    """a field of a known record"""
    return z3.simplify(s) if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_DT_ACCESSOR else s


def nth(s, i):
    """s[i], folded when it is an element of a literal part of a concatenation"""
    i = I(i) if isinstance(i, int) else i
    ps = seq_parts(unfield(s))
    if len(ps) > 1 or ps[0].decl().kind() == z3.Z3_OP_SEQ_UNIT:
        off = I(0)
        for p in ps:
            unit = p.decl().kind() == z3.Z3_OP_SEQ_UNIT
            if unit and z3.is_int_value(d := z3.simplify(i - off)) and d.as_long() == 0:
                return p.arg(0)
            off = off + (I(1) if unit else z3.Length(p))
    return s[i]


def nth_cases(s, i):
    """s[i] by cases over the parts of a concatenation"""
    ps = seq_parts(unfield(s))
    if len(ps) == 1 and ps[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
        return s[i]
    out, off, conds = None, I(0), []
    for p in ps:
        unit = p.decl().kind() == z3.Z3_OP_SEQ_UNIT
        n = I(1) if unit else z3.Length(p)
        conds.append((i < off + n, p.arg(0) if unit else p[z3.simplify(i - off)]))
        off = off + n
    out = conds[-1][1]
    for c, v in reversed(conds[:-1]):
        out = z3.If(c, v, out)
    return out


def length(s):
    """the length of a concatenation as a sum"""
    ps = seq_parts(unfield(s))
    if len(ps) == 1 and ps[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
        return z3.Length(s)
    n = sum(p.decl().kind() == z3.Z3_OP_SEQ_UNIT for p in ps)
    return z3.Sum([I(n)] + [z3.Length(p) for p in ps if p.decl().kind() != z3.Z3_OP_SEQ_UNIT])


def but_last(s):
    """s without its last element"""
    s = unfield(s)
    ps = seq_parts(s)
    if len(ps) > 1 and ps[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
        return ps[0] if len(ps) == 2 else z3.Concat(*ps[:-1])
    return z3.SubSeq(s, I(0), z3.Length(s) - 1)


class Poison:
    def __repr__(self):
        return 'POISON'
POISON = Poison()


class Agg:
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, variant, fields):
        self.ty, self.variant, self.fields = ty, variant, tuple(fields)

    def __repr__(self):
        return 'Agg(%s,%s,%s)' % (self.ty, self.variant, self.fields)


class Ref:
    """reference to a place: root + path (tuple of projection elements); ty = type of the pointee"""
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, tuple(path), ty

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.root, self.path)


class Obj:
    """library object modelled in Python: iterators, guards, format arguments, ..."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.d = kw

    def __getattr__(self, n):
        try:
            return self.__dict__['d'][n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return Obj(self.kind, **d)

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.kind, self.d)


class Disc:
    """discriminant of a datatype term"""
    def __init__(self, term, ty):
        self.term, self.ty = term, ty


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Ref):
        return same(a.root, b.root) and same(a.path, b.path)
    if isinstance(a, Obj):
        return a.kind == b.kind and a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Disc):
        return same(a.term, b.term)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


INT = z3.IntSort()
UPD = {}


def seq_update(s, i, v):
    """s with element i replaced by v; its axioms are instantiated at the element positions of a query"""
    k = str(s.sort())
    if k not in UPD:
        UPD[k] = z3.Function('seq_update', s.sort(), INT, v.sort(), s.sort())
    return UPD[k](s, i, v)


def seq_update_facts(s, i, v, positions):
    r = seq_update(s, i, v)
    n = z3.Length(s)
    out = [z3.Length(r) == n, z3.Implies(z3.And(i >= 0, i < n), r[i] == v)]
    for j in positions:
        if not j.eq(i):
            out.append(z3.Implies(z3.And(j >= 0, j < n, j != i), r[j] == s[j]))
    return out


def seq_remove(s, i):
    """s without element i; axioms as for seq_update"""
    k = 'remove ' + str(s.sort())
    if k not in UPD:
        UPD[k] = z3.Function('seq_remove', s.sort(), INT, s.sort())
    return UPD[k](s, i)


def seq_remove_facts(s, i, positions):
    r = seq_remove(s, i)
    n = z3.Length(s)
    out = [z3.Implies(z3.And(i >= 0, i < n), z3.Length(r) == n - 1)]
    for j in positions:
        out.append(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n - 1), r[j] == z3.If(j < i, s[j], s[j + 1])))
    return out


SEQ_FACTS = {'seq_update': seq_update_facts, 'seq_remove': seq_remove_facts}


class TermInfo:
    """per-node facts about terms, computed once per node: index terms, applications of functions of interest, free variables"""
    E = frozenset()

    def __init__(self):
        self.memo = {}
        self.term = {}
        self.watch = set()
        self.rules = {}

    def info(self, f):
        memo = self.memo
        r = memo.get(f.get_id())
        if r is not None:
            return r
        stack = [(f, None)]
        while stack:
            t, ch = stack.pop()
            i = t.get_id()
            if i in memo:
                continue
            if ch is None:
                if z3.is_quantifier(t):
                    b = t.body()
                    if b.get_id() in memo:
                        memo[i] = (self.E, memo[b.get_id()][1], False, memo[b.get_id()][3], memo[b.get_id()][4])
                        self.term[i] = t
                    else:
                        stack.append((t, None))
                        stack.append((b, None))
                    continue
                if not z3.is_app(t):
                    memo[i] = (self.E, self.E, True, self.E, False)
                    self.term[i] = t
                    continue
                ch = t.children()
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    stack.append((t, ch))
                    stack.extend((c, None) for c in todo)
                    continue
            idx, apps, fv, nth, dec = self.E, self.E, False, self.E, False
            for c in ch:
                a, b, v, n_, d_ = memo[c.get_id()]
                dec = dec or d_
                if a and a is not idx:
                    idx = a if not idx else idx | a
                if b and b is not apps:
                    apps = b if not apps else apps | b
                if n_ and n_ is not nth:
                    nth = n_ if not nth else nth | n_
                fv = fv or v
            d = t.decl()
            k = d.kind()
            isnth = k == z3.Z3_OP_SEQ_NTH or (len(ch) == 2 and d.name() in ('seq.nth_i', 'seq.nth_u'))
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) or isnth:
                x = ch[1]
                j = x.get_id()
                if j not in idx and not memo[j][2]:
                    idx = idx | {j}
                if isnth and not memo[j][2] and j not in nth:
                    nth = nth | {j}
            elif k == z3.Z3_OP_UNINTERPRETED and not fv and ch and (d.get_id() in self.watch or d.name() in SEQ_FACTS):
                apps = apps | {i}
            memo[i] = (idx, apps, fv, nth, dec or k == z3.Z3_OP_INT_TO_STR)
            self.term[i] = t
        return memo[f.get_id()]

    def index_terms(self, fs):
        ids = set()
        for f in fs:
            ids |= self.info(f)[0]
        out = {}
        for j in sorted(ids):
            t = self.term[j]
            out.setdefault(t.sort().name(), []).append(t)
        return out


class State:
    def __init__(self):
        self.pc = []
        self.frames = {}
        self.heaps = {}
        self.alloc = {}
        self.statics = {}
        self.ghost = {}
        self.borrows = ()
        self.notes = ()
        self.depth = 0

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heaps = dict(self.heaps)
        s.alloc = dict(self.alloc)
        s.statics = dict(self.statics)
        s.ghost = dict(self.ghost)
        s.borrows = self.borrows
        s.notes = self.notes
        s.depth = self.depth
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return self
        self.pc.append(f)
        return self

    def note(self, *a):
        self.notes = self.notes + (a,)
        return self


class Outcome:
    """how a path through a function ends: kind in ret|panic|exit|exec|abort|diverge"""
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


def assert_all(s, fs):
    c, sol = s.ctx.ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, sol, f.as_ast())


class Deadline(Exception):
    pass


DEBUG = bool(os.environ.get('MIRV_CAND'))
SLOW = float(os.environ.get('MIRV_SLOW', '0'))


class Engine:
    def __init__(self, dump, models, log=None):
        self.ty = Types(dump['types'])
        self.fns = {f['id']: f for f in dump['fns']}
        self.statics = dump.get('statics', {})
        self.by_name = {}
        for f in dump['fns']:
            self.by_name.setdefault(norm(f['name']), []).append(f)
            f['ndef'] = norm(f['def'])
            f['nname'] = norm(f['name'])
        self.models = models          # list of (matcher, handler)
        self.mcache = {}
        self.contracts = {}           # def name -> python function(engine, state, fn, args) -> [Outcome]
        self.cand = None              # invariant candidates: f(L) -> [(name, formula)]
        self.spec_unfold = []         # definitional axioms instantiated on demand
        self.variants = []
        self.counter = itertools.count()
        self.maxpaths = 4000
        self.maxdepth = 40
        self.fn_info = {}
        self.inlined = {}
        self.used_models = {}
        self.used_contracts = {}
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = None
        self.smt_timeout = 4000
        self.feas_timeout = 1500
        self.instances = {}
        self.len_candidates = True
        self.on_event = None          # called with (kind, state, data…) at modelled system calls: specifications keep histories with it
        self.candidate = None
        self.after_candidate = 8000
        self.seq_weak = False         # try queries with the sequence operations made uninterpreted first
        self.seqfree = SeqFree()
        self.feas_cache = {}
        self.fnptr_ids = {}
        self.heap_types = {}
        self.assumptions = set()

    # ---------------------------------------------------------------- utilities
    fresh_count = 0

    def fresh(self, base, sort):
        self.fresh_count += 1
        return z3.Const('%s!%d' % (base, next(self.counter)), sort)

    def fresh_ty(self, st, ty, base='v'):
        """fresh value of a type (with range facts)"""
        k = self.ty.kind(ty)
        if self.ty.pure(ty):
            v = self.fresh(base, self.ty.sort(ty))
            if st is not None:
                self.range_facts(st, v, ty)
            return v
        if k == 'tuple':
            return Agg(ty, None, [self.fresh_ty(st, f, base) for f in self.ty[ty]['f']])
        raise Unsupported('fresh value of type ' + self.ty.s(ty))

    def range_facts(self, st, v, ty):
        t = self.ty[ty]
        if t['k'] == 'int':
            if not t['sg']:
                st.assume(v >= 0)
        elif t['k'] == 'char':
            st.assume(z3.And(v >= 0, v <= 0x2ffff))
        elif t['k'] == 'adt' and self.ty.clike(ty) and v.sort() == z3.IntSort():
            st.assume(z3.Or([v == I(int(x['disc'])) for x in t['v']]))

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Deadline('time budget exhausted')

    def terminfo(self):
        ids = {d.get_id() for d, _ in self.spec_unfold}
        ti = getattr(self, '_ti', None)
        if ti is None or ti.watch != ids:
            ti = self._ti = TermInfo()
            ti.watch = ids
            ti.rule_of = {d.get_id(): r for d, r in self.spec_unfold}
        return ti

    def instantiate(self, fs, depth=3):
        """ground instances of the definitional axioms of specification functions occurring in fs"""
        out = []
        ti = self.terminfo()
        done = set()
        frontier = fs
        nth, upd = set(), []
        pairs = set()
        for _ in range(depth):
            ids = set()
            for f in frontier:
                x = ti.info(f)
                ids |= x[1]
                nth |= x[3]
            ids -= done
            done |= ids
            new = []
            for i in sorted(ids):
                t = ti.term[i]
                if t.decl().name() in SEQ_FACTS:
                    upd.append(t)
                    continue
                r = ti.rules.get(i)
                if r is None:
                    r = []
                    for d, rule in self.spec_unfold:
                        if d.eq(t.decl()):
                            x = rule(*t.children())
                            r += [] if x is None else (x if isinstance(x, list) else [x])
                    ti.rules[i] = r
                new.extend(r)
            for t in upd:
                ps = [j for j in nth if (t.get_id(), j) not in pairs]
                if ps or (t.get_id(), None) not in pairs:
                    pairs.add((t.get_id(), None))
                    pairs.update((t.get_id(), j) for j in ps)
                    new.extend(SEQ_FACTS[t.decl().name()](*t.children(), [ti.term[j] for j in sorted(ps)]))
            if not new:
                break
            out.extend(new)
            frontier = new
        return out

    def instance(self, q, *ts):
        k = (q.get_id(),) + tuple(t.get_id() for t in ts)
        r = self.instances.get(k)
        if r is None:
            r = self.instances[k] = (z3.substitute_vars(q.body(), *ts), q, ts)
        return r[0]

    def decimal_free(self, fs):
        """the formulas with the decimal conversions replaced by uninterpreted functions with ground facts (a weaker set), or None"""
        ti = self.terminfo()
        if not any(ti.info(f)[4] for f in fs):
            return None
        apps, lits, seen = [], {}, set()
        stack = list(fs)
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(t):
                return None
            if z3.is_app(t):
                k = t.decl().kind()
                if k in (z3.Z3_OP_INT_TO_STR, z3.Z3_OP_STR_TO_INT):
                    apps.append(t)
                elif z3.is_string_value(t):
                    lits[t.as_string()] = t
                stack.extend(t.children())
        if not any(t.decl().kind() == z3.Z3_OP_INT_TO_STR for t in apps):
            return None
        dec = z3.Function('decimal', z3.IntSort(), z3.StringSort())
        undec = z3.Function('decimal_value', z3.StringSort(), z3.IntSort())
        depth = {}

        def size(t):
            i = t.get_id()
            if i not in depth:
                depth[i] = 1 + max([size(c) for c in t.children()], default=0)
            return depth[i]
        apps.sort(key=size)
        pairs, facts = [], []
        for t in apps:
            x = t.arg(0)
            x = z3.substitute(x, *pairs) if pairs else x
            if t.decl().kind() == z3.Z3_OP_INT_TO_STR:
                n = dec(x)
                facts.append(z3.If(x >= 0, z3.And(undec(n) == x, z3.Length(n) > 0), n == z3.StringVal('')))
            else:
                n = undec(x)
                facts.append(n >= -1)
            pairs.append((t, n))
        for v, t in lits.items():
            if v.isdigit() and v.isascii():
                facts.append(undec(t) == int(v))
                if str(int(v)) == v:
                    facts.append(dec(I(int(v))) == t)
            elif '\\' not in v:
                facts.append(undec(t) == -1)
        return [z3.substitute(f, *pairs) for f in fs] + facts

    def check_weak(self, fs, quick=False):
        if self.seq_weak:
            w = self.seqfree.query(fs)
            if w is not None:
                s = z3.Solver()
                s.set('timeout', self.feas_timeout if quick else 2000)
                assert_all(s, w)
                r = s.check()
                if r == z3.unsat or quick:
                    return r
                if r == z3.sat:
                    self.candidate = s
        w = self.decimal_free(fs)
        if w is None:
            return z3.unknown
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*w)
        return s.check()

    def solve(self, fs, timeout=None, unfold=True, quick=False):
        self.check_time()
        self.candidate = None       # a solver holding a model of the ground instances, when the last query had one
        t0 = time.time()
        flat, qs = [], []
        stack = list(reversed(fs))
        while stack:
            f = stack.pop()
            if z3.is_and(f):
                stack.extend(reversed(f.children()))
            elif z3.is_quantifier(f) and f.is_forall() and (f.num_vars() == 1 or f.num_vars() == 2 and f.var_sort(0) == f.var_sort(1)):
                qs.append(f)
            else:
                flat.append(f)
        try:
            if qs:
                # first with ground instances only (a weaker set of hypotheses: unsat is conclusive)
                ground = list(flat)
                ti = self.terminfo()
                terms = ti.index_terms(flat)
                goal = ti.info(fs[-1])[0] if self.seq_weak else ()
                for rnd in range(1 if quick and self.seq_weak else 2):
                    new = []
                    if goal:
                        terms = {k: sorted(v, key=lambda t: t.get_id() not in goal) for k, v in terms.items()}
                    for q in qs:
                        ts = terms.get(q.var_sort(0).name(), [])
                        if q.num_vars() == 2:
                            if not quick:
                                new.extend(self.instance(q, t, u) for t in ts[:12] for u in ts[:12] if t is not u)
                            continue
                        for t in ts[:60]:
                            new.append(self.instance(q, t))
                    ground = flat + new
                    more = ti.index_terms(ground)
                    if all(len(more[k]) == len(terms.get(k, [])) for k in more):
                        break
                    terms = more
                s = z3.Solver()
                s.set('timeout', timeout or self.smt_timeout)
                if unfold:
                    more = self.instantiate(ground)
                    ground = ground + more
                    if qs and any(ti.term[j].decl().name() == 'seq_remove' for f in more for j in ti.info(f)[1]):
                        for q in [q for q in qs if q.num_vars() == 1]:
                            so = q.var_sort(0).name()
                            have = {t.get_id() for t in terms.get(so, [])}
                            new = [z3.substitute_vars(q.body(), t) for t in ti.index_terms(more).get(so, [])[:60] if t.get_id() not in have]
                            ground = ground + new
                assert_all(s, ground)
                r = self.check_weak(ground, quick and self.seq_weak)
                if r != z3.unsat and not (quick and self.seq_weak and r == z3.sat):
                    r = s.check()
                self.queries += 1
                if r == z3.unsat or quick:
                    return r, s
                if r == z3.sat:
                    self.candidate = s
            s = z3.Solver()
            s.set('timeout', timeout or self.smt_timeout)
            if self.candidate is not None:
                s.set('timeout', min(timeout or self.smt_timeout, self.after_candidate))
            if unfold:
                fs = list(fs) + self.instantiate(fs)
            assert_all(s, fs)
            r = z3.unknown if qs else self.check_weak(fs, quick and self.seq_weak)
            if r != z3.unsat and not (quick and self.seq_weak and r == z3.sat):
                r = s.check()
            self.queries += 1
            return r, s
        finally:
            dt = time.time() - t0
            self.solver_time += dt
            if SLOW and dt > SLOW:
                import inspect
                print('SLOW %.1fs %s' % (dt, [f.function + ':' + str(f.lineno) for f in inspect.stack()[1:6]]), str(fs[-1])[:300].replace('\n', ' '), len(fs), flush=True)

    def feasible(self, st, cond=None):
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c) and not getattr(st, 'recheck', False):
                return True
        fs = st.pc + ([cond] if cond is not None else [])
        key = hash(tuple(sorted(f.get_id() for f in fs)))
        keep = self.feas_cache.get(key)
        if keep is not None:
            return keep[0]
        r, _ = self.solve(fs, timeout=self.feas_timeout, unfold=False, quick=True)
        self.feas_cache[key] = (r != z3.unsat, fs)
        return r != z3.unsat

    def skolem(self, f):
        """a goal with its outermost universal quantifiers replaced by fresh constants"""
        if z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            return self.skolem(z3.substitute_vars(f.body(), *[self.fresh('any_' + f.var_name(i), f.var_sort(i)) for i in reversed(range(n))]))
        if z3.is_and(f):
            return z3.And([self.skolem(c) for c in f.children()])
        if z3.is_implies(f):
            return z3.Implies(f.arg(0), self.skolem(f.arg(1)))
        return f

    def valid(self, st, f, timeout=None):
        """'yes' / 'no' (with model) / 'unknown'"""
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(z3.simplify(f)):
            return 'yes', None
        r, s = self.solve(st.pc + [z3.Not(self.skolem(f))], timeout=timeout)
        if r == z3.unsat:
            return 'yes', None
        if r == z3.sat:
            return 'no', s
        return 'unknown', s

    # ---------------------------------------------------------------- values
    def lower(self, v, ty=None):
        """Python-level value -> z3 term"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Agg):
            t = self.ty[v.ty]
            k = t['k']
            if k == 'array' or (k == 'adt' and last(t['name']) in ('Vec',)):
                so = self.ty.sort(v.ty)
                return self.seq_of([self.lower(x) for x in v.fields], so)
            if k in ('tuple', 'adt'):
                if k == 'adt' and self.ty.clike(v.ty):
                    return I(int(t['v'][v.variant or 0]['disc']))
                return self.ty.cons(v.ty, v.variant, [self.lower(x) for x in v.fields])
            raise Unsupported('lower aggregate of ' + self.ty.s(v.ty))
        if isinstance(v, Disc):
            return self.disc_int(v)
        if isinstance(v, Ref):
            raise Unsupported('lower a reference')
        if isinstance(v, Obj) and v.kind == 'fnptr':
            return I(self.fnptr_ids.setdefault(v.name, 1000 + len(self.fnptr_ids)))
        raise Unsupported('lower %r' % (v,))

    def seq_of(self, items, so):
        if not items:
            return z3.Empty(so)
        if len(items) == 1:
            return z3.Unit(items[0])
        return z3.Concat(*[z3.Unit(x) for x in items])

    def disc_int(self, d):
        t = self.ty[d.ty]
        so = self.ty.sort(d.ty)
        e = I(int(t['v'][-1]['disc']))
        for i in range(len(t['v']) - 2, -1, -1):
            e = z3.If(so.recognizer(i)(d.term), I(int(t['v'][i]['disc'])), e)
        return e

    def get_elem(self, v, e, st=None):
        k = e[0]
        if v is POISON:
            raise Unsupported('use of an undefined value')
        if k == 'f':
            _, i, variant, cty, fty = e
            if isinstance(v, Agg):
                if variant is not None and v.variant is not None and v.variant != variant:
                    return POISON
                return v.fields[i]
            if isinstance(v, z3.ExprRef):
                return self.ty.acc(cty, variant, i, v)
            raise Unsupported('field %d of %r' % (i, v))
        if k == 'i':
            idx = e[1]
            if isinstance(v, Agg):
                j = z3.simplify(idx)
                if z3.is_int_value(j):
                    return v.fields[j.as_long()]
                v = self.lower(v)
            if isinstance(v, z3.ExprRef):
                return nth(v, idx)
            raise Unsupported('index of %r' % (v,))
        if k == 'm':
            o = z3.Select(v, e[1])
            return o.sort().accessor(1, 0)(o)
        raise Unsupported('projection %r' % (e,))

    def set_elem(self, v, e, new):
        k = e[0]
        if k == 'f':
            _, i, variant, cty, fty = e
            if isinstance(v, Agg):
                fs = list(v.fields)
                fs[i] = new
                return Agg(v.ty, v.variant, fs)
            if v is POISON:
                n = i + 1 if self.ty.is_union(cty) else len(self.ty.field_types(cty, variant))
                fs = [POISON] * n
                fs[i] = new
                return Agg(cty, variant, fs)
            if isinstance(v, z3.ExprRef):
                n = len(self.ty.field_types(cty, variant))
                fs = [self.ty.acc(cty, variant, j, v) for j in range(n)]
                fs[i] = new
                try:
                    return self.cons_terms(cty, variant, [self.lower(x) for x in fs], v)
                except (Unsupported, NonPure):
                    return Agg(cty, variant if self.ty[cty].get('enum') else variant, fs)
            raise Unsupported('field update on %r' % (v,))
        if k == 'i':
            idx = e[1]
            if isinstance(v, Agg):
                j = z3.simplify(idx)
                if z3.is_int_value(j):
                    fs = list(v.fields)
                    fs[j.as_long()] = new
                    return Agg(v.ty, v.variant, fs)
                v = self.lower(v)
            return self.seq_update(v, idx, self.lower(new))
        if k == 'm':
            return z3.Store(v, e[1], v.sort().range().constructor(1)(self.lower(new)))
        raise Unsupported('update projection %r' % (e,))

    def cons_terms(self, cty, variant, terms, orig=None):
        return self.ty.cons(cty, variant, terms)

    def seq_update(self, v, idx, new):
        n = z3.Length(v)
        r = seq_update(v, idx, new)
        self.pending_axioms.append((v, idx, new, r))
        return r

    pending_axioms = []

    # places -------------------------------------------------------
    def root_get(self, st, root):
        k = root[0]
        if k == 'L':
            f = st.frames[root[1]]
            if root[2] not in f:
                return POISON
            return f[root[2]]
        if k == 'H':
            return z3.Select(self.heap(st, root[1]), root[2])
        if k == 'S':
            return self.static(st, root[1])
        if k == 'V':
            return root[1]
        raise Unsupported('root %r' % (root,))

    def root_set(self, st, root, v):
        k = root[0]
        if k == 'L':
            st.frames[root[1]][root[2]] = v
        elif k == 'H':
            st.heaps[root[1]] = z3.Store(self.heap(st, root[1]), root[2], self.lower(v))
        elif k == 'S':
            st.statics[root[1]] = v
        else:
            raise Unsupported('write to %r' % (root,))

    def heap(self, st, key):
        h = st.heaps.get(key)
        if h is None:
            ty = self.heap_types[key]
            h = z3.Const('heap0_' + re.sub(r'\W', '_', key), z3.ArraySort(z3.IntSort(), self.ty.sort(ty)))
            st.heaps[key] = h
        return h

    def heap_key(self, ty):
        """key of the heap of RefCell<T>, T = ty"""
        c = self.ty.canon(ty)
        self.heap_types.setdefault(c, ty)
        return c

    def alloc(self, st, key):
        """address allocation: new addresses are distinct from every earlier one"""
        n = st.alloc.get(key)
        if n is None:
            n = z3.Const('next0_' + re.sub(r'\W', '_', key), z3.IntSort())
        st.alloc[key] = n + 1
        return n

    def next_addr(self, st, key):
        n = st.alloc.get(key)
        if n is None:
            n = z3.Const('next0_' + re.sub(r'\W', '_', key), z3.IntSort())
            st.alloc[key] = n
        return n

    def static(self, st, name):
        v = st.statics.get(name)
        if v is None:
            ty = self.statics[name]['ty']
            v = self.fresh('static_' + re.sub(r'\W', '_', name)[-30:], self.ty.sort(ty))
            st.statics[name] = v
        return v

    def read(self, st, root, path):
        v = self.root_get(st, root)
        for e in path:
            v = self.get_elem(v, e, st)
        return v

    def write(self, st, root, path, new):
        if not path:
            self.root_set(st, root, new)
            return
        vs = [self.root_get(st, root)]
        for e in path[:-1]:
            vs.append(POISON if vs[-1] is POISON else self.get_elem(vs[-1], e, st))
        for e, v in zip(reversed(path), reversed(vs)):
            self.pending_axioms = []
            new = self.set_elem(v, e, new)
            for (sv, idx, nv, r) in self.pending_axioms:
                st.assume(z3.Length(r) == z3.Length(sv))
                st.assume(r[idx] == nv)
            self.pending_axioms = []
        self.root_set(st, root, new)

    def deref_read(self, st, v):
        """value behind a reference value"""
        if isinstance(v, Ref):
            return self.read(st, v.root, v.path)
        return v

    def place(self, st, fid, fn, p):
        """MIR place -> (root, path, type)"""
        local, projs = p
        root, path, ty = ('L', fid, local), (), fn['locals'][local]
        variant = None
        for e in projs:
            k = e[0]
            if k == '*':
                tk = self.ty.kind(ty)
                if tk in ('ref', 'ptr'):
                    v = self.read(st, root, path)
                    ty = self.ty[ty]['e']
                    if isinstance(v, Ref):
                        root, path = v.root, v.path
                    elif v is POISON:
                        raise Unsupported('dereference of an undefined value')
                    else:
                        root, path = ('V', v), ()
                elif self.ty.transparent(ty) is not None:
                    ty = self.ty.transparent(ty)
                else:
                    raise Unsupported('deref of ' + self.ty.s(ty))
                variant = None
            elif k == 'f':
                if self.ty.kind(ty) == 'adt' and self.ty.transparent(ty) is not None:
                    # Box internals (.0 Unique .0 NonNull): stay on the content
                    ty2 = e[2]
                    path = path + (('box',),) if not (path and path[-1] == ('box',)) else path
                    ty = ty2
                elif path and path[-1] == ('box',):
                    ty = e[2]
                else:
                    path = path + (('f', e[1], variant, ty, e[2]),)
                    ty = e[2]
                variant = None
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                idx = self.read(st, ('L', fid, e[1]), ())
                path = path + (('i', self.lower(idx)),)
                ty = self.ty.elem(ty)
                variant = None
            elif k == 'ci':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    seq = self.lower(self.read(st, root, path))
                    path = path + (('i', z3.Length(seq) - off),)
                else:
                    path = path + (('i', I(off)),)
                ty = self.ty.elem(ty)
                variant = None
            else:
                raise Unsupported('projection ' + k)
        if variant is not None:
            pass
        return root, path, ty

    def read_place(self, st, fid, fn, p):
        root, path, ty = self.place(st, fid, fn, p)
        if path and path[-1] == ('box',):
            return Ref(root, path[:-1], None)
        return self.read(st, root, path)

    def place_ty(self, fn, p):
        local, projs = p
        ty = fn['locals'][local]
        for e in projs:
            if e[0] == '*':
                ty = self.ty[ty]['e'] if self.ty.kind(ty) in ('ref', 'ptr') else self.ty.transparent(ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.ty.elem(ty)
        return ty

    # constants ----------------------------------------------------
    def const(self, st, c):
        ty, a = c[1], c[2]
        k = self.ty.kind(ty)
        if a == 'zst' or (isinstance(a, dict) and 'b' in a and not a['b'] and k in ('tuple', 'fndef', 'closure')):
            if k == 'fndef':
                return Obj('fndef', ty=ty)
            if k == 'closure':
                return Agg(ty, None, [])
            if k == 'tuple':
                return Agg(ty, None, [])
            if k == 'adt':
                t = self.ty[ty]
                if t.get('enum') is False or not t.get('enum'):
                    if last(t['name']) in ('PhantomData', 'Global'):
                        return Agg(ty, None, [])
                    return Agg(ty, 0, [POISON] * len(t['v'][0]['f'])) if t['v'] and t['v'][0]['f'] else Agg(ty, 0, [])
            return Agg(ty, None, [])
        if isinstance(a, dict) and 'b' in a:
            return self.const_alloc(st, ty, a, 0)
        if isinstance(a, dict) and 'usize' in a:
            return I(int(a['usize']))
        raise Unsupported('constant %s of type %s' % (str(a)[:60], self.ty.s(ty)))

    def const_alloc(self, st, ty, a, off):
        t = self.ty[ty]
        k = t['k']
        b = a['b']

        def intval(w, sg):
            bs = b[off:off + w // 8]
            if any(x is None for x in bs):
                raise Unsupported('uninit constant')
            return int.from_bytes(bytes(bs), 'little', signed=sg)
        if k == 'int':
            return I(intval(t['w'], t['sg']))
        if k == 'bool':
            return z3.BoolVal(b[off] != 0)
        if k == 'char':
            return I(intval(32, False))
        if k == 'adt' and not t['enum'] and t.get('lay') and t['lay']['sz'] == 0 and not t['v'][0:1]:
            return Agg(ty, None, [])
        if k in ('ref', 'ptr', 'fnptr') or (k == 'adt' and self.ty.transparent(ty) is not None):
            tgt = [p for o, p in a['p'] if o == off]
            if not tgt:
                raise Unsupported('integer pointer constant')
            tgt = tgt[0]
            if 'static' in tgt:
                return Ref(('S', tgt['static']), (), t.get('e'))
            if 'fn' in tgt:
                return Obj('fnptr', name=str(self.fns[tgt['fn']]['nname']) if isinstance(tgt['fn'], int) and tgt['fn'] in self.fns else str(tgt['fn']))
            if 'mem' in tgt:
                e = t['e']
                ek = self.ty.kind(e)
                m = tgt['mem']
                base = int.from_bytes(bytes(b[off:off + 8]), 'little')
                if ek == 'str':
                    n = int.from_bytes(bytes(b[off + 8:off + 16]), 'little')
                    return self.strval(bytes(m['b'][base:base + n]).decode('utf8'))
                if ek == 'array':
                    n = self.ty[e]['n']
                    n = int(n) if n is not None else len(m['b'])
                    if self.ty.kind(self.ty[e]['e']) == 'int' and self.ty[self.ty[e]['e']]['w'] == 8:
                        return Obj('bytes', b=bytes(m['b'][base:base + n]))
                    es = self.sizeof(self.ty[e]['e'])
                    return Agg(e, None, [self.const_alloc(st, self.ty[e]['e'], m, base + i * es) for i in range(n)])
                if ek == 'slice':
                    n = int.from_bytes(bytes(b[off + 8:off + 16]), 'little')
                    if self.ty.kind(self.ty[e]['e']) == 'int' and self.ty[self.ty[e]['e']]['w'] == 8:
                        return Obj('bytes', b=bytes(m['b'][base:base + n]))
                    es = self.sizeof(self.ty[e]['e'])
                    return Agg(e, None, [self.const_alloc(st, self.ty[e]['e'], m, base + i * es) for i in range(n)])
                return self.const_alloc(st, e, m, base)
            raise Unsupported('pointer constant %r' % (list(tgt),))
        if k == 'array':
            es = self.sizeof(t['e'])
            return Agg(ty, None, [self.const_alloc(st, t['e'], a, off + i * es) for i in range(int(t['n']))])
        if k == 'tuple' or k == 'adt':
            lay = t.get('lay')
            if lay is None:
                raise Unsupported('constant without layout: ' + self.ty.s(ty))
            var = lay['var']
            if 'single' in var:
                vi, offs = var['single'], lay['fo']
            else:
                to, tw = off + var['toff'], var['tw']
                bs = b[to:to + tw]
                prov = [p for o, p in a['p'] if o == to]
                if prov:
                    tag = None          # a pointer: not a niche value
                else:
                    if any(x is None for x in bs):
                        raise Unsupported('uninitialised tag')
                    tag = int.from_bytes(bytes(bs), 'little')
                if var['niche'] is None:
                    vi = [i for i, v in enumerate(t['v']) if int(v['disc']) % (1 << (8 * tw)) == tag]
                    if not vi:
                        raise Unsupported('bad tag')
                    vi = vi[0]
                else:
                    ut, ns, ne, start = var['niche']
                    rel = (tag - start) % (1 << (8 * tw)) if tag is not None else None
                    vi = ns + rel if rel is not None and rel <= ne - ns else ut
                offs = var['vo'][vi]
            if k == 'adt' and self.ty.clike(ty):
                return I(int(t['v'][vi]['disc']))
            fts = self.ty.field_types(ty, vi)
            if k == 'adt' and last(t['name']) in ('String', 'Vec', 'HashMap', 'RefCell', 'BTreeMap') and t['crate'] != 'rsh':
                raise Unsupported('constant of type ' + self.ty.s(ty))
            fs = [self.const_alloc(st, ft, a, off + o) for ft, o in zip(fts, offs)]
            return self.mk(ty, vi if (k == 'adt') else None, fs)
        raise Unsupported('constant of type ' + self.ty.s(ty))

    def sizeof(self, ty):
        t = self.ty[ty]
        k = t['k']
        if k == 'int':
            return t['w'] // 8
        if k == 'bool':
            return 1
        if k == 'char':
            return 4
        if k in ('ref', 'ptr'):
            return 16 if self.ty.kind(t['e']) in ('str', 'slice', 'dyn') else 8
        if 'lay' in t:
            return t['lay']['sz']
        raise Unsupported('size of ' + self.ty.s(ty))

    def strval(self, s):
        # z3 string literals: escape non-printable / non-ascii characters
        out = ''
        for ch in s:
            o = ord(ch)
            if 32 <= o < 127 and ch != '\\':
                out += ch
            else:
                out += '\\u{%x}' % o
        return z3.StringVal(out)

    def operand(self, st, fid, fn, o):
        if o[0] in ('cp', 'mv'):
            return self.read_place(st, fid, fn, o[1])
        if o[0] == 'c':
            return self.const(st, o)
        if o[0] == 'rc':
            return z3.BoolVal(False)
        raise Unsupported('operand %r' % (o[0],))

    def op_ty(self, fn, o):
        if o[0] in ('cp', 'mv'):
            return self.place_ty(fn, o[1])
        if o[0] == 'c':
            return o[1]
        return None

    # rvalues ------------------------------------------------------
    def rvalue(self, st, fid, fn, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, fn, r[1])
        if k in ('ref', 'addr'):
            root, path, ty = self.place(st, fid, fn, r[2])
            if path and path[-1] == ('box',):
                return Ref(root, path[:-1], ty)
            if k == 'addr' or r[1] or root[0] == 'S' or self.ty.is_adt(ty, 'Atomic', 'AtomicBool', 'AtomicI32', 'AtomicUsize'):
                if root[0] == 'V' and not path and k == 'addr':
                    return root[1]
                return Ref(root, path, ty)
            v = self.read(st, root, path)
            if v is POISON:
                return Ref(root, path, ty)
            return v
        if k == 'agg':
            spec, ops = r[1], r[2]
            vals = [self.operand(st, fid, fn, o) for o in ops]
            if spec == 'tuple' or spec[0] == 'tuple':
                return self.mk(dty, None, vals)
            if spec[0] == 'array' or spec == 'array':
                return Agg(dty, None, vals)
            if spec[0] == 'adt':
                ty, variant = spec[1], spec[2]
                if self.ty.clike(ty):
                    return I(int(self.ty[ty]['v'][variant]['disc']))
                n = len(self.ty[ty]['v'][variant]['f'])
                if self.ty.transparent(ty) is not None:
                    return vals[0]
                return self.mk(ty, variant, vals)
            if spec[0] == 'closure':
                return Agg(spec[1], None, vals)
            if spec[0] == 'rawptr' or spec == 'rawptr':
                return vals[0]
            raise Unsupported('aggregate %r' % (spec,))
        if k == 'bin' or k == 'cbin':
            a, b = self.operand(st, fid, fn, r[2]), self.operand(st, fid, fn, r[3])
            v, ovf = self.binop(st, r[1], a, b, self.op_ty(fn, r[2]))
            if k == 'cbin':
                return Agg(dty, None, [v, ovf])
            return v
        if k == 'un':
            a = self.operand(st, fid, fn, r[2])
            if r[1] == 'Not':
                a = self.lower(a)
                if z3.is_bool(a):
                    return z3.Not(a)
                t = self.ty[self.op_ty(fn, r[2])]
                if t['sg']:
                    return -a - 1
                return I(2 ** t['w'] - 1) - a
            if r[1] == 'Neg':
                return -self.lower(a)
            if r[1] == 'PtrMetadata':
                v = self.deref_read(st, a)
                if isinstance(v, Agg):
                    return I(len(v.fields))
                if isinstance(v, Obj) and v.kind == 'bytes':
                    return I(len(v.b))
                return z3.Length(v)
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            return self.cast(st, fn, r[1], self.operand(st, fid, fn, r[2]), self.op_ty(fn, r[2]), r[3])
        if k == 'disc':
            root, path, ty = self.place(st, fid, fn, r[1])
            v = self.read(st, root, path)
            if isinstance(v, Agg):
                return I(int(self.ty[v.ty]['v'][v.variant or 0]['disc']))
            if isinstance(v, z3.ExprRef):
                ty = self.ty.strip(ty)
                if self.ty.clike(ty):
                    return v
                return Disc(v, ty)
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            root, path, ty = self.place(st, fid, fn, r[1])
            v = self.read(st, root, path)
            if isinstance(v, Agg):
                return I(len(v.fields))
            return z3.Length(v)
        if k == 'repeat':
            v = self.operand(st, fid, fn, r[1])
            n = r[2]
            n = n.get('usize') if isinstance(n, dict) else n
            return Agg(dty, None, [v] * int(n))
        raise Unsupported('rvalue ' + k)

    def mk(self, ty, variant, vals):
        """aggregate: a z3 term when every part is pure, else Agg"""
        if self.ty.pure(ty) and all(not isinstance(v, (Ref, Poison)) for v in vals):
            try:
                if self.ty.sort(ty).kind() in (z3.Z3_DATATYPE_SORT, z3.Z3_UNINTERPRETED_SORT):
                    return self.ty.cons(ty, variant, [self.lower(v) for v in vals])
            except Unsupported:
                pass
            except (AttributeError, z3.Z3Exception) as x:
                raise Unsupported('ill-sorted %s::%s from %s' % (self.ty.s(ty), variant, [(v.sort() if isinstance(v, z3.ExprRef) else v) for v in vals]))
        return Agg(ty, variant, vals)

    def binop(self, st, op, a, b, ty):
        F = z3.BoolVal(False)
        if op == 'Offset':
            raise Unsupported('pointer arithmetic')
        a, b = self.lower(a), self.lower(b)
        t = self.ty[ty] if ty is not None else {}
        if op in ('Add', 'AddWithOverflow', 'AddUnchecked'):
            return a + b, F
        if op in ('Sub', 'SubWithOverflow', 'SubUnchecked'):
            return a - b, ((a < b) if (t.get('k') == 'int' and not t['sg']) else F)
        if op in ('Mul', 'MulWithOverflow', 'MulUnchecked'):
            return a * b, F
        if op == 'Div':
            return a / b, F
        if op == 'Rem':
            return a % b, F
        if op == 'Eq':
            return a == b, F
        if op == 'Ne':
            return a != b, F
        if op == 'Lt':
            return a < b, F
        if op == 'Le':
            return a <= b, F
        if op == 'Gt':
            return a > b, F
        if op == 'Ge':
            return a >= b, F
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if z3.is_bool(a):
                return {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](a, b), F
            x, y = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(x) and z3.is_int_value(y):
                x, y = x.as_long(), y.as_long()
                return I({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]), F
            if op == 'BitAnd':
                for p, q in ((a, y), (b, x)):
                    if z3.is_int_value(q):
                        qv = q.as_long()
                        w = t.get('w', 64)
                        inv = (~qv) & (2 ** w - 1)
                        if inv and inv & (inv - 1) == 0:   # clearing one bit
                            bit = inv
                            return z3.If((p / bit) % 2 == 1, p - bit, p), F
            f = z3.Function('bit_' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            return f(a, b), F
        raise Unsupported('binop ' + op)

    def cast(self, st, fn, kind, v, fty, tty):
        k = kind if isinstance(kind, str) else str(kind)
        if k.startswith('IntToInt') or 'IntToInt' in k:
            v = self.lower(v)
            if z3.is_bool(v):
                return z3.If(v, I(1), I(0))
            f, t = self.ty[fty], self.ty[tty]
            if t['k'] == 'int':
                if f['k'] in ('char', 'int') or f['k'] == 'adt':
                    fs = f.get('sg', False) if f['k'] == 'int' else False
                    fw = f.get('w', 32)
                    if t['w'] >= fw and (t['sg'] == fs or (not fs and t['w'] > fw)):
                        return v
                    if f['k'] == 'adt' or f['k'] == 'char':
                        return v
                    c = z3.simplify(v)
                    lo = -(2 ** (t['w'] - 1)) if t['sg'] else 0
                    hi = (2 ** (t['w'] - 1) if t['sg'] else 2 ** t['w'])
                    if z3.is_int_value(c):
                        x = (c.as_long() - lo) % (2 ** t['w']) + lo
                        return I(x)
                    return z3.If(z3.And(v >= lo, v < hi), v, (v - lo) % (2 ** t['w']) + lo)
            return v
        if k == 'Transmute' and self.ty.kind(tty) == 'int' and self.ty.kind(fty) in ('ptr', 'ref'):
            return I(1 << 20)     # address of a live, aligned place (only used by the compiler's own checks)
        if 'ReifyFnPointer' in k:
            return Obj('fnptr', name=self.fndef_name(fty))
        return v

    def fndef_name(self, ty):
        t = self.ty[ty]
        inst = t.get('inst')
        if inst is not None and inst in self.fns:
            return self.fns[inst]['nname']
        return t.get('name') or t['s']

    # ---------------------------------------------------------------- control flow
    def info(self, fn):
        i = self.fn_info.get(fn['id'])
        if i:
            return i
        blocks = fn['blocks']
        n = len(blocks)
        succ = []
        for b in blocks:
            t = b['t']
            k = t[0]
            if k == 'goto':
                s = [t[2]]
            elif k == 'switch':
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == 'drop':
                s = [t[3]]
            elif k == 'call':
                s = [t[5]] if t[5] is not None else []
            elif k == 'assert':
                s = [t[5]]
            else:
                s = []
            succ.append([x for x in s if x is not None])
        # dominators (simple iterative)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for x in succ[b]:
                pred[x].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in rpo:
            for x in succ[b]:
                if x in dom[b]:
                    body = loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(pred[y])
        live = self.liveness(fn, rpo, succ)
        i = {'succ': succ, 'loops': loops, 'live': live, 'rpo': rpo}
        self.fn_info[fn['id']] = i
        return i

    def liveness(self, fn, rpo, succ):
        blocks = fn['blocks']
        addr_taken = set()

        def uses_defs(b):
            ev = []   # in order: ('u', l) / ('d', l)

            def up(p):
                ev.append(('u', p[0]))
                for e in p[1]:
                    if e[0] == 'i':
                        ev.append(('u', e[1]))

            def uo(o):
                if o and o[0] in ('cp', 'mv'):
                    up(o[1])

            def walk_ops(r):
                k = r[0]
                if k in ('use',):
                    uo(r[1])
                elif k in ('ref', 'addr'):
                    up(r[2])
                    if not any(e[0] == '*' for e in r[2][1]):
                        addr_taken.add(r[2][0])
                elif k == 'agg':
                    for o in r[2]:
                        uo(o)
                elif k in ('bin', 'cbin'):
                    uo(r[2]); uo(r[3])
                elif k == 'un':
                    uo(r[2])
                elif k == 'cast':
                    uo(r[2])
                elif k in ('disc', 'len'):
                    up(r[1])
                elif k == 'repeat':
                    uo(r[1])
            for s in b['s']:
                if s[0] == '=':
                    walk_ops(s[3])
                    if not s[2][1]:
                        ev.append(('d', s[2][0]))
                    else:
                        up(s[2])
                elif s[0] in ('dead', 'live'):
                    ev.append(('d', s[2]))
                elif s[0] == 'sd':
                    ev.append(('u', s[2][0] if isinstance(s[2], list) else s[2]))
            t = b['t']
            if t[0] == 'switch':
                uo(t[2])
            elif t[0] == 'drop':
                up(t[2])
            elif t[0] == 'call':
                for o in t[3]:
                    uo(o)
                if t[2][0] == 'ptr':
                    uo(t[2][1])
                if not t[4][1]:
                    ev.append(('d', t[4][0]))
                else:
                    up(t[4])
            elif t[0] == 'assert':
                uo(t[2])
            elif t[0] == 'return':
                ev.append(('u', 0))
            return ev
        evs = {b: uses_defs(blocks[b]) for b in rpo}
        livein = {b: set() for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                out = set()
                for x in succ[b]:
                    out |= livein.get(x, set())
                cur = set(out)
                for k, l in reversed(evs[b]):
                    if k == 'd':
                        cur.discard(l)
                    else:
                        cur.add(l)
                if cur != livein[b]:
                    livein[b] = cur
                    ch = True
        return {'in': livein, 'addr': addr_taken}

    # calls --------------------------------------------------------
    def find(self, name):
        """function instance by (normalised) path"""
        c = [f for f in self.by_name.get(name, []) if f.get('blocks')]
        if not c:
            c = [f for n, fs in self.by_name.items() for f in fs if f.get('blocks') and f['ndef'] == name]
        if not c:
            raise Unsupported('function not found: ' + name)
        return c[0]

    def call_fn(self, st, fn, args, line=None):
        """-> list of Outcomes"""
        self.check_time()
        nd = fn['ndef']
        h = self.contracts.get(fn['nname']) or self.contracts.get(nd)
        if h:
            self.used_contracts[fn['nname']] = self.used_contracts.get(fn['nname'], 0) + 1
            return h(self, st, fn, args)
        m = self.find_model(fn)
        if m:
            self.used_models[nd] = self.used_models.get(nd, 0) + 1
            r = m(self, st, fn, args)
            out = []
            for x in (r if isinstance(r, list) else [r]):
                if isinstance(x, Outcome):
                    out.append(x)
                elif isinstance(x, tuple):
                    out.append(Outcome('ret', x[0], x[1]))
                else:
                    out.append(Outcome('ret', st, x))
            return out
        if fn.get('blocks'):
            if st.depth > self.maxdepth:
                raise Unsupported('call depth exceeded at ' + fn['name'])
            self.inlined[fn['nname']] = self.inlined.get(fn['nname'], 0) + 1
            return self.run_fn(st, fn, args)
        raise Unsupported('no contract, model or body for %s' % fn['name'])

    def find_model(self, fn):
        i = fn['id']
        if i in self.mcache:
            return self.mcache[i]
        r = None
        for nm in (fn['ndef'], fn['nname']):
            for pat, h in self.models:
                if pat.search(nm):
                    r = h
                    break
            if r:
                break
        self.mcache[i] = r
        return r

    def run_fn(self, st, fn, args, keep_frame=False):
        fid = next(self.counter)
        fr = {}
        argc = fn['argc']
        args = list(args)
        if len(args) != argc:
            # rust-call: untuple the last argument
            if args and len(args) < argc + 1:
                lastv = args[-1]
                fs = None
                if isinstance(lastv, Agg):
                    fs = list(lastv.fields)
                elif isinstance(lastv, z3.ExprRef) and lastv.sort().kind() == z3.Z3_DATATYPE_SORT:
                    so = lastv.sort()
                    fs = [so.accessor(0, j)(lastv) for j in range(so.constructor(0).arity())]
                if fs is not None:
                    args = args[:-1] + fs
            if len(args) != argc and fn.get('spread') is None:
                raise Unsupported('arity mismatch calling %s (%d vs %d)' % (fn['name'], len(args), argc))
        sp = fn.get('spread')
        if sp is not None and len(args) != argc:
            k = sp - 1
            args = args[:k] + [Agg(fn['locals'][sp], None, args[k:])]
        for i, a in enumerate(args):
            lt = fn['locals'][i + 1]
            # closure called by value although its body takes self by reference
            if self.ty.kind(lt) == 'ref' and self.ty[lt]['mut'] and not isinstance(a, Ref) and self.ty.kind(self.ty[lt]['e']) == 'closure':
                fr[('tmp', i)] = a
                a = Ref(('L', fid, ('tmp', i)), (), self.ty[lt]['e'])
            fr[i + 1] = a
        st.frames[fid] = fr
        st.depth += 1
        outs = self.run_region(st, fn, fid, 0, None, ())
        res = []
        for o in outs:
            o.state.depth = st.depth - 1 if o.state is st else o.state.depth
            if o.kind == 'ret':
                o.value = o.state.frames[fid].get(0, Agg(fn['ret'], None, ()))
                if not keep_frame:
                    del o.state.frames[fid]
            res.append(o)
        for o in res:
            o.state.depth = st.depth - 1
        d = st.depth - 1
        for o in res:
            o.state.depth = d
        return res

    def run_region(self, st, fn, fid, start, region, loopstack):
        """run from `start`. region: None or (header, body): stop when leaving body or coming back to the header.
        Returns Outcomes; kinds 'back' and 'leave' (value = block) for regions."""
        info = self.info(fn)
        outs = []
        work = [(st, start, True)]
        npaths = 0
        while work:
            s, bb, first = work.pop()
            npaths += 1
            if npaths > self.maxpaths:
                raise Unsupported('too many paths in ' + fn['name'])
            while True:
                if region is not None and not first:
                    if bb == region[0]:
                        outs.append(Outcome('back', s))
                        break
                    if bb not in region[1]:
                        outs.append(Outcome('leave', s, bb))
                        break
                if bb in info['loops'] and not (region is not None and bb == region[0] and first):
                    for o in self.run_loop(s, fn, fid, bb, loopstack):
                        if o.kind == 'leave':
                            if region is not None and (o.value == region[0]):
                                outs.append(Outcome('back', o.state))
                            elif region is not None and o.value not in region[1]:
                                outs.append(o)
                            else:
                                work.append((o.state, o.value, False))
                        else:
                            outs.append(o)
                    break
                first = False
                nxt = self.exec_block(s, fn, fid, bb)
                # nxt: list of (state, block) or Outcome
                cont = []
                for x in nxt:
                    if isinstance(x, Outcome):
                        outs.append(x)
                    else:
                        cont.append(x)
                if not cont:
                    break
                s, bb = cont[0]
                for (s2, b2) in cont[1:]:
                    work.append((s2, b2, False))
        return outs

    def exec_block(self, st, fn, fid, bb):
        b = fn['blocks'][bb]
        fr = st.frames[fid]
        for s in b['s']:
            k = s[0]
            if k == '=':
                dty = self.place_ty(fn, s[2])
                v = self.rvalue(st, fid, fn, s[3], dty)
                if not s[2][1]:
                    fr[s[2][0]] = v
                else:
                    root, path, _ = self.place(st, fid, fn, s[2])
                    self.write(st, root, path, v)
            elif k == 'dead':
                fr.pop(s[2], None)
            elif k == 'live':
                fr.pop(s[2], None)
            elif k == 'sd':
                raise Unsupported('SetDiscriminant')
            elif k == 'assume':
                pass
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [(st, t[2])]
        if k == 'return':
            return [Outcome('ret', st)]
        if k == 'unreachable':
            return []
        if k in ('resume', 'abort'):
            return [Outcome('panic', st)]
        if k == 'switch':
            return self.do_switch(st, self.operand(st, fid, fn, t[2]), t[3], t[4], fn, t[1])
        if k == 'drop':
            self.do_drop(st, fid, fn, t[2], t[4] if len(t) > 4 else None)
            return [(st, t[3])]
        if k == 'assert':
            c = self.lower(self.operand(st, fid, fn, t[2]))
            if not t[3]:
                c = z3.Not(c)
            c = z3.simplify(c)
            out = []
            if z3.is_true(c):
                return [(st, t[5])]
            if self.feasible(st, z3.Not(c)):
                s2 = st.fork().assume(z3.Not(c))
                s2.note('panic', fn['nname'], t[1], str(t[4])[:60])
                out.append(Outcome('panic', s2))
            if self.feasible(st, c):
                st.assume(c)
                out.append((st, t[5]))
            return out
        if k == 'call':
            args = [self.operand(st, fid, fn, o) for o in t[3]]
            tgt = t[2]
            if tgt[0] == 'inst':
                callee = self.fns[tgt[1]]
            elif tgt[0] == 'ptr':
                f = self.operand(st, fid, fn, tgt[1])
                callee = None
                if isinstance(f, Obj) and f.kind == 'fndef':
                    callee = self.fns.get(self.ty[f.ty].get('inst'))
                if callee is None:
                    raise Unsupported('indirect call')
            else:
                raise Unsupported('unresolved call %r' % (tgt,))
            self.cur = (fn, t[1], t[6] if len(t) > 6 else None, self.place_ty(fn, t[4]))
            self.arg_tys = t[6] if len(t) > 6 else [None] * len(args)
            self.dest_ty = self.place_ty(fn, t[4])
            if re.search(r'\{closure#\d+\}$', callee['ndef']) and len(args) == 2 and callee.get('blocks') and callee.get('spread') is None:
                tup = args[1]       # rust-call ABI: (self, (args...,))
                if isinstance(tup, Agg):
                    args = [args[0]] + list(tup.fields)
                elif isinstance(tup, z3.ExprRef):
                    so = tup.sort()
                    args = [args[0]] + [self.ty.acc(self.arg_tys[1], 0, j, tup) for j in range(so.constructor(0).arity())]
            try:
                outs = self.call_fn(st, callee, args, t[1])
            except Unsupported as e:
                if not getattr(e, 'loc', None):
                    e.loc = '%s:%s -> %s' % (fn['nname'], t[1], callee['nname'])
                    e.args = (e.args[0] + ' [at %s]' % e.loc,)
                raise
            res = []
            for o in outs:
                if o.kind == 'ret':
                    if t[5] is None:
                        continue
                    if not t[4][1]:
                        o.state.frames[fid][t[4][0]] = o.value
                    else:
                        root, path, _ = self.place(o.state, fid, fn, t[4])
                        self.write(o.state, root, path, o.value)
                    res.append((o.state, t[5]))
                else:
                    if o.kind == 'panic' and not any(n[0] == 'panic' for n in o.state.notes):
                        o.state.note('panic', fn['nname'], t[1], callee['nname'])
                    res.append(o)
            return res
        raise Unsupported('terminator ' + k)

    def do_switch(self, st, v, targets, otherwise, fn, line):
        conds = []
        if isinstance(v, Disc):
            t = self.ty[v.ty]
            so = self.ty.sort(v.ty)
            for val, bb in targets:
                vi = [i for i, x in enumerate(t['v']) if int(x['disc']) == int(val)]
                c = so.recognizer(vi[0])(v.term) if vi else z3.BoolVal(False)
                conds.append((c, bb))
        else:
            v = self.lower(v)
            for val, bb in targets:
                if z3.is_bool(v):
                    conds.append((v if int(val) else z3.Not(v), bb))
                else:
                    val = int(val)
                    if val >= 2 ** 31:   # sign of the scrutinee type is not known here: -1 is printed as 2^w-1
                        alt = [val] + [val - 2 ** w for w in (32, 64, 128) if 2 ** (w - 1) <= val < 2 ** w]
                        conds.append((z3.Or([v == I(a) for a in alt]), bb))
                    else:
                        conds.append((v == I(val), bb))
        res = []
        neg = [z3.Not(c) for c, _ in conds]
        allc = conds + [((z3.And(neg) if len(neg) > 1 else neg[0]) if neg else z3.BoolVal(True), otherwise)]
        feas = []
        for c, bb in allc:
            if bb is None:
                continue
            if fn['blocks'][bb]['t'][0] == 'unreachable' and not fn['blocks'][bb]['s']:
                continue
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            feas.append((c, bb))
        if len(feas) == 1 and len(allc) >= 1 and z3.is_true(feas[0][0]):
            return [(st, feas[0][1])]
        live = [(c, bb) for c, bb in feas if self.feasible(st, c)]
        for j, (c, bb) in enumerate(live):
            s2 = st if j == len(live) - 1 else st.fork()
            s2.assume(c)
            res.append((s2, bb))
        return res

    def do_drop(self, st, fid, fn, p, ty):
        try:
            root, path, ty = self.place(st, fid, fn, p)
            v = self.read(st, root, path)
        except Unsupported:
            return
        self.drop_value(st, v, ty)
        if root[0] == 'L' and not path:
            st.frames[root[1]].pop(root[2], None)

    def drop_value(self, st, v, ty):
        if isinstance(v, Obj):
            if v.kind == 'guard':
                st.borrows = tuple(b for b in st.borrows if b[0] != v.gid)
            if v.kind == 'guardeach':
                pass
            return
        if isinstance(v, Agg):
            for f in v.fields:
                self.drop_value(st, f, None)
            if self.ty.kind(v.ty) == 'adt' and not any(isinstance(f, z3.ExprRef) for f in v.fields):
                return
        h = self.drop_hook
        if h is not None and ty is not None:
            h(self, st, v, ty)

    drop_hook = None

    # ---------------------------------------------------------------- loops
    def run_loop(self, st, fn, fid, header, loopstack):
        info = self.info(fn)
        body = info['loops'][header]
        live = info['live']
        # forget dead locals
        fr = st.frames[fid]
        keep = live['in'].get(header, set()) | live['addr']
        for l in list(fr):
            if l not in keep and not isinstance(l, tuple):
                del fr[l]
        L0 = st
        dropped = set()
        # quick unrolling of loops whose iteration count is concrete is not attempted: invariants only
        H = L0.fork()
        havocked = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported('loop in %s: frame inference does not converge' % fn['nname'])
            h = H.fork()
            ctx = LoopCtx(self, fn, fid, header, L0, h, havocked)
            cands = [(n, f) for n, f in self.candidates(ctx) if n not in dropped]
            base_pc = len(h.pc)
            for n, f in cands:
                h.assume(f)
            # entry check
            bad = []
            ectx = LoopCtx(self, fn, fid, header, L0, L0, havocked)
            efs = dict(self.candidates(ectx))
            for n, f in cands:
                if n not in efs or self.valid(L0, efs[n])[0] != 'yes':
                    bad.append(n)
                    if DEBUG:
                        print('DROP entry', n, n in efs)
            if bad:
                dropped.update(bad)
                continue
            run = h.fork()
            outs = self.run_region(run, fn, fid, header, (header, body), loopstack + (header,))
            backs = [o.state for o in outs if o.kind == 'back']
            changed = False
            for b in backs:
                fb = b.frames[fid]
                for l in list(fb):
                    if l not in keep and not isinstance(l, tuple):
                        del fb[l]
                if self.merge_state(H, b, fid, havocked, keep):
                    changed = True
            if changed:
                continue
            for b in backs:
                bctx = LoopCtx(self, fn, fid, header, L0, b, havocked)
                bfs = dict(self.candidates(bctx))
                for n, f in cands:
                    if n in dropped:
                        continue
                    if n not in bfs or self.valid(b, bfs[n])[0] != 'yes':
                        dropped.add(n)
                        changed = True
                        if DEBUG:
                            print('DROP step', n, bfs[n] if n in bfs else None)
            if changed:
                continue
            if self.variant:
                m0 = self.variant(ctx)
                for b in backs:
                    m1 = self.variant(LoopCtx(self, fn, fid, header, L0, b, havocked))
                    self.variants.append((fn['nname'], header, b, m0, m1))
            self.loop_log.append({'fn': fn['nname'], 'header': header, 'rounds': rounds, 'invariants': [n for n, _ in cands], 'dropped': sorted(dropped), 'havoc': sorted(str(k) for k in havocked)})
            return [o for o in outs if o.kind != 'back']

    loop_log = []
    # variant(ctx): an integer that every iteration of every loop must make smaller and that is never negative (termination);
    # the obligations are collected in variants
    variant = None
    # (NUM, DEC): the decimal writing of numbers as an opaque function with its inverse (instead of the solver's str.from_int)
    decimal = None
    # (CHAR, SLICE): characters and slices of a text as opaque functions of it and of character positions
    opaque_text = None

    def candidates(self, ctx):
        out = []
        for path, o in ctx.iterators_all():
            for n, f in iter_facts(self, o, ctx):
                out.append(('iter%s:%s' % (path, n), f))
        for path, v, ty in ctx.leaves():
            if self.len_candidates and isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_SEQ_SORT and not v.sort() == z3.StringSort():
                e = ctx.entry_leaf(path)
                if isinstance(e, z3.ExprRef) and e.sort() == v.sort():
                    out.append(('len%s' % (path,), z3.Length(v) == z3.Length(e)))
            if isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort() and ty is not None and self.ty.kind(ty) == 'int' and not self.ty[ty]['sg']:
                out.append(('nonneg%s' % (path,), v >= 0))
        if self.cand:
            out.extend(self.cand(ctx))
        return out

    def merge_state(self, H, b, fid, havocked, keep):
        changed = False

        def mg(hv, bv, path):
            nonlocal changed
            if path in havocked and isinstance(hv, z3.ExprRef):
                if isinstance(bv, z3.ExprRef) and bv.sort() == hv.sort():
                    return hv
                try:
                    lb = self.lower(bv)
                    if lb.sort() == hv.sort():
                        return hv
                except (Unsupported, NonPure):
                    pass
                changed = True
                havocked[path] = POISON
                return POISON
            if hv is POISON and path in havocked:
                return hv
            if same(hv, bv):
                return hv
            if isinstance(hv, Agg) and isinstance(bv, Agg) and hv.variant == bv.variant and len(hv.fields) == len(bv.fields) and not (self.ty.pure(hv.ty) and any(isinstance(x, Agg) for x in hv.fields + bv.fields)):
                return Agg(hv.ty, hv.variant, [mg(x, y, path + (i,)) for i, (x, y) in enumerate(zip(hv.fields, bv.fields))])
            if isinstance(hv, Obj) and isinstance(bv, Obj) and hv.kind == bv.kind and hv.d.keys() == bv.d.keys():
                return Obj(hv.kind, **{k: (mg(hv.d[k], bv.d[k], path + (k,))) for k in hv.d})
            if isinstance(hv, Ref) and isinstance(bv, Ref) and len(hv.path) == len(bv.path) and hv.root[0] == bv.root[0] and all(x[0] == y[0] for x, y in zip(hv.path, bv.path)):
                root = tuple(mg(x, y, path + ('root', i)) if isinstance(x, z3.ExprRef) else x for i, (x, y) in enumerate(zip(hv.root, bv.root)))
                if all(isinstance(x, z3.ExprRef) or same(x, y) for x, y in zip(hv.root, bv.root)):
                    np = []
                    ok = True
                    for j, (x, y) in enumerate(zip(hv.path, bv.path)):
                        if x[0] == 'i':
                            np.append(('i', mg(x[1], y[1], path + ('p', j))))
                        elif same(x, y):
                            np.append(x)
                        else:
                            ok = False
                    if ok:
                        return Ref(root, np, hv.ty)
            # generalise to a fresh constant
            try:
                lh, lb = self.lower(hv), self.lower(bv)
                if lh.sort() == lb.sort():
                    f = self.fresh('h_' + '_'.join(str(x) for x in path)[-24:].replace('!', ''), lh.sort())
                    changed = True
                    havocked[path] = f
                    return f
            except (Unsupported, NonPure):
                pass
            changed = True
            havocked[path] = POISON
            return POISON
        for f, fr in H.frames.items():
            bf = b.frames.get(f, {})
            for l in list(fr):
                if f == fid and l not in keep and not isinstance(l, tuple):
                    continue
                if l in bf:
                    fr[l] = mg(fr[l], bf[l], ('L', f, l))
                elif f == fid:
                    # undefined at the back edge
                    if fr[l] is not POISON:
                        fr[l] = POISON
                        havocked[('L', f, l)] = POISON
                        changed = True
            if f == fid:
                for l in bf:
                    if l not in fr and l in keep:
                        pass   # defined by the body only: undefined at the header
        for nm in ('heaps', 'alloc', 'statics', 'ghost'):
            hd, bd = getattr(H, nm), getattr(b, nm)
            for k in bd:
                if k not in hd:
                    # first touched inside the loop: entry value is the initial symbol
                    if nm == 'heaps':
                        self.heap(H, k)
                    elif nm == 'alloc':
                        self.next_addr(H, k)
                    elif nm == 'statics':
                        hd[k] = bd[k] if not isinstance(bd[k], z3.ExprRef) else self.static(H, k)
                    else:
                        hd[k] = bd[k]
                        continue
                hd[k] = mg(hd[k], bd[k], (nm, k))
        if H.borrows != b.borrows:
            raise Unsupported('borrow held across a loop iteration')
        return changed


def iter_facts(eng, o, ctx):
    k = o.kind
    if k in ('iter', 'itermut') and isinstance(o.d.get('pos'), z3.ExprRef):
        yield 'bounds', z3.And(o.pos >= 0, o.pos <= o.end)
        yield 'end', o.end <= o.n
    if k == 'enum' and o.it.kind in ('iter', 'itermut'):
        yield 'count', o.cnt.n == o.it.pos
    if k == 'count' and isinstance(o.d.get('n'), z3.ExprRef):
        yield 'nonneg', o.n >= 0


class LoopCtx:
    """view of a loop head for invariant candidates"""
    def __init__(self, eng, fn, fid, header, entry, cur, havocked):
        self.eng, self.fn, self.fid, self.header, self.entry, self.st, self.havocked = eng, fn, fid, header, entry, cur, havocked

    def _walk(self, st):
        eng = self.eng

        def w(v, path, ty):
            yield path, v, ty
            if isinstance(v, Agg):
                fts = None
                try:
                    fts = eng.ty.field_types(v.ty, v.variant)
                except Exception:
                    fts = None
                for i, x in enumerate(v.fields):
                    yield from w(x, path + (i,), fts[i] if fts and i < len(fts) else None)
            elif isinstance(v, Obj):
                for k, x in v.d.items():
                    if isinstance(x, (Agg, Obj, z3.ExprRef)):
                        yield from w(x, path + (k,), None)
        for f, fr in st.frames.items():
            for l, v in fr.items():
                yield from w(v, ('L', f, l), self.fn['locals'][l] if f == self.fid and isinstance(l, int) else None)
        for k, v in st.ghost.items():
            if isinstance(v, (Agg, Obj, z3.ExprRef)):
                yield ('ghost', k), v, None

    def iterators(self):
        for p, v, t in self._walk(self.st):
            if isinstance(v, Obj) and v.kind in ('iter', 'itermut', 'count', 'chars', 'split'):
                yield p, v

    def iterators_all(self):
        for p, v, t in self._walk(self.st):
            if isinstance(v, Obj):
                yield p, v

    def leaves(self):
        """modified leaves (havocked in this loop)"""
        for p, v, t in self._walk(self.st):
            if p in self.havocked and isinstance(v, z3.ExprRef):
                yield p, v, t

    def entry_leaf(self, path):
        for p, v, t in self._walk(self.entry):
            if p == path:
                return v
        return None

    def ints(self):
        return [(p, v) for p, v, t in self.leaves() if v.sort() == z3.IntSort()]


def fresh_args(eng, st, fn):
    """symbolic arguments for a function: mutable references point to fresh local cells"""
    fid = next(eng.counter)
    st.frames[fid] = {}
    args, cells = [], []
    for i in range(fn['argc']):
        ty = fn['locals'][i + 1]
        nm = 'arg%d' % i
        for d in fn.get('dbg') or []:
            if isinstance(d, list) and len(d) >= 2 and d[1] == [i + 1, []]:
                nm = d[0]
        if eng.ty.kind(ty) == 'ref' and eng.ty[ty]['mut']:
            v = eng.fresh_ty(st, eng.ty[ty]['e'], nm)
            st.frames[fid][i] = v
            args.append(Ref(('L', fid, i), (), eng.ty[ty]['e']))
            cells.append((('L', fid, i), v))
        else:
            v = eng.fresh_ty(st, ty, nm)
            args.append(v)
            cells.append((None, v))
    return args, cells
