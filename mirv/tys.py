"""Types of the dumped MIR and their z3 sorts."""
import json, re, z3

FLAGS = ('SaFlags', 'WaitPidFlag', 'InternalBitFlags')


class Unsupported(Exception):
    pass
class NonPure(Exception):
    pass

STR_ADTS = {'String', 'PathBuf', 'Path', 'OsString', 'OsStr', 'CString', 'CStr', 'str', 'Display'}
NONPURE = {'Ref', 'RefMut', 'Iter', 'IterMut', 'IntoIter', 'Rev', 'Enumerate', 'Map', 'Filter', 'Chars', 'CharIndices',
           'Split', 'SplitWhitespace', 'Keys', 'Drain', 'Range', 'RangeInclusive', 'Arguments', 'Argument', 'Formatter',
           'Vars', 'Args', 'Skip', 'Take', 'Zip', 'Peekable', 'SplitN', 'Values', 'Lines', 'Cloned', 'Copied', 'StepBy',
           'TakeWhile', 'SkipWhile', 'FilterMap', 'Chain', 'FlatMap', 'Unique', 'NonNull', 'MaybeUninit', 'DebugStruct',
           'DebugTuple', 'Entry', 'OpenOptions', 'RSplit', 'RangeFrom', 'RangeTo', 'RangeFull', 'ReadDir', 'Bytes', 'SplitInclusive',
           'SplitTerminator', 'MatchIndices', 'Matches', 'ValuesMut', 'Wrapping', 'Once', 'Empty', 'Repeat', 'Successors', 'FromFn', 'Windows', 'Chunks', 'RSplitN', 'Fuse', 'Inspect', 'Scan', 'Successors', 'OccupiedEntry', 'VacantEntry', 'RangeToInclusive'}
RECURSIVE_BREAK = {'ast::AndOr'}


def norm(name):
    name = re.sub(r'^rsh::(?:[a-z_]+::)*?(core|alloc|std)::', r'\1::', name)
    return name


def last(n):
    return n.split('::')[-1]


class Types:
    def __init__(self, tys):
        self.t = tys
        self._sort = {}
        self._canon = {}
        self._dt = {}
        self._stack = []
        self.recs = {}

    def __getitem__(self, i):
        return self.t[i]

    def s(self, i):
        return self.t[i]['s']

    def kind(self, i):
        k = self.t[i]['k']
        return k if isinstance(k, str) else k[0]

    def adt(self, i):
        return self.t[i]

    def aname(self, i):
        t = self.t[i]
        return last(t['name'])

    def canon(self, i):
        c = self._canon.get(i)
        if c is not None:
            return c
        t = self.t[i]
        k = self.kind(i)
        if k in ('bool', 'char', 'str', 'never', 'float'):
            r = 'String' if k == 'str' else k
        elif k == 'int':
            r = ('i' if t['sg'] else 'u') + str(t['w'])
        elif k == 'array' or k == 'slice':
            r = 'Vec<%s>' % self.canon(t['e'])
        elif k == 'ref':
            r = ('&mut ' if t['mut'] else '') + self.canon(t['e'])
        elif k == 'ptr':
            r = '*' + self.canon(t['e'])
        elif k == 'tuple':
            r = '(%s)' % ','.join(self.canon(x) for x in t['f'])
        elif k == 'adt':
            n = last(t['name'])
            targs = [a for a in (t.get('args') or []) if isinstance(a, int)]
            if n in STR_ADTS:
                r = 'String'
            elif n in ('Box', 'Rc', 'Arc', 'Fragile') and t['crate'] != 'rsh':
                r = self.canon(targs[0])
            elif n in ('Vec', 'VecDeque') and t['crate'] != 'rsh':
                r = 'Vec<%s>' % self.canon(targs[0])
            elif n in ('HashMap', 'BTreeMap') and t['crate'] != 'rsh':
                r = 'Map<%s,%s>' % (self.canon(targs[0]), self.canon(targs[1]))
            elif n in ('HashSet', 'BTreeSet') and t['crate'] != 'rsh':
                r = 'Set<%s>' % self.canon(targs[0])
            elif targs and n not in ('Formatter',):
                self._canon[i] = '%s<?>' % t['name']
                r = '%s<%s>' % (t['name'], ','.join(self.canon(a) for a in targs))
            else:
                r = t['name']
        else:
            r = t['s']
        self._canon[i] = r
        return r

    # -- special ADT classification
    def is_adt(self, i, *names):
        return self.kind(i) == 'adt' and last(self.t[i]['name']) in names

    def transparent(self, i):
        """Box/Rc/&/Fragile: pointee type, else None"""
        k = self.kind(i)
        if k == 'ref' and not self.t[i]['mut']:
            return self.t[i]['e']
        if k == 'adt' and self.t[i]['crate'] != 'rsh' and last(self.t[i]['name']) in ('Box', 'Rc', 'Arc', 'Fragile'):
            return [a for a in self.t[i]['args'] if isinstance(a, int)][0]
        return None

    def is_union(self, i):
        return self.kind(i) == 'adt' and not self.t[i].get('enum') and not self.t[i]['v']

    def clike(self, i):
        t = self.t[i]
        return t.get('enum') and all(not v['f'] for v in t['v']) and len(t['v']) > 0

    def elem(self, i):
        """element type of a Vec/slice/array (through transparent pointers)"""
        while True:
            k = self.kind(i)
            if k in ('array', 'slice'):
                return self.t[i]['e']
            if k == 'adt' and last(self.t[i]['name']) in ('Vec', 'VecDeque'):
                return [a for a in self.t[i]['args'] if isinstance(a, int)][0]
            if k in ('ref', 'ptr'):
                i = self.t[i]['e']
                continue
            tr = self.transparent(i)
            if tr is None:
                raise Unsupported('elem of ' + self.s(i))
            i = tr

    def targs(self, i):
        return [a for a in (self.t[i].get('args') or []) if isinstance(a, int)]

    def strip(self, i):
        """through refs/pointers/Box/Rc"""
        while True:
            k = self.kind(i)
            if k in ('ref', 'ptr'):
                i = self.t[i]['e']
                continue
            tr = self.transparent(i)
            if tr is None:
                return i
            i = tr

    def sort(self, i):
        c = self.canon(i)
        r = self._sort.get(c)
        if r is None:
            r = self._mk(i, c)
            self._sort[c] = r
        if isinstance(r, str):
            raise NonPure(r)
        return r

    def pure(self, i):
        try:
            self.sort(i)
            return True
        except NonPure:
            return False

    def _mk(self, i, c):
        t = self.t[i]
        k = self.kind(i)
        try:
            if k == 'bool':
                return z3.BoolSort()
            if k in ('int', 'char'):
                return z3.IntSort()
            if k == 'float':
                return z3.RealSort()
            if k == 'str':
                return z3.StringSort()
            if k in ('array', 'slice'):
                return z3.SeqSort(self.sort(t['e']))
            if k == 'ref':
                if t['mut']:
                    return 'mutable reference'
                return self.sort(t['e'])
            if k == 'fnptr':
                return z3.IntSort()
            if k == 'never':
                return z3.DeclareSort('Never')
            if k == 'tuple':
                return self._mkdt(i, c, [('tup', 0, [('f%d' % n, x) for n, x in enumerate(t['f'])])])
            if k == 'adt':
                n = last(t['name'])
                if n in STR_ADTS:
                    return z3.StringSort()
                tr = self.transparent(i)
                if tr is not None:
                    return self.sort(tr)
                targs = self.targs(i)
                if t['crate'] != 'rsh':
                    if n in ('Vec', 'VecDeque'):
                        return z3.SeqSort(self.sort(targs[0]))
                    if n in ('HashMap', 'BTreeMap'):
                        return z3.ArraySort(self.sort(targs[0]), self.opt(self.sort(targs[1])))
                    if n in ('HashSet', 'BTreeSet'):
                        return z3.ArraySort(self.sort(targs[0]), z3.BoolSort())
                    if n in ('RefCell', 'Cell', 'UnsafeCell'):
                        return z3.IntSort()
                    if n in ('Atomic', 'AtomicBool', 'AtomicI32', 'AtomicUsize'):
                        if targs:
                            return self.sort(targs[0])
                        return z3.BoolSort() if n == 'AtomicBool' else z3.IntSort()
                    if n in ('File',):
                        return z3.IntSort()
                    if n == 'SigSet':
                        return z3.ArraySort(z3.IntSort(), z3.BoolSort())
                    if n in ('Pid', 'Uid'):
                        return self._mkdt(i, c, [('Pid', 0, [('0', 'int')])])
                    if n in NONPURE:
                        return n
                    if n in ('SaFlags', 'WaitPidFlag', 'InternalBitFlags'):
                        return z3.IntSort()
                if self.clike(i):
                    return z3.IntSort()
                if t['crate'] == 'rsh' or n in ('Option', 'Result', 'ControlFlow', 'WaitStatus', 'SigHandler', 'ForkResult', 'Infallible', 'ReadlineError'):
                    for b in RECURSIVE_BREAK:
                        if t['name'].endswith(b):
                            return self._mkrec(i, c)
                    if c in self._stack:
                        return self._mkrec(i, c)
                    self._stack.append(c)
                    try:
                        return self._mkdt(i, c, [(v['name'], v['disc'], [(f[0], f[1]) for f in v['f']]) for v in t['v']])
                    finally:
                        self._stack.pop()
                if n in ('Metadata', 'Error', 'SigAction', 'Stdout', 'ParseIntError', 'VarError', 'NulError', 'Utf8Error', 'Errno', 'BorrowError',
                         'BorrowMutError', 'Editor', 'FromUtf8Error', 'TryFromIntError', 'DirEntry', 'FileType', 'ParseError', 'CompleteCommandParser', 'Display', 'DefaultHistory', 'FileHistory', 'RandomState', 'Global', 'Layout'):
                    return z3.DeclareSort('Opq_' + re.sub(r'\W', '_', c))
                return z3.DeclareSort('Opq_' + re.sub(r'\W', '_', c))
        except NonPure as e:
            return '%s in %s' % (e, c)
        return 'no sort for %s (%s)' % (t['s'], k)

    _opt = {}

    def opt(self, sort):
        k = str(sort)
        if k not in self._opt:
            d = z3.Datatype('MOpt_%d' % len(self._opt))
            d.declare('mnone')
            d.declare('msome', ('mval', sort))
            self._opt[k] = d.create()
        return self._opt[k]

    def _mkdt(self, i, c, variants):
        base = 'D%d' % len(self._dt)
        self._dt[c] = None
        d = z3.Datatype(base + '_' + re.sub(r'\W', '', last(c.split('<')[0]))[:20])
        info = []
        for vi, (name, disc, fs) in enumerate(variants):
            fl = []
            for fi, (fn, ft) in enumerate(fs):
                so = z3.IntSort() if ft == 'int' else self.sort(ft)
                fl.append(('%s_%s_%s' % (base, re.sub(r'\W', '', name), fn), so))
            d.declare('%s_%s' % (base, re.sub(r'\W', '', name)), *fl)
        if not variants:
            return z3.DeclareSort(base + '_void')
        s = d.create()
        self._dt[c] = s
        return s

    def _mkrec(self, i, c):
        if c in self.recs:
            return self.recs[c]['sort']
        nm = 'R_' + re.sub(r'\W', '_', c)
        so = z3.DeclareSort(nm)
        self.recs[c] = {'sort': so, 'name': nm, 'ty': i}
        self._sort[c] = so
        t = self.t[i]
        assert not t['enum'], 'recursive enum break unsupported: ' + c
        self.recs[so.name()] = self.recs[c]
        return so

    def rec_fill(self, r):
        if 'accs' in r:
            return r
        nm, so = r['name'], r['sort']
        accs, sorts = [], []
        for f in self.t[r['ty']]['v'][0]['f']:
            fs = self.sort(f[1])
            sorts.append(fs)
            accs.append(z3.Function(nm + '_' + f[0], so, fs))
        r.update(accs=accs, mk=z3.Function(nm + '_mk', *(sorts + [so])))
        return r

    def rec_of(self, sort):
        r = self.recs.get(sort.name()) if sort.kind() == z3.Z3_UNINTERPRETED_SORT else None
        return self.rec_fill(r) if r else None

    # -- datatype ops
    def acc(self, ty, variant, i, term):
        so = self.sort(ty)
        r = self.rec_of(so)
        if r:
            if z3.is_app(term) and term.decl().eq(r['mk']):
                return term.arg(i)
            return r['accs'][i](term)
        if isinstance(so, z3.DatatypeSortRef):
            v = variant or 0
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                if term.decl().eq(so.constructor(v)):
                    return term.arg(i)
            return so.accessor(v, i)(term)
        if so == z3.IntSort() and i == 0 and self.kind(ty) == 'adt' and self.aname(ty) in FLAGS:
            return term
        raise Unsupported('field access on %s' % self.s(ty))

    def cons(self, ty, variant, args):
        so = self.sort(ty)
        r = self.rec_of(so)
        if r:
            return r['mk'](*args)
        if isinstance(so, z3.DatatypeSortRef):
            c = so.constructor(variant or 0)
            return c(*args) if args else c()
        if so == z3.IntSort() and len(args) == 1 and self.kind(ty) == 'adt' and self.aname(ty) in FLAGS:
            return args[0]
        raise Unsupported('construct %s' % self.s(ty))

    def field_types(self, ty, variant):
        t = self.t[ty]
        if self.kind(ty) == 'tuple':
            return list(t['f'])
        return [f[1] for f in t['v'][variant or 0]['f']]


def load(path):
    d = json.load(open(path))
    return d
