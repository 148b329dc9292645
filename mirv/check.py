"""check.py ID [quick|thorough]: decides one property on /repo's current tree.

exit 0: every obligation that could be generated was discharged and the end-to-end suite passed
exit 1: VIOLATION line (a failing script, or a failed obligation: then it ends with no-failing-input-found)
"""
import importlib, json, multiprocessing as mp, os, random, shutil, sys, time, traceback
from . import build
V = build.V
import z3
from . import core, models, strs, sysm
from .core import Engine, State, Outcome, Deadline
from .tys import Unsupported, NonPure


class Enough(Exception):
    pass


class ProofCtx:
    """collects the obligations of one proof group"""
    def __init__(self, dump, name, deadline):
        self.dump, self.name, self.deadline = dump, name, deadline
        self.obs = []
        self.engines = []
        self.assumptions = set()
        self.functions = []

    def engine(self):
        e = Engine(self.dump, models.MODELS)
        e.drop_hook = sysm.drop_hook
        e.deadline = self.deadline
        e.loop_log = []
        run, depth, mine = e.run_fn, [0], self.functions

        def run_fn(st, fn, args, *a, **k):
            # the functions that are verified are those a proof runs itself (not those run inside them)
            if not depth[0] and fn['nname'] not in mine:
                mine.append(fn['nname'])
            depth[0] += 1
            try:
                return run(st, fn, args, *a, **k)
            finally:
                depth[0] -= 1
        e.run_fn = run_fn
        self.engines.append(e)
        return e

    def fn(self, e, *names):
        """the first of the named functions that exists; a missing one is a lost anchor (undecided)"""
        for n in names:
            try:
                return e.find(n)
            except Unsupported:
                pass
        raise Unsupported('anchor not found: ' + ' / '.join(names))

    def ob(self, name, e, st, f, timeout=None):
        t = time.time()
        bad = sum(x['status'] != 'proved' for x in self.obs)
        if bad >= 6:
            raise Enough()
        patient = bad < 2
        r, s = e.valid(st, f, timeout or (15000 if patient else 5000))
        o = {'name': name, 'status': {'yes': 'proved', 'no': 'failed', 'unknown': 'unknown'}[r], 'by': 'z3 ' + z3.get_version_string(), 't': round(time.time() - t, 3)}
        if r == 'unknown':
            from . import alt
            cand = e.candidate
            r2 = alt.cvc5(e, st, f, 20) if patient else 'unknown'
            if r2 == 'unsat':
                o['status'], o['by'] = 'proved', 'cvc5'
            elif cand is not None and patient:
                # not discharged, and the ground instances have a model: tried once more with more time before it counts
                keep = e.after_candidate
                e.after_candidate = 40000
                r, s = e.valid(st, f, 40000)
                e.after_candidate = keep
                o['status'] = {'yes': 'proved', 'no': 'failed', 'unknown': 'unknown'}[r]
                if r == 'unknown' and e.candidate is not None:
                    o['status'] = 'failed'
                    o['model'] = dict(model_text(e.candidate.model(), st), note='counterexample of the ground instances of the obligation')
        if r == 'no':
            o['model'] = model_text(s.model(), st)
        self.obs.append(o)
        return o['status'] == 'proved'

    def claim(self, name, okay, detail='', by='symbolic execution (z3 feasibility)'):
        """an obligation decided by the executor itself (no path reaches what it forbids)"""
        self.obs.append({'name': name, 'status': 'proved' if okay else 'failed', 'by': by, 't': 0, 'model': detail if not okay else ''})
        return okay

    def unknown(self, name, why):
        self.obs.append({'name': name, 'status': 'unknown', 'by': '', 't': 0, 'model': str(why)[:300]})

    def cover(self, name, e, st, f=True):
        """vacuity guard: this must be reachable"""
        r, s = e.solve(st.pc + ([f] if not isinstance(f, bool) else []), timeout=8000)
        if r == z3.unsat:
            self.obs.append({'name': 'cover:' + name, 'status': 'unknown', 'by': '', 't': 0, 'model': 'not reachable: the contract would be vacuous'})

    def covers(self, name, n):
        if not n:
            self.obs.append({'name': 'cover:' + name, 'status': 'unknown', 'by': '', 't': 0, 'model': 'no path of this kind: the contract would be vacuous'})


def model_text(m, st):
    out = []
    for d in m.decls()[:60]:
        try:
            out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:120]))
        except Exception:
            pass
    return {'counterexample': out, 'path': [' '.join(str(x)[:80] for x in n) for n in st.notes][-20:]}


def group_main(args):
    pid, gname, dumpfile, deadline = args
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    fn = dict(mod.PROOFS)[gname]
    res = {'group': gname, 'error': None}
    with open(dumpfile) as f:
        d = json.load(f)
    c = ProofCtx(d, gname, deadline)
    import threading
    sys.setrecursionlimit(20000)
    try:
        fn(c)
    except Unsupported as x:
        res['error'] = 'unsupported: ' + str(x)[-400:]
    except NonPure as x:
        res['error'] = 'unsupported value: ' + str(x)[-300:]
    except Enough:
        res['error'] = 'stopped after six obligations that were not discharged'
    except Deadline:
        res['error'] = 'time budget exhausted'
    except z3.Z3Exception as x:
        res['error'] = 'z3: ' + str(x)[:300]
    except Exception as x:
        res['error'] = 'internal: ' + traceback.format_exc()[-700:]
    res['obs'] = c.obs
    res['functions'] = sorted(set(c.functions))
    agg = lambda k: sorted({x for e in c.engines for x in getattr(e, k)})
    res['inlined'], res['models'], res['contracts'] = agg('inlined'), agg('used_models'), agg('used_contracts')
    res['loops'] = [dict(fn=l['fn'], invariants=len(l['invariants']), rounds=l['rounds']) for e in c.engines for l in e.loop_log]
    res['queries'] = sum(e.queries for e in c.engines)
    res['solver_s'] = round(sum(e.solver_time for e in c.engines), 2)
    res['assumptions'] = sorted(set().union(c.assumptions, *[e.assumptions for e in c.engines]))
    res['wall'] = round(time.time() - t0, 2)
    return res


def run_proofs(mod, pid, tier, limit):
    groups = list(getattr(mod, 'PROOFS', []))
    if not groups:
        return [], None
    try:
        dumpf = build.dump()
    except Exception as x:
        return [], 'no MIR: ' + str(x)[:500]
    deadline = time.time() + limit
    out = []
    procs = []
    ctx = mp.get_context('fork')
    q = {}
    pending = list(groups)
    running = {}
    while pending or running:
        while pending and len(running) < 8:
            g = pending.pop(0)[0]
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_group_proc, args=((pid, g, dumpf, deadline), w))
            p.start()
            w.close()
            running[g] = (p, r)
        for g in list(running):
            p, r = running[g]
            done = None
            if r.poll(0.02):
                try:
                    done = r.recv()
                except EOFError:
                    done = None
                p.join(2)
                if done is None:
                    done = {'group': g, 'error': 'the verifier process ended without a result', 'obs': []}
            elif not p.is_alive():
                done = {'group': g, 'error': 'the verifier process died', 'obs': []}
            elif time.time() > deadline + 20:
                p.kill()
                done = {'group': g, 'error': 'time budget exhausted', 'obs': []}
            if done is not None:
                if p.is_alive():
                    p.kill()
                del running[g]
                out.append(done)
    order = [g for g, _ in groups]
    out.sort(key=lambda r: order.index(r['group']))
    return out, None


def _group_proc(a, w):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY if False else 512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass
    import threading
    threading.stack_size(512 << 20)
    box = {}
    t = threading.Thread(target=lambda: box.update(r=group_main(a)))
    t.start()
    t.join()
    w.send(box.get('r') or {'group': a[1], 'error': 'the verifier crashed', 'obs': []})
    w.close()
    os._exit(0)


def known_findings():
    out = []
    try:
        with open(os.path.join(V, 'known_findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    out.append(l[len('finding:'):].strip())
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    sys.path.insert(0, V)
    from e2e import harness
    exe, probe = build.rsh(), build.probe()
    rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
    violations = []
    ev_e2e = {}
    # ---- end-to-end suite on the real binary
    box = harness.Box(exe, probe)
    known = [k for k in known_findings() if k.startswith('property=%s ' % pid)]
    known_seen = []
    try:
        cases = list(mod.cases(tier, rng))
        limit = getattr(mod, 'E2E_SECONDS', {}).get(tier, 60 if tier == 'quick' else 600)
        n, fails = harness.run_cases(box, cases, deadline=time.time() + limit)
        distinct = len({(c.script if isinstance(c.script, str) else repr(c.script), repr(sorted((k, repr(v)) for k, v in c.kw.items() if not callable(v)))) for c in cases[:n]})
        for c, m, r in fails:
            violations.append({'kind': 'end-to-end', 'case': c.tag, 'script': c.script if isinstance(c.script, str) else c.script.decode('latin1'), 'how': {k: repr(v)[:2000] for k, v in c.kw.items()}, 'what': m, 'observed': r.brief()})
        for k, c in getattr(mod, 'FINDINGS', []):
            line = [x for x in known if (' ' + k + ':') in x]
            r = box.run(c.script, **c.kw)
            m = c.check(r)
            if m:
                if line:
                    known_seen.append(line[0])
                else:
                    violations.append({'kind': 'end-to-end', 'case': k, 'script': c.script, 'how': {}, 'what': m, 'observed': r.brief()})
        ev_e2e = {'evaluations': box.runs, 'cases': len(cases), 'cases_run': n, 'distinct_nontrivial': distinct, 'rule': getattr(mod, 'RULE', ''), 'samples': [c.script if isinstance(c.script, str) else repr(c.script)[:200] for c in rng.sample(cases, min(6, len(cases)))] if cases else []}
        ev_e2e['samples'] = [s[:300] for s in ev_e2e['samples']]
    finally:
        box.close()
    native_err = None
    if hasattr(mod, 'native'):
        try:
            k, desc, bad = mod.native(tier, seed)
            ev_e2e['native'] = {'inputs': k, 'what': desc}
            for text, what in bad:
                violations.append({'kind': 'native harness', 'case': desc, 'script': text, 'how': {}, 'what': what, 'observed': {}})
        except Exception as x:
            native_err = str(x)[:600]
    t_e2e = time.time() - t0
    # ---- deductive part
    limit = getattr(mod, 'PROOF_SECONDS', {}).get(tier, 90 if tier == 'quick' else 400)
    groups, err = run_proofs(mod, pid, tier, limit)
    nob = sum(len(g['obs']) for g in groups)
    proved = sum(o['status'] == 'proved' for g in groups for o in g['obs'])
    failed = [(g['group'], o) for g in groups for o in g['obs'] if o['status'] == 'failed']
    unknown = [(g['group'], o) for g in groups for o in g['obs'] if o['status'] == 'unknown']
    undecided = [(g['group'], g['error']) for g in groups if g['error']]
    if err:
        undecided.append(('all', err))
    if native_err:
        undecided.append(('native harness', native_err))
    # ---- evidence
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1), 'violations': len(violations) + len(failed),
          'assumptions': sorted(set(a for g in groups for a in g.get('assumptions', [])) | set(getattr(mod, 'ASSUMES', [])) | set(COMMON))[:60],
          'coverage': {
              'obligations': nob, 'discharged': proved, 'checker_cmd': './check.sh %s %s' % (pid, tier),
              'trusted_base': ['rustc (MIR of /repo as compiled by the installed nightly, debug assertions as in the dev profile)', 'mirdump (prints that MIR)', 'mirv (the verifier in /verif/mirv: symbolic semantics of MIR, weakest assumptions at loops)', 'z3 ' + z3.get_version_string() + ', cvc5 for what z3 leaves open'] + ['assumed contract: ' + m for m in sorted({m for g in groups for m in g.get('models', [])})][:70],
              'functions_under_contract': sorted({f for g in groups for f in g.get('functions', [])}),
              'functions_executed_inline': sorted({f for g in groups for f in g.get('inlined', []) if f.startswith('rsh::')})[:80],
              'callee_contracts_used': sorted({f for g in groups for f in g.get('contracts', [])}),
              'groups': [{'group': g['group'], 'obligations': len(g['obs']), 'discharged': sum(o['status'] == 'proved' for o in g['obs']), 'loops': len(g.get('loops', [])), 'queries': g.get('queries'), 'solver_s': g.get('solver_s'), 'wall_s': g.get('wall'), 'undecided': (g['error'] or '')[:160]} for g in groups],
              'undecided': [{'group': a, 'why': str(b)[:200]} for a, b in undecided][:20] + [{'group': a, 'why': (o['name'] + ': ' + str(o.get('model', 'solver gave up')))[:200]} for a, o in unknown][:20],
              'back_ends': {b: sum(1 for g in groups for o in g['obs'] if o['by'] == b) for b in sorted({o['by'] for g in groups for o in g['obs']})},
              'solver_s': round(sum(g.get('solver_s') or 0 for g in groups), 2),
              'bounded_check': dict(ev_e2e, label='bounded: runs of the real binary, never counted as proved', seconds=round(t_e2e, 1)),
          }}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json.tmp'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(os.path.join(V, 'evidence', pid + '.json.tmp'), os.path.join(V, 'evidence', pid + '.json'))
    for k in known_seen:
        print('KNOWN-FINDING: ' + k)
    print('%s %s: %d obligations, %d discharged, %d failed, %d unknown, %d groups undecided; %d scripts run, %d failed; %.1fs' % (
        pid, tier, nob, proved, len(failed), len(unknown), len(undecided), ev_e2e.get('cases_run', 0), len(violations), time.time() - t0))
    for g, w in undecided:
        print('  undecided: %s: %s' % (g, str(w)[:600]))
    for g, o in unknown:
        print('  unknown: %s: %s %s' % (g, o['name'], str(o.get('model', ''))[:200]))
    if not violations and not failed:
        return 0
    rd = os.path.join(build.B, 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s-%s.json' % (pid, tier))
    with open(rp, 'w') as f:
        json.dump({'property': pid, 'tree': build.tree_hash(), 'failing_inputs': violations, 'failed_obligations': [dict(o, group=g) for g, o in failed][:20],
                   'rerun': './check.sh %s %s' % (pid, tier)}, f, indent=1, default=str)
    for v in violations:
        print('  failing input (%s): %r\n    %s' % (v['case'], v['script'][:400], v['what'][:400]))
    for g, o in failed[:8]:
        print('  failed obligation: %s: %s\n    %s' % (g, o['name'], str(o.get('model', ''))[:600]))
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if violations else ' no-failing-input-found'))
    return 1


COMMON = ['integer addition and multiplication do not overflow (sizes and counters stay far below 2^63)',
          'memory allocation succeeds; Drop of library types has no effect other than the modelled ones',
          'unwinding: a panic ends the process it happens in (the shell installs no catch_unwind)',
          'iteration of HashMap/HashSet/BTreeMap visits each entry once; text is valid UTF-8']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
