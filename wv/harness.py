"""Runs a check: obligations in parallel, findings, evidence, exit code."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from .absint import explore
from .model import AnalysisBroken, Program
from . import linear
from .witness import contradictory, show, witness

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Result:
    """Outcome of one obligation."""

    def __init__(self, rule, construct):
        self.rule, self.construct = rule, construct
        self.paths = 0
        self.held = 0
        self.undecided = []
        self.violations = []     # (message, where)
        self.functions = set()
        self.sample = None
        self.notes = []
        self.wall = 0.0


class Ctx:
    def __init__(self, pid, program, thorough, seed):
        self.pid, self.p = pid, program
        self.thorough, self.seed = thorough, seed
        self.jobs = []           # (rule, construct, fn(Result))
        self.rules = {}
        self.assumptions = []
        self.extra = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def job(self, rule, construct, fn):
        """fn(result) fills the result."""
        assert rule in self.rules, rule
        self.jobs.append((rule, construct, fn))

    def table(self, rule, construct, run, stubs=None, max_paths=20000,
              anchors=(), loops='violation', ext_stubs=None, where=None,
              fuel=60000, max_choices=400, raises='violation'):
        """``run(interp)`` returns None when the rule holds on the path and a
        message otherwise."""
        for a in anchors:
            if self.p.func(a) is None:
                self.job(rule, construct, lambda r, a=a: r.undecided.append(
                    'anchor %s is gone' % a))
                return

        def fn(res):
            stop = 0
            for o in explore(self.p, run, stubs, max_paths, fuel,
                             ext_stubs, max_choices):
                res.paths += 1
                if o.interp is not None:
                    res.functions |= o.interp.calls
                msg = None
                if o.kind == 'return':
                    if o.value is None:
                        res.held += 1
                        if res.sample is None and o.interp.decisions:
                            res.sample = ['%s -> %s' % d for d in
                                          o.interp.decisions[:12]]
                        continue
                    msg = o.value
                elif o.kind == 'raise':
                    if raises == 'undecided':
                        res.undecided.append('raises %s' % o.value)
                        continue
                    msg = 'raises %s%s' % (o.value, ' (%s)' % o.where
                                           if o.where else '')
                elif o.kind == 'loop':
                    if loops == 'undecided':
                        res.undecided.append('loop limit at %s' % o.value)
                        continue
                    msg = 'loops without end at %s' % o.value
                elif o.kind == 'axis':
                    res.undecided.append('axes mixed: %s' % o.value)
                    continue
                else:
                    res.undecided.append(o.value)
                    continue
                verdict, w = linear.decide(o.interp)
                if verdict is None:
                    w = witness(o.interp)
                if w is None:
                    if verdict == 'no' or contradictory(o.interp):
                        res.paths -= 1
                        continue
                    res.undecided.append('no witness for: ' + msg)
                    continue
                at = where
                if at is None and anchors:
                    at = self.p.func(anchors[0]).where
                case = show(w)
                dec = ['%s -> %s' % d for d in o.interp.decisions[:40]]
                res.violations.append((
                    msg + (' [%s]' % case if case else ''), at or construct,
                    dec))
                stop += 1
                if stop >= 3:
                    break
        self.job(rule, construct, fn)


_CTX = None


def _work(i):
    rule, construct, fn = _CTX.jobs[i]
    res = Result(rule, construct)
    t = time.time()
    try:
        fn(res)
    except AnalysisBroken as e:
        res.undecided.append('analysis broken: %s' % e)
    except RecursionError:
        res.undecided.append('analysis recursion')
    except Exception as e:      # a defect of the analysis, not of the code
        res.undecided.append('internal: %s: %s' % (type(e).__name__, e))
        res.notes.append(traceback.format_exc())
    res.wall = time.time() - t
    return res


def run_jobs(ctx):
    global _CTX
    _CTX = ctx
    n = len(ctx.jobs)
    procs = min(8, os.cpu_count() or 1, n)
    if procs <= 1 or os.environ.get('WV_SERIAL'):
        return [_work(i) for i in range(n)]
    mp = multiprocessing.get_context('fork')
    with mp.Pool(procs) as pool:
        return pool.map(_work, range(n), chunksize=1)


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                if line.startswith('finding: property=%s ' % pid):
                    out.append(line.split(' ', 2)[2])
    return out


def run_check(pid, build, level='other', root='/repo', thorough=False,
              quiet=False):
    """Returns the exit status."""
    sys.setrecursionlimit(20000)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        program = Program(root)
        ctx = Ctx(pid, program, thorough, seed)
        build(ctx)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    results = run_jobs(ctx)
    known = known_findings(pid)
    viol = []
    used = set()
    for r in results:
        for v in r.violations:
            msg, where = v[0], v[1]
            key = '%s %s' % (r.rule, r.construct)
            if key in known:
                used.add(key)
                continue
            viol.append({'property': pid, 'rule': r.rule,
                         'rule_text': ctx.rules[r.rule],
                         'construct': r.construct, 'where': where,
                         'message': msg,
                         'path': list(v[2]) if len(v) > 2 else []})
    for k in known:
        if k in used:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
    und = [(r.rule, r.construct, u) for r in results
           for u in sorted(set(r.undecided))]
    decided = [r for r in results if not r.undecided and not r.violations]
    funcs = set()
    for r in results:
        funcs |= r.functions
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, pid + '.violations.json')
    per_rule = {}
    for r in results:
        d = per_rule.setdefault(r.rule, {
            'rule': ctx.rules[r.rule], 'obligations': 0, 'held': 0,
            'undecided': 0, 'violated': 0, 'paths': 0})
        d['obligations'] += 1
        d['paths'] += r.paths
        d['held' if not r.undecided and not r.violations else
          'violated' if r.violations else 'undecided'] += 1
    samples = []
    for r in results:
        if len(samples) < 6 and r.sample:
            samples.append({'rule': r.rule, 'construct': r.construct,
                            'assumed_on_a_path': r.sample})
    coverage = {
        'explanation': 'Static analysis of the parsed package (never '
                       'imported or executed). Each obligation is a rule '
                       'applied to a construct; abstract paths are all '
                       'outcomes of the conditions the abstract domain '
                       'leaves open. An obligation is undecided when the '
                       'code uses something the analysis does not model; it '
                       'then neither passes nor fails.',
        'source_digest': program.digest,
        'analysed': program.stats(),
        'functions_interpreted': sorted(funcs),
        'obligations': len(results),
        'discharged': len(decided),
        'abstract_paths': sum(r.paths for r in results),
        'per_rule': per_rule,
        'constructs': sorted({'%s: %s' % (r.rule, r.construct)
                              for r in results})[:400],
        'undecided': [{'rule': a, 'construct': b, 'reason': c}
                      for a, b, c in und[:200]],
        'samples': samples,
    }
    coverage.update(ctx.extra)
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick',
          'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': ctx.assumptions,
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if viol:
        with open(replay, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
            f.write('\n')
    elif os.path.exists(replay):
        os.remove(replay)
    if not quiet:
        print('%s: %d obligations, %d hold, %d undecided, %d violations, '
              '%d abstract paths, %.1f s' % (
                  pid, len(results), len(decided),
                  len({(a, b) for a, b, _ in und}), len(viol),
                  coverage['abstract_paths'], time.time() - t0))
        for a, b, c in und[:20 if not os.environ.get('WV_ALL') else 10**6]:
            print('  undecided %s %s: %s' % (a, b, c))
        if os.environ.get('WV_DEBUG'):
            for r in results:
                print('  ', r.rule, r.construct, 'paths', r.paths, 'held',
                      r.held, '%.2fs' % r.wall)
                for n in r.notes:
                    print(n)
    seen = set()
    for v in viol:
        k = (v['rule'], v['construct'])
        if k in seen:
            continue
        seen.add(k)
        print('  %s: rule %s (%s): %s: %s' % (v['where'], v['rule'],
                                              v['rule_text'],
                                              v['construct'], v['message']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if not decided and not used:
        print('ANALYSIS-BROKEN property=%s nothing could be decided' % pid)
        return 2
    return 0
