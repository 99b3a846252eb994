"""Common driver of all checks: seeding, trace bookkeeping, verdicts, evidence."""
import os, sys, json, time, traceback, random, hashlib
import numpy as np
from . import tlc
from .exact import Field, Proj, PRIMES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.txt')


_run = None


def _call_run(i):
    return _run(i)


class Check:
    def __init__(self, pid, module, judge, profile='q', timeout=780):
        self.pid, self.module, self.judge, self.profile = pid, module, judge, profile
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        h = self.h = int(hashlib.sha256(f'{pid}-{self.seed}'.encode()).hexdigest()[:12], 16)
        self.rng = np.random.default_rng(h)
        self.rnd = random.Random(h)
        np.random.seed(h % (2**32))
        random.seed(h)
        self.field = Field(PRIMES[self.seed % len(PRIMES)])
        self.builders = []       # (label, builder(proj) -> list of events)
        self.design = []         # results of design models
        self.states = self.trans = 0
        self.ntraces = 0
        self.nevents = 0
        self.samples = []
        self.counts = {}
        self.timeout = timeout
        self.failures = []
        self.assumptions = []

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def proj(self, profile=None, tols=None):
        kw = {} if tols is None else dict(tols=tols)
        return Proj(self.field, profile or self.profile, **kw)

    # ---- traces
    def trace(self, label, events):
        """events: list of dict. Sequences only, no bare floats."""
        self.builders.append((label, events))
        for e in events:
            self.counts[e['op']] = self.counts.get(e['op'], 0) + 1

    def parallel(self, build, n, workers=8):
        """build(rng, i) for i < n in forked processes; every i has its own random numbers,
        so the traces do not depend on how the work is distributed"""
        import multiprocessing as mp

        def run(i):
            self.builders = []
            seed = [self.h, i]
            np.random.seed(np.random.default_rng(seed).integers(2**32))
            random.seed(self.h + i)
            build(np.random.default_rng(seed), i)
            return self.builders
        global _run
        _run = run
        with mp.get_context('fork').Pool(workers) as pool:
            res = pool.map(_call_run, range(n), chunksize=max(1, min(8, n // (workers * 4))))
        for traces in res:
            for label, ev in traces:
                self.trace(label, ev)

    def session(self, label):
        return Session(self, label)

    def run_traces(self, module=None, judge=None, timeout=None):
        module, judge = module or self.module, judge or self.judge
        traces = [ev for _, ev in self.builders]
        if not traces:
            return
        # split in batches to bound the size of the JSON document
        batches, cur, size = [], [], 0
        for i, tr in enumerate(traces):
            s = len(json.dumps(tr, default=tlc._np_default))
            if cur and size + s > 30_000_000:
                batches.append(cur); cur, size = [], 0
            cur.append(i); size += s
        batches.append(cur)
        for b in batches:
            fails, st, tr = tlc.validate(module, judge, self.field, [traces[i] for i in b],
                                         timeout=timeout or self.timeout)
            self.states += st; self.trans += tr
            for a, e, c in fails:
                self.failures.append((b[a], e, c))
        self.ntraces += len(traces)
        self.nevents += sum(map(len, traces))
        for a, e, c in self.failures[:]:
            pass
        done = self.builders
        if not self.samples:
            for lab, ev in done[:2]:
                self.samples.append(dict(trace=lab, events=[str(x)[:400] for x in ev[:3]]))
        self._report = getattr(self, '_report', [])
        for a, e, c in self.failures:
            self._report.append(dict(trace=done[a][0], event_index=e, clause=c, event=done[a][1][e]))
        self.failures = []
        self.builders = []

    def model(self, module, consts, invariants=(), label=None, **kw):
        ok, st, tr, out = tlc.model_check(module, consts, invariants, **kw)
        self.states += st; self.trans += tr
        self.design.append(dict(model=label or module, consts={k: str(v)[:200] for k, v in consts.items()},
                                invariants=list(invariants), states=st, transitions=tr, ok=ok))
        if not ok:
            # a design model that fails says the specification itself is inconsistent
            raise tlc.MachineryError(f'design model {module} fails:\n' + out[-4000:])
        return out

    # ---- verdict
    def known(self):
        res = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith(f'finding: property={self.pid} '):
                    # finding: property=C22 key=<label prefix>|<clause> <text>
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    lab, clause = key[len('key='):].split('|')
                    res.append((lab, clause, text))
        return res

    def finish(self):
        if self.builders:
            self.run_traces()
        report = getattr(self, '_report', [])
        known = self.known()
        viol, seen = [], set()
        for r in report:
            for lab, clause, text in known:
                if r['trace'].startswith(lab) and r['clause'] == clause:
                    seen.add((lab, clause, text))
                    break
            else:
                viol.append(r)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.trans,
                                traces_validated_against_impl=self.ntraces,
                                events_validated=self.nevents, events_by_kind=self.counts,
                                design_models=self.design, field_prime=self.field.p,
                                samples=self.samples or ['none']),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for lab, clause, text in sorted(seen):
            print(f'KNOWN-FINDING: property={self.pid} {text}')
        if viol:
            rp = os.path.join(ROOT, 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(viol[:50], f, indent=1, default=str)
            for r in viol[:10]:
                print(f"  clause {r['clause']} in {r['trace']} event {r['event_index']}: {str(r['event'])[:300]}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f'{self.pid} ok: {self.ntraces} traces, {self.nevents} events, {self.states} states, '
              f'{time.time() - self.t0:.1f} s')
        return 0


class Session:
    """Collects the events of one trace; an exception that the library (or a
    projection of what it returned) raises on valid input becomes an event that
    the specification rejects."""
    def __init__(self, chk, label):
        self.chk, self.label, self.events = chk, label, []

    def ev(self, op, **kw):
        self.events.append(dict(op=op, **kw))

    def __enter__(self):
        return self

    def __exit__(self, et, ex, tb):
        if et is not None and issubclass(et, Exception) and not issubclass(et, tlc.MachineryError):
            where = ''.join(traceback.format_exception(et, ex, tb)[-7:])
            self.events.append(dict(op='raised', what=f'{et.__name__}: {ex}'[:300], where=where[-1800:]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exception(et, ex, tb)
        elif et is not None:
            return False
        self.chk.trace(self.label, self.events)
        return True


def call(f, *a, **k):
    """Run a library call; returns (result, None) or (None, exception name)."""
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*a, **k), None
    except Exception as ex:   # the specification decides whether raising is allowed
        return None, f'{type(ex).__name__}: {ex}'[:200]


def main(fn):
    try:
        rc = fn()
    except tlc.MachineryError as ex:
        print('MACHINERY ERROR:', ex, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)
