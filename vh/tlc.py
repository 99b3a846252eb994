"""Running TLC on a trace file or on a bounded design model."""
import os, re, subprocess, tempfile, shutil, json, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def run(module, cfg, env=None, workers=8, timeout=800, extra=()):
    d = tempfile.mkdtemp(prefix='vtlc')
    try:
        cfgf = os.path.join(d, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss32m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfgf, *extra,
               os.path.join(SPEC, module + '.tla')]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f'TLC timed out on {module}: {(ex.stdout or b"")[-2000:]}')
        return r.returncode, r.stdout + r.stderr, time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(',', '')) for x in m.groups())


def cfg_consts(c):
    if not c:
        return ''
    return 'CONSTANTS\n' + ''.join(f'  {k} = {v}\n' for k, v in c.items())


def validate(module, judge, field, traces, timeout=800, extra_doc=None, workers=8):
    """Replay traces through the specification. Returns (fails, states, transitions)
    where fails is a list of (trace index, event index, clause), zero based."""
    if not traces:
        raise MachineryError('no traces')
    d = tempfile.mkdtemp(prefix='vtrc')
    try:
        tf = os.path.join(d, 'trace.json')
        doc = dict(traces=traces)
        doc.update(extra_doc or {})
        with open(tf, 'w') as f:
            json.dump(doc, f, separators=(',', ':'), default=_np_default)
        cfg = ('SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n' + cfg_consts(field.consts())
               + f'CONSTANT Judge <- {judge}\n')
        rc, out, _ = run(module, cfg, env={'TRACE_FILE': tf}, timeout=timeout, workers=workers)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails = [(int(a) - 1, int(b) - 1, c) for a, b, c in
             re.findall(r'<<"FAIL", (\d+), (\d+), "([^"]*)">>', out)]
    gen, distinct = stats(out)
    if rc != 0 or 'No error has been found' not in out:
        raise MachineryError(f'TLC failed on {module} (rc {rc}):\n' + out[-6000:])
    expect = sum(len(t) for t in traces) + len(traces)
    skipped = sum(len(traces[a]) - b - 1 for a, b, _ in set((a, b, 0) for a, b, _ in fails))
    # `generated` counts every state including initial ones
    if gen + skipped < expect:
        raise MachineryError(f'TLC consumed {gen} of {expect} states without verdict:\n' + out[-3000:])
    return sorted(set(fails)), distinct, gen


def _np_default(o):
    import numpy as np
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    raise TypeError(repr(o))


def model_check(module, consts, invariants=(), properties=(), spec='Spec', constraint=None, timeout=600,
                workers=8, deadlock=False, extra=(), env=None, view=None, symmetry=None):
    """Exhaustive check of a design model; returns (ok, states, transitions, out)."""
    cfg = f'SPECIFICATION {spec}\nCHECK_DEADLOCK {"TRUE" if deadlock else "FALSE"}\n' + cfg_consts(consts)
    for i in invariants:
        cfg += f'INVARIANT {i}\n'
    for p in properties:
        cfg += f'PROPERTY {p}\n'
    if constraint:
        cfg += f'CONSTRAINT {constraint}\n'
    if view:
        cfg += f'VIEW {view}\n'
    rc, out, dt = run(module, cfg, timeout=timeout, workers=workers, extra=extra, env=env)
    gen, distinct = stats(out)
    ok = rc == 0 and 'No error has been found' in out
    if not ok and not re.search(r'is violated|were violated|Deadlock reached', out):
        raise MachineryError(f'TLC failed on {module} (rc {rc}):\n' + out[-6000:])
    return ok, distinct, gen, out
