"""Time TLC per event kind: python tools/proftrace.py c05 [N]"""
import sys, time, os
sys.path[:0] = ['/repo', '/verif']
import vh.tlc as T, vh.check
name = sys.argv[1]
src = open(f'/verif/checks/{name}.py').read().replace('main(body)', '')
orig = T.validate
def v(module, judge, field, traces, **k):
    groups = {}
    for tr in traces:
        groups.setdefault(tr[0]['op'] + ':' + tr[-1]['op'], []).append(tr)
    for k2, g in groups.items():
        t = time.time(); orig(module, judge, field, g[:40]); dt = time.time() - t
        print(k2, len(g), 'time for', min(40, len(g)), round(dt, 1))
    return [], 10**6, 10**6
T.validate = v
exec(src)
body()
