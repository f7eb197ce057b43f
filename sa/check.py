"""python3 -m sa.check <property> [--gen]   decides one property.
exit 0: holds on everything analysed; 1: VIOLATION line(s); 2: analysis broken."""
import sys, os, json, time, re, traceback
from . import front, engine, spec, prop


def known_findings():
    out = []
    p = front.VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) match=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out


def others(P):
    """the other configurations a property is checked in, with the units that exist there"""
    if P.cfg != 'full' or not P.fns: return []
    tr = [t for t in P.tus if t in front.TRACE_TUS]
    return [('default', list(P.tus))] + ([('trace', tr)] if tr else [])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    t0 = time.time()
    P = prop.load_all().get(pid)
    if P is None:
        print('no such property', pid); return 2
    ev = {'functions': [], 'rules': [], 'obligations': 0}
    viol = []
    err = None
    try:
        tus = list(P.tus)
        cfgs = [P.cfg]
        F = front.load(tus, P.cfg, P.inst)
        if '--gen' in sys.argv:
            spec.generate(pid, F, P.fns)
            print('generated', spec.tpath(pid))
            for cfg, ct in others(P):
                engine.reset()
                spec.generate(pid + '.' + cfg, front.load(ct, cfg, P.inst), P.fns, [pid] + [pid + '.default'] * (cfg == 'trace'))
                engine.reset()
        if P.fns: viol += spec.check_tables(pid, F, P.fns, ev)
        for cfg, ct in others(P):
            # what the other configurations compile differently
            if not os.path.exists(spec.tpath(pid + '.' + cfg)): continue
            engine.reset()
            n = ev['obligations']
            try: Fc = front.load(ct, cfg, P.inst)
            except front.AnalysisError as e:
                ev[cfg + '_configuration'] = 'not analysed: %s' % str(e)[:300]     # it need not build in every configuration
                continue
            vd = spec.check_tables(pid + '.' + cfg, Fc, P.fns, ev)
            seen = {str(v) for v in viol}
            viol += [v for v in vd if str(v) not in seen]
            ev[cfg + '_configuration_obligations'] = ev['obligations'] - n
            engine.reset()
        for c in P.custom:
            engine.reset()
            r = c(F, ev, tier)
            viol += r
        if tier == 'thorough':
            # the same rules over every translation unit of the library at once
            # (other instantiators, other definitions of the same names)
            F2 = front.load(front.all_tus(), P.cfg, P.inst)
            ev2 = {'functions': [], 'rules': [], 'obligations': 0}
            v2 = []
            if P.fns: v2 += spec.check_tables(pid, F2, P.fns, ev2)
            for c in P.custom:
                engine.reset()
                v2 += c(F2, ev2, tier)
            seen = {str(v) for v in viol}
            viol += [v for v in v2 if str(v) not in seen]
            ev['whole_library'] = {'translation_units': len(F2.tus), 'functions': len(F2.funcs), 'records': len(F2.recs), 'obligations': ev2['obligations']}
    except front.AnalysisError as e:
        err = 'analysis broken: %s' % e
    except Exception:
        err = 'analysis broken: ' + traceback.format_exc()
    if err:
        print(err)
        return 2
    kn = known_findings()
    fresh = []
    for v in viol:
        k = next((x for x in kn if x[0] == pid and x[1] in (v.rule + '|' + v.what).replace(' ', '_')), None)
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
        else: fresh.append(v)
    os.makedirs(front.VERIF + '/evidence', exist_ok=True)
    nfun = len(ev['functions'])
    cov = {
        'explanation': P.note or 'Static analysis of the current source: each function below is reduced to its guarded effects (value-numbered, helpers substituted, guards as canonical boolean functions) and compared with the effects the property requires; custom rules list their own sites.',
        'obligations': ev['obligations'], 'discharged': max(0, ev['obligations'] - len(viol)),
        'checker_cmd': 'python3 -m sa.check ' + pid,
        'trusted_base': ['clang 18 front end', 'tool/vtsa.cc', 'sa/engine.py', 'sa/tables/%s.json' % pid],
        'translation_units': P.tus, 'config': P.cfg, 'functions_analysed': len(F.funcs),
        'functions': ev['functions'], 'rules': ev['rules'],
        'samples': [x['fn'] for x in ev['functions'][:5]] + [str(r)[:200] for r in ev['rules'][:5]],
    }
    if 'whole_library' in ev: cov['whole_library'] = ev['whole_library']
    for k in ev:
        if k not in cov: cov[k] = ev[k]
    if ev['obligations'] == 0:
        print('analysis broken: no obligation was checked'); return 2
    E = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'coverage': cov,
         'assumptions': ['distinct access paths do not alias', 'calls to library functions not substituted are opaque effects',
                         'loops are compared by domain and per-iteration effect'],
         'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    json.dump(E, open(front.VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    if fresh:
        rp = front.VERIF + '/evidence/%s.violation.txt' % pid
        open(rp, 'w').write('\n'.join(str(v) for v in fresh) + '\n')
        for v in fresh[:8]: print(v)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('ok property=%s obligations=%d functions=%d %.1fs' % (pid, ev['obligations'], nfun, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
