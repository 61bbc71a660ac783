#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decides one property on /repo's current working tree."""
import os, sys, json, time, shutil, tempfile, subprocess, threading, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
from config import PROPS, TRUSTED, THROWS_TRUSTED, COMMON_ASSUMPTIONS

T0 = time.time()


def known():
    p = VERIF + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def again(Unit, u, w, first, timeout, budget):
    """Tries again with a larger budget and with other random seeds of the solver; the run that discharges most counts."""
    from concurrent.futures import ThreadPoolExecutor
    def one(k):
        d = '%s/again%d' % (w, k)
        os.makedirs(d, exist_ok=True)
        extra = ('--smt-option', 'smt.random_seed=%d' % k, '--smt-option', 'sat.random_seed=%d' % k) if k else ()
        return Unit(u, REPO, d).run(timeout=timeout, rlimit=budget * (1 if k else 3), threads=2, extra=extra)
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, (0, 1, 2, 4)))
    good = [x for x in [first] + rs if not x['timed_out'] and not x['broken'] and x['errors']]
    if not good:
        return first
    best = min(good, key=lambda x: len(x['failures']))
    best['wall'] = first['wall'] + max(x['wall'] for x in rs)
    return best


def run_units(prop, conf, tier, work, res):
    """Verify every unit; an obligation that fails is tried once more with a larger budget."""
    try:
        from unit import Unit
        for u in conf['units']:
            w = work + '/u_' + u
            os.makedirs(w, exist_ok=True)
            budget = 60 if tier == 'quick' else 200
            if u == 'throws':
                import throws
                res[u] = throws.run(REPO, w, timeout=400 if tier == 'quick' else 1200, threads=4, rlimit=budget)
                continue
            r = Unit(u, REPO, w).run(timeout=280 if tier == 'quick' else 900, rlimit=budget, threads=4)
            if r['timed_out'] or (not r['broken'] and any('vacuity_guard' not in f for f in r['failures'])):
                r = again(Unit, u, w, r, 280 if tier == 'quick' else 900, budget)
            res[u] = r
    except Exception:
        res['_error'] = traceback.format_exc()


def run_harness(prop, conf, tier, seed, work, res):
    try:
        from hbuild import build
        t = time.time()
        exe, err = build(REPO, work, conf['harness'], tuple(conf.get('harness_dirs', ())), jobs=6)
        res['build_s'] = time.time() - t
        if not exe:
            res['build_error'] = err
            return
        secs = conf.get('secs', 20) if tier == 'quick' else conf.get('secs_thorough', 240)
        jobs = conf.get('jobs', 4) if tier == 'quick' else 8
        env = dict(os.environ)
        pp = work + '/noplugins'
        os.makedirs(pp, exist_ok=True)
        tmp = work + '/tmp'
        os.makedirs(tmp, exist_ok=True)
        env.update(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', TYPELIB_PLUGIN_PATH=pp, TMPDIR=tmp, HARNESS_TMP=tmp, VERIF_REPO=REPO)
        ps = []
        for i in range(jobs):
            rp = work + '/replay_%d.json' % i
            s = seed * 1000 + i
            err = open(work + '/err_%d' % i, 'wb')
            ps.append((i, s, rp, subprocess.Popen([exe, str(s), str(secs), str(conf.get('max_cases', 10 ** 9)), rp], stdout=subprocess.PIPE, stderr=err, env=env, cwd=tmp)))
        res['runs'] = []
        for i, s, rp, p in ps:
            try:
                out = p.communicate(timeout=secs + 200)[0].decode(errors='replace')
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, rc = p.communicate()[0].decode(errors='replace'), -99
            se = ''.join(l for l in open(work + '/err_%d' % i, errors='replace') if "can't load a plugin" not in l)
            res['runs'].append({'seed': s, 'rc': rc, 'out': out, 'err': se[:6000], 'replay': rp if os.path.exists(rp) else None})
    except Exception:
        res['error'] = traceback.format_exc()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    conf = PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    outdir = VERIF + '/evidence'
    os.makedirs(outdir, exist_ok=True)
    rdir = VERIF + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    ures, hres = {}, {}
    violations, lines = [], []
    try:
        th = []
        if conf.get('units'):
            th.append(threading.Thread(target=run_units, args=(prop, conf, tier, work, ures)))
        if conf.get('harness'):
            th.append(threading.Thread(target=run_harness, args=(prop, conf, tier, seed, work, hres)))
        for t in th:
            t.start()
        for t in th:
            t.join()

        # ---- bounded stand-in: concrete failing inputs
        stats, concrete = {}, None
        for r in hres.get('runs', []):
            m = re.search(r'STATS (\{.*\})', r['out'])
            if r['rc'] == 0 and m:
                for k, v in json.loads(m.group(1)).items():
                    stats[k] = stats.get(k, 0) + v
            elif concrete is None or not concrete['replay']:
                concrete = r
        if concrete:
            rp = rdir + '/%s-input.json' % prop
            d = {}
            if concrete['replay']:
                try:
                    d = json.load(open(concrete['replay']))
                except ValueError:
                    d = {'raw': open(concrete['replay'], errors='replace').read()}
            else:
                d = {'property': prop, 'violation': 'the harness ended with status %s' % concrete['rc'], 'seed': concrete['seed']}
            d['output'] = concrete['out'][-2000:]
            d['sanitizer'] = concrete['err'][:5000]
            d['how_to_replay'] = 'python3 tools/replay.py %s %s' % (prop, rp)
            json.dump(d, open(rp, 'w'), indent=1)
            violations.append('VIOLATION property=%s replay=%s' % (prop, rp))
            lines.append('  failing input: %s' % str(d.get('violation'))[:400])

        # ---- obligations
        failed, total, ok, smt, units_info = [], 0, 0, 0, []
        for u in conf.get('units', []):
            r = ures.get(u)
            if r is None:
                failed.append((u, 'unit', 'the unit could not be built from the current source', ures.get('_error', 'no result')))
                continue
            fl = dict(r['failures'])
            guard = fl.pop('lemma vacuity_guard', None)
            ok += r['verified']
            total += r['verified'] + max(0, r['errors'] - (1 if guard else 0))
            if r['timed_out'] or r['broken']:
                failed.append((u, 'unit', 'the verifier gave no result for the unit' + (' (time limit)' if r['timed_out'] else ''), r['stderr']))
                total += 1
            else:
                for fn, msgs in fl.items():
                    failed.append((u, fn, 'an obligation of %s is not discharged' % fn, '\n\n'.join(msgs)))
                if not guard:
                    failed.append((u, 'vacuity guard', 'a false obligation was accepted', r['stderr']))
                if r['verified'] == 0:
                    failed.append((u, 'unit', 'no obligation was generated', r['stderr']))
            for fn, why in r['not_extracted'].items():
                failed.append((u, fn, 'the contract of %s could not be stated over the current source' % fn, why))
                total += 1
            js = r['json']
            tm = js.get('times-ms', {})
            st = tm.get('smt', {}).get('smt-run', 0) / 1000.0 if isinstance(tm.get('smt'), dict) else 0
            smt += st
            units_info.append({'unit': u, 'functions_from_repo': r['extracted'], 'helpers_inlined': r['inlined'], 'contracts_assumed_here': r.get('assumed', {}), 'verified': r['verified'], 'not_discharged': len(fl),
                               'solver_s': round(st, 2), 'wall_s': round(r['wall'], 2), 'translation_notes': r['notes'][:40]})
        if hres.get('build_error') or hres.get('error'):
            failed.append(('harness', 'build', 'the bounded stand-in could not be built against the current source', hres.get('build_error') or hres.get('error')))
        if failed:
            rp = rdir + '/%s-obligation.json' % prop
            json.dump({'property': prop, 'kind': 'failed-obligation',
                       'obligations': [{'unit': a, 'where': b, 'what': c, 'verifier_output': d[-6000:]} for a, b, c, d in failed],
                       'how_to_replay': 'python3 tools/check.py %s quick' % prop}, open(rp, 'w'), indent=1)
            for a, b, c, d in failed[:6]:
                lines.append('  %s / %s: %s' % (a, b, c))
            if not violations:
                violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))

        cov = {}
        if conf.get('units'):
            cov.update({'obligations': total, 'discharged': ok, 'checker_cmd': 'verus (Z3) on the text extracted from /repo by %s: python3 tools/check.py %s %s' % ('tools/throws.py' if conf['units'] == ['throws'] else 'tools/cxx2verus.py', prop, tier),
                        'trusted_base': (THROWS_TRUSTED if conf['units'] == ['throws'] else TRUSTED) + conf.get('trusted', []), 'units': units_info, 'solver_s': round(smt, 2),
                        'functions_under_contract': sorted({f for x in units_info for f in x['functions_from_repo']})})
        if conf.get('harness'):
            cov['bounded_stand_in'] = {'label': 'bounded, not counted as proved', 'what': conf.get('bounded', ''), 'cases': stats.get('cases', 0), 'counters': stats,
                                       'rule': 'seeded random cases against an executable reading of the same contracts, real code compiled with AddressSanitizer'}
            cov['evaluations'] = stats.get('cases', 0)
        cov['explanation'] = conf['explanation']
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': conf['level'], 'coverage': cov, 'assumptions': COMMON_ASSUMPTIONS + conf.get('assumptions', []),
              'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
        json.dump(ev, open(outdir + '/%s.json' % prop, 'w'), indent=1)
        print('%s %s: obligations %d, discharged %d; bounded cases %d; %.0f s' % (prop, tier, total, ok, stats.get('cases', 0), time.time() - T0))
        for l in lines:
            print(l)
        for v in violations[:1]:
            print(v)
        for p, k, txt in known():
            if p == prop:
                print('KNOWN-FINDING: property=%s %s' % (p, txt))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        prop = sys.argv[1]
        rp = VERIF + '/evidence/replay/%s-error.json' % prop
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({'property': prop, 'kind': 'failed-obligation', 'what': 'the check could not state its obligations', 'output': traceback.format_exc()}, open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
