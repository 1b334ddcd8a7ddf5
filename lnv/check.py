#!/usr/bin/env python3-vt
"""Decides one property: verifies every contract of the property (and of the callees whose contracts it uses) on
/repo's current sources, replays failed obligations on the compiled code, writes evidence.

  check.py C05 [--tier quick|thorough]      exit 0 held / 1 VIOLATION / 2 no answer
  check.py --replay FILE                    run a recorded failing input again"""
import sys, os, time, json, random, argparse, traceback, resource, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import multiprocessing as mp
from multiprocessing.connection import wait as mpwait
from fractions import Fraction

VERIF = os.path.dirname(HERE)
BUILD = os.environ.get('LNV_BUILD', VERIF + '/build')


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed

    def load(self):
        import frontend, contracts.registry as R
        self.R = R
        if self.pid.startswith('re:'):          # development: contracts by regular expression
            self.prop = {'contracts': [n for n in R.REG if re.match(self.pid[3:] + '$', n)], 'support': [], 'dev': True}
            self.pid = 'dev%d' % os.getpid()
        else:
            self.prop = R.PROPS[self.pid]
        self.prog = frontend.Program()

    # ---------------------------------------------------------------- workers
    def worker(self, conn, exefile):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        import native, summaries
        from verify import verify_case, native_case, BothEnv, Skip, Violated, Interp
        from interp import Interp
        ips = {}
        ipf = None
        proc = None
        while True:
            try:
                task = conn.recv()
            except EOFError:
                break
            if task is None:
                break
            kind, cname, idx = task[0], task[1], task[2]
            c = self.R.REG[cname]
            case = self.cases[cname][idx]
            t = time.time()
            try:
                if kind == 'sym':
                    ip = ips.get(c.summaries)
                    if ip is None:
                        ip = ips[c.summaries] = Interp(self.prog, None, 'sym')
                        ip.summaries = dict(self.R.summaries(c.summaries))
                    o = verify_case(self.prog, ip, c, case, c.budget * (1 if self.tier == 'quick' else 4), c.max_paths, self.seed)
                    fnames = set()
                    for m in o.fns:
                        try:
                            u, n = self.prog.defs[m]
                            fnames.add(self.prog.qual(u, n))
                        except Exception:
                            fnames.add(str(m))
                    conn.send((kind, cname, idx, dict(obl=o.obl, failed=o.failed[:4], unknown=o.unknown[:4], nfail=len(o.failed), nunk=len(o.unknown), unsupported=o.unsupported,
                                                      paths=o.paths, ztime=o.ztime, fns=fnames, samples=o.samples, time=time.time() - t)))
                else:
                    if proc is None:
                        while not os.path.exists(exefile):
                            time.sleep(0.05)
                        exe = open(exefile).read()
                        proc = native.Proc(exe) if not exe.startswith('ERR') else False
                    if proc is False:
                        conn.send((kind, cname, idx, dict(runs=0, skip=0, bad=None, conf=0, mism=[], nobuild=True)))
                        continue
                    rng = random.Random('%s/%s/%d/%d' % (self.seed, cname, idx, task[3]))
                    n = task[3]
                    runs = skip = 0
                    bad = None
                    t1 = time.time()
                    for k in range(n):
                        r = native_case(self.prog, proc, c, case, rng, None, self.lits)
                        runs += 1
                        if r == 'skip':
                            skip += 1
                            if skip > 4 and skip == runs and runs >= 12:
                                break
                        elif r is not None:
                            bad = r
                            break
                        if time.time() - t1 > c.nat_budget:
                            break
                    conf, mism = 0, []
                    if task[4] and bad is None and not c.noconf:
                        if ipf is None:
                            ipf = Interp(self.prog, None, 'float')
                        E = BothEnv(self.prog, proc, rng, ipf)
                        try:
                            c.body(E, case)
                        except (Skip, Violated, ZeroDivisionError, OverflowError):
                            pass
                        except Exception as e:
                            E.mismatch.append((cname, 'interp: %s' % e))
                        conf, mism = E.compared, [jsonable(x) for x in E.mismatch[:2]]
                    conn.send((kind, cname, idx, dict(runs=runs, skip=skip, bad=bad, conf=conf, mism=mism)))
            except MemoryError:
                conn.send((kind, cname, idx, dict(error='memory limit')))
            except Exception as e:
                conn.send((kind, cname, idx, dict(error='%s: %s @%s' % (type(e).__name__, e, traceback.format_exc()[-300:]))))
        if proc:
            proc.close()

    def pool(self, tasks, exefile, deadline, nproc=int(os.environ.get('LNV_WORKERS', '8'))):
        """run tasks on forked workers, yields results; a worker over its limit is replaced and its task reported as unknown"""
        ctx = mp.get_context('fork')
        # concrete runs first as soon as the compiled code is there, so that a proof that runs long never displaces them
        symq = [t for t in reversed(tasks) if t[0] == 'sym']
        natq = [t for t in reversed(tasks) if t[0] != 'sym']
        ws = {}
        ready = [False]

        def left():
            return len(symq) + len(natq)

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=self.worker, args=(b, exefile), daemon=True)
            p.start()
            b.close()
            ws[a] = [p, None, 0.0, 0.0]

        def give(a):
            if not ready[0]:
                ready[0] = os.path.exists(exefile)
            if natq and (ready[0] or not symq):
                t = natq.pop()
            else:
                t = symq.pop() if symq else None
            if t is not None:
                ws[a][1] = t
                ws[a][2] = time.time()
                c = self.R.REG[t[1]]
                lim = c.budget * (1 if self.tier == 'quick' else 4) if t[0] == 'sym' else max(60, 4 * c.nat_budget)
                ws[a][3] = time.time() + lim * 1.5 + 15
                a.send(t)
            else:
                ws[a][1] = None
        for _ in range(min(nproc, max(1, left()))):
            spawn()
        for a in list(ws):
            give(a)
        while any(w[1] is not None for w in ws.values()):
            now = time.time()
            if now > min(deadline, self.hurry):
                for a, w in ws.items():
                    if w[1] is not None:
                        yield w[1][0], w[1][1], w[1][2], dict(error='overall time limit')
                for t in natq + symq:
                    yield t[0], t[1], t[2], dict(error='overall time limit')
                break
            busy = [a for a, w in ws.items() if w[1] is not None]
            for a in mpwait(busy, timeout=1.0):
                w = ws[a]
                try:
                    r = a.recv()
                except (EOFError, ConnectionResetError):
                    t = w[1]
                    del ws[a]
                    spawn()
                    give(list(ws)[-1])
                    yield t[0], t[1], t[2], dict(error='worker ended')
                    continue
                give(a)
                yield r
            for a, w in list(ws.items()):
                if w[1] is not None and time.time() > w[3]:
                    t = w[1]
                    w[0].kill()
                    del ws[a]
                    spawn()
                    give(list(ws)[-1])
                    yield t[0], t[1], t[2], dict(error='time limit of the case')
        for a, w in ws.items():
            w[0].kill()

    def collect_literals(self, names):
        """numeric literals in the classes under contract: candidates for the concrete search"""
        cl = {n.split('::')[0] for n in names}
        out = set()

        def walk(n):
            k = n.get('kind')
            if k in ('FloatingLiteral', 'IntegerLiteral') and 'value' in n:
                try:
                    v = float(n['value'])
                    if abs(v) < 1e6 and v not in (0.0, 1.0):
                        out.add(v)
                except ValueError:
                    pass
            for x in n.get('inner', ()):
                walk(x)
        for q, ms in self.prog.byqual.items():
            if q.split('::')[0] in cl:
                for m in ms:
                    walk(self.prog.defs[m][1])
        return sorted(out)

    # ---------------------------------------------------------------- main
    def run(self):
        t0 = time.time()
        self.load()
        R = self.R
        names = []
        for n in self.prop['contracts'] + list(self.prop.get('support', ())):
            if n not in names:
                names.append(n)
        # support contracts of the summaries used
        for n in list(names) if not self.prop.get('dev') else []:
            for s in R.support(R.REG[n].summaries):
                if s not in names:
                    names.append(s)
        import native
        os.makedirs(BUILD, exist_ok=True)
        exefile = BUILD + '/exe.%d' % os.getpid()
        ctx = mp.get_context('fork')

        def nb():
            try:
                e = native.build(self.prog, BUILD)
            except Exception as ex:
                e = 'ERR ' + str(ex)[-1500:]
            open(exefile + '.t', 'w').write(e)
            os.rename(exefile + '.t', exefile)
        bp = ctx.Process(target=nb)
        bp.start()
        fnset = {f.split('|')[0] for n in names for f in R.REG[n].fns}
        self.lits = self.collect_literals(fnset)
        self.cases = {}
        for n in names:
            self.cases[n] = R.REG[n].cases(self.tier, self.lits)
        sym, nat = [], []
        for n in names:
            c = R.REG[n]
            step = max(1, len(self.cases[n]) // 10)
            mult = 1 if self.tier == 'quick' else 8
            if n not in self.prop['contracts']:
                mult = 1
            nq = len(self.cases[n])
            if self.tier == 'quick':
                self.cases[n] = self.cases[n] + c.extra(self.lits, self.cases[n], random.Random('%s/%s' % (self.seed, n)), 24 if n in self.prop['contracts'] else 6)
            for i in range(len(self.cases[n])):
                if i >= nq:
                    nat.append(('nat', n, i, 2, False))
                    continue
                if not c.native_only:
                    sym.append((i / max(1, nq), ('sym', n, i)))
                nat.append(('nat', n, i, max(2, c.trials * mult), i % step == 0))
        sym.sort(key=lambda x: x[0])
        tasks = [x[1] for x in sym] + nat
        limit = float(os.environ.get('LNV_LIMIT', 420 if self.tier == 'quick' else 3000))
        S = {n: dict(cases=0, paths=0, obl={}, failed=[], unknown=[], unsup=[], fns=set(), runs=0, skip=0, bad=[], conf=0, mism=[], ztime=0.0, time=0.0, samples=[], err=[]) for n in names}
        nobuild = False
        self.hurry = float('inf')
        kf0 = self.known()
        for kind, n, idx, r in self.pool(tasks, exefile, t0 + limit):
            s = S[n]
            case = self.cases[n][idx]
            if 'error' in r:
                s['err'].append((kind, case, r['error']))
                continue
            if kind == 'sym':
                s['cases'] += 1
                s['paths'] += r['paths']
                s['ztime'] += r['ztime']
                s['time'] += r['time']
                for k, v in r['obl'].items():
                    s['obl'][k] = s['obl'].get(k, 0) + v
                if r['unsupported']:
                    s['unsup'].append((case, r['unsupported']))
                for f in r['failed']:
                    s['failed'].append((idx, f))
                s['unknown'] += [(idx, f) for f in r['unknown']]
                s['fns'] |= r['fns']
                if r['samples'] and len(s['samples']) < 2:
                    s['samples'].append({'case': jsonable(case), 'obligations': r['samples']})
            else:
                nobuild = nobuild or r.get('nobuild', False)
                s['runs'] += r['runs']
                s['skip'] += r['skip']
                s['conf'] += r['conf']
                s['mism'] += r['mism']
                if r['bad'] is not None:
                    s['bad'].append((idx, r['bad']))
                    # a violation replayed on the compiled code settles the verdict: the remaining proofs get two more minutes for the report
                    if self.tier == 'quick' and self.hurry == float('inf') and self.match_known(kf0, n, case, r['bad']['obligation']) is None:
                        self.hurry = time.time() + 120
        if self.prop.get('dev'):
            for n in names:
                s = S[n]
                print('%-14s cases %d paths %d obl %s FAILED %d unk %d unsup %d err %d  sym %.1fs | native %d skip %d BAD %d conf %d mism %d' % (
                    n, s['cases'], s['paths'], s['obl'], len(s['failed']), len(s['unknown']), len(s['unsup']), len(s['err']), s['time'], s['runs'], s['skip'], len(s['bad']), s['conf'], len(s['mism'])))
                for i, f in s['failed'][:int(os.environ.get('NF', 3))]:
                    print('     F', self.cases[n][i], f['obligation'], '--', str(f['detail'])[:200])
                for i, f in s['unknown'][:2]:
                    print('     ?', self.cases[n][i], f['obligation'], '--', str(f['detail'])[:200])
                for x in s['unsup'][:2] + s['err'][:2]:
                    print('     U', x)
                for i, b in s['bad'][:int(os.environ.get('NF', 3))]:
                    print('     N', self.cases[n][i], b['obligation'], '--', b['detail'][:200])
                for x in s['mism'][:2]:
                    print('     M', str(x)[:300])
            print('%.1fs' % (time.time() - t0))
            if not os.environ.get('FULL'):
                return 0
        bp.join()
        exe = open(exefile).read() if os.path.exists(exefile) else 'ERR'
        try:
            os.remove(exefile)
        except OSError:
            pass
        # ------------------------------------------------ verdict
        viol = []          # (contract, case, obligation, detail, draws|None, rec)
        kf = self.known()
        kfhit = {}
        proc = native.Proc(exe) if not exe.startswith('ERR') else None
        from verify import native_case
        rng = random.Random(self.seed)

        def add(n, idx, ob, det, rec, draws):
            k = self.match_known(kf, n, self.cases[n][idx], ob)
            if k is not None:
                kfhit[k] = (n, ob)
                return
            viol.append((n, self.cases[n][idx], ob, det, rec, draws))
        undecided = []
        for n in names:
            s = S[n]
            for idx, b in s['bad']:
                add(n, idx, b['obligation'], b['detail'], b, b['draws'])
            badidx = {i for i, _ in s['bad']}
            done = set()
            tsearch = time.time()
            for idx, f in s['failed']:
                if idx in badidx or idx in done:
                    continue
                done.add(idx)
                hit = None
                if proc is not None and not any(v[5] is not None for v in viol) and len(done) < 40 and time.time() - tsearch < 60:
                    for md in f.get('models') or []:
                        r = native_case(self.prog, proc, R.REG[n], self.cases[n][idx], rng, md, self.lits)
                        if isinstance(r, dict):
                            hit = r
                            break
                    if hit is None:
                        for _ in range(60):
                            r = native_case(self.prog, proc, R.REG[n], self.cases[n][idx], rng, None, self.lits)
                            if isinstance(r, dict):
                                hit = r
                                break
                if hit:
                    add(n, idx, hit['obligation'], hit['detail'], hit, hit['draws'])
                elif s['mism']:
                    undecided.append((n, self.cases[n][idx], f['obligation'], 'symbolic failure not believed: extraction does not conform (%s)' % s['mism'][0]))
                else:
                    add(n, idx, f['obligation'], f['detail'], f, None)
        if proc:
            proc.close()
        for n in names:
            for idx, f in S[n]['unknown']:
                undecided.append((n, self.cases[n][idx], f['obligation'], 'unknown: ' + str(f['detail'])[:160]))
            for cse, why in S[n]['unsup']:
                undecided.append((n, cse, '(case)', why[:200]))
            for kind, cse, why in S[n]['err']:
                undecided.append((n, cse, '(%s)' % kind, why[:300]))
        for k in sorted(kfhit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[k]['what']))
        rc = 0
        if viol:
            viol.sort(key=lambda v: v[5] is None)
            v = viol[0]
            path = self.write_replay(v, viol)
            rc = 1
            for w in viol[:6]:
                print('  failed obligation: contract %s, case %s: %s: %s' % (w[0], json.dumps(jsonable(w[1])), w[2], str(w[3])[:300]))
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if v[5] is not None else ' no-failing-input-found'))
        self.evidence(S, names, undecided, viol, kfhit, exe, time.time() - t0)
        nobl = sum(sum(S[n]['obl'].values()) for n in names)
        nrun = sum(S[n]['runs'] for n in names)
        if rc == 0 and nobl == 0 and nrun == 0:
            print('no answer: neither the verifier nor the compiled code could be run: %s' % (exe[:800] if exe.startswith('ERR') else undecided[:3]))
            rc = 2
        print('%s %s: %d obligations discharged, %d undecided items, %d concrete runs, %d violations, %.1fs' % (
            self.pid, self.tier, nobl, len(undecided), nrun, len(viol), time.time() - t0))
        return rc

    def known(self):
        try:
            d = json.load(open(VERIF + '/known_findings.json'))
        except OSError:
            return []
        return [k for k in d['findings'] if k['property'] == self.pid]

    def match_known(self, kf, cname, case, ob):
        for i, k in enumerate(kf):
            if k['contract'] == cname and all(jsonable(case).get(a) == b for a, b in k.get('case', {}).items()) and re.match(k['obligation'], ob):
                return i
        return None

    def write_replay(self, v, viol):
        n, case, ob, det, rec, draws = v
        d = VERIF + '/replay'
        os.makedirs(d, exist_ok=True)
        path = d + '/%s.json' % self.pid
        json.dump({'property': self.pid, 'contract': n, 'functions': self.R.REG[n].fns, 'case': jsonable(case), 'failed_obligation': ob,
                   'detail': str(det)[:2000], 'inputs': jsonable(draws),
                   'calls': jsonable((rec or {}).get('calls')), 'verifier_output': jsonable({k: (rec or {}).get(k) for k in ('backend', 'detail', 'models', 'path')}),
                   'how': 'python3-vt %s/check.py --replay %s' % (HERE, path),
                   'other_failures': [{'contract': w[0], 'case': jsonable(w[1]), 'obligation': w[2], 'detail': str(w[3])[:300]} for w in viol[1:10]]},
                  open(path, 'w'), indent=1)
        return path

    def evidence(self, S, names, undecided, viol, kfhit, exe, wall):
        R = self.R
        main = self.prop['contracts']
        be, fu, fi = {}, set(), set()
        per = {}
        for n in names:
            s, c = S[n], R.REG[n]
            for k, v in s['obl'].items():
                be[k] = be.get(k, 0) + v
            fu |= {f.split('|')[0] for f in c.fns}
            fi |= s['fns']
            per[n] = {'kind': ('native search only (bounded, not a proof)' if c.native_only else 'unbounded' if c.unbounded else 'bounded in shape (%s), for all real inputs' % (c.bound or 'the listed cases')),
                      'cases': s['cases'], 'paths': s['paths'], 'discharged': sum(s['obl'].values()), 'failed': len(s['failed']), 'unknown': len(s['unknown']),
                      'unsupported_cases': len(s['unsup']), 'concrete_runs': s['runs'], 'concrete_skipped': s['skip'], 'conformance_calls': s['conf'],
                      'conformance_mismatches': len(s['mism']), 'solver_s': round(s['ztime'], 2)}
            if c.note:
                per[n]['note'] = c.note
        nobl = sum(be.values())
        und = len(undecided)
        nf = sum(len(S[n]['failed']) for n in names)
        vac = [n for n in names if not R.REG[n].native_only and not S[n]['obl']]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.prop.get('level', 'other'),
              'coverage': {
                  'obligations': nobl + nf + sum(len(S[n]['unknown']) for n in names), 'discharged': nobl,
                  'discharged_by_backend': be,
                  'checker_cmd': 'python3-vt lnv/check.py %s --tier %s' % (self.pid, self.tier),
                  'trusted_base': R.TRUSTED,
                  'explanation': self.prop.get('explanation', R.EXPLAIN),
                  'functions_under_contract': sorted(fu), 'functions_executed_inline': sorted(fi - fu),
                  'contracts': per, 'undecided': [jsonable(u) for u in undecided[:20]], 'undecided_count': und,
                  'vacuous_contracts': vac,
                  'evaluations': sum(S[n]['runs'] for n in names), 'distinct_nontrivial': sum(S[n]['runs'] - S[n]['skip'] for n in names),
                  'rule': 'concrete replays of every contract case on the compiled library with random inputs drawn from the precondition (bounded, not a proof); non-trivial: precondition satisfied and all postconditions evaluated',
                  'samples': [x for n in main for x in S[n]['samples']][:8],
                  'solver_seconds': round(sum(S[n]['ztime'] for n in names), 2),
                  'native_build': 'ok' if not exe.startswith('ERR') else exe[:1500],
                  'source_sha256_16': self.prog.sha,
                  'known_findings': len(kfhit)},
              'assumptions': R.ASSUME + list(self.prop.get('assumptions', ())),
              'wall_s': round(wall, 2), 'violations': len(viol)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.pid, 'w'), indent=1)


def replay(path):
    import frontend, native, contracts.registry as R
    from verify import native_case
    d = json.load(open(path))
    prog = frontend.Program()
    exe = native.build(prog, BUILD)
    proc = native.Proc(exe)
    if not d['inputs']:
        print('no concrete input recorded; failed obligation:', d['failed_obligation'], d['detail'])
        return 1
    r = native_case(prog, proc, R.REG[d['contract']], d['case'], random.Random(1), d['inputs'])
    proc.close()
    if isinstance(r, dict):
        print('reproduced: %s: %s' % (r['obligation'], r['detail']))
        return 1
    print('not reproduced')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        rc = Runner(a.pid, a.tier, seed).run()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
