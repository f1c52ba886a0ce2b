#!/usr/bin/env python3-vt
"""Decides one property on the current tree of /repo.

usage: check.py <property id>     exit 0 held, 1 violated, 2 no answer
       check.py --replay <file>   run the failing input of a replay file again"""
import atexit, sys, os, time, json, re, threading, importlib, traceback, subprocess
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'specs'))
import build, bounded
import registry

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
EV = os.path.join(VERIF, 'evidence')

TRUSTED = [
    'clang 18 (source to LLVM IR; the tests run code compiled by g++ from the same source)',
    'z3 5.3.2',
    'the verification condition generator in /verif/engine',
]


HUNG = []


def known(pid):
    try:
        k = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except OSError:
        return []
    return [f for f in k.get('findings', []) if f['property'] == pid]


def run_proof(pid, cfg, out, bd):
    try:
        import prove
        mods = [(importlib.import_module(m), f) for m, f in cfg['proof']]
        srcs, tus = [], ['offsets.cpp']
        for m, _ in mods:
            srcs += [s for s in m.SRCS if s not in srcs]
            tus += [t for t in getattr(m, 'TUS', []) if t not in tus]
        P = prove.Prover(srcs, TIER, tuple(tus))
        P.pid = pid
        P.opts['focus'] = cfg.get('focus')
        if TIER == 'quick':
            t0 = time.time()
            P.deadline = t0 + 540

            def enough():
                # a failing execution decides; the obligations are only looked at for so long then
                if time.time() - t0 > 150 and unexpected(pid, bd.get('res', [])):
                    return 'a failing execution was found'
                if time.time() - t0 > 300 and failures(pid, P):
                    return 'an obligation of another function fails'
            P.enough = enough
        out['P'] = P
        for m, f in mods:
            getattr(m, f)(P)
        if TIER == 'thorough':
            P.second_opinion()
        out['verdict'] = P.verdict()
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
        out['verdict'] = 'undecided'


def run_bounded(pid, cfg, out):
    try:
        res = []
        sec = 25 if TIER == 'quick' else 120
        for h in cfg.get('harness', []):
            name, instr, pat = h[:3]
            opts = h[3] if len(h) > 3 else {}
            b = bounded.build_harness(name, instr, **opts)
            res += [(b, o) for o in bounded.explore(b, pat, opts.get('sec', sec), 0 if TIER == 'quick' else 1)]
        out['res'] = res
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()


def unexpected(pid, outcomes):
    return [o for b, o in outcomes if o.status == 'fail' and not any(
        f.get('scenario') == o.scn and re.search(f.get('message', '.*'), o.msg) for f in known(pid))]


def failures(pid, P):
    return [o for r in P.results if r.status == 'failed' for o in r.fails if not any(
        f.get('function') == r.name and re.search(f.get('obligation', '$^'), o.label) for f in known(pid))]


def write_replay(pid, text):
    d = os.path.join(EV, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.txt')
    open(p, 'w').write(text)
    return p


def main(pid):
    t0 = time.time()
    cfg = registry.PROPS[pid]
    pf, bd = {}, {}
    th = threading.Thread(target=run_bounded, args=(pid, cfg, bd))
    th.start()
    if cfg.get('proof'):
        # the solver does not always keep to the time it was given
        pt = threading.Thread(target=run_proof, args=(pid, cfg, pf, bd), daemon=True)
        threading.stack_size(512 << 20)
        pt.start()
        threading.stack_size(0)
        pt.join(660 if TIER == 'quick' else None)
        if pt.is_alive():
            HUNG.append(pid)
            pf['error'] = 'the proof did not end in time'
            pf['verdict'] = 'undecided'
    th.join()
    P = pf.get('P')
    findings = known(pid)
    used = set()
    outcomes = bd.get('res', [])
    lines = []

    # 1. a failing input on the real code
    viol = []
    errors = []
    for b, o in outcomes:
        if o.status == 'fail':
            kf = [f for f in findings if f.get('scenario') == o.scn and re.search(f.get('message', '.*'), o.msg)]
            if kf:
                used.add(id(kf[0]))
                lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['text']))
            else:
                viol.append(o)
        elif o.status == 'error':
            errors.append(o.text)
    if bd.get('error'):
        errors.append(bd['error'])

    # 2. obligations
    failed = []
    undecided = []
    if cfg.get('proof'):
        if pf.get('error'):
            undecided.append(pf['error'])
        for r in (P.results if P else []):
            if r.status == 'failed':
                left = []
                for o in r.fails:
                    kf = [f for f in findings if f.get('function') == r.name and re.search(f.get('obligation', '$^'), o.label)]
                    if kf:
                        if id(kf[0]) not in used:
                            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['text']))
                        used.add(id(kf[0]))
                    else:
                        left.append(o)
                if left:
                    failed.append((r, left))
            elif r.status != 'proved':
                undecided.append('%s: %s %s' % (r.name, r.status, r.note))
    only = cfg.get('labels')
    report(pid, cfg, P, pf, outcomes, viol, failed, undecided, errors, t0)
    for l in sorted(set(lines)):
        print(l)
    if viol:
        o = viol[0]
        ob = ['%s: %s (%s)' % (r.name, x.label, x.where) for r, xs in failed for x in xs]
        txt = 'property %s\nharness %s\nscenario %s\nchoices %s\nwhat failed: %s\n\nrun again: python3-vt %s --replay <this file>\n\n%s\n' % (
            pid, harness_of(cfg, o.scn), o.scn, o.choices, o.msg, os.path.join(VERIF, 'check.py'), o.text)
        if ob:
            txt += '\nobligations that fail:\n  ' + '\n  '.join(ob) + '\n'
        p = write_replay(pid, txt)
        print('%s: %s' % (o.scn, o.msg))
        for x in ob:
            print('failed obligation: ' + x)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if failed:
        txt = 'property %s\nno failing input was found by the bounded search; the obligations below do not hold.\n\n' % pid
        for r, xs in failed:
            txt += 'function %s (%s)\n' % (r.name, r.note)
            for x in xs:
                txt += '  obligation: %s\n  at %s\n  status %s\n  path %s\n  counter-model:\n%s\n\n' % (x.label, x.where, x.status, ' '.join(map(str, x.path)), show_model(x.model))
                print('failed obligation: %s: %s (%s)' % (r.name, x.label, x.where))
        p = write_replay(pid, txt)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        return 1
    for u in undecided:
        print('undecided: ' + u)
    for e in errors:
        print('error: ' + e)
    if cfg.get('proof') and not undecided:
        print('%s holds: %d obligations in %d functions discharged' % (pid, sum(o.status == 'proved' for r in P.results for o in r.obligs), len(P.results)))
        return 0
    if errors or not outcomes:
        return 2
    print('%s: bounded check only (%d executions), no violation' % (pid, sum(o.executions for b, o in outcomes)))
    return 0


def harness_of(cfg, scn):
    for h in cfg.get('harness', []):
        if re.fullmatch(h[2], scn):
            return h[0]
    return '?'


def show_model(m):
    if m is None or HUNG:
        return '    (none)'
    out = []
    for d in m.decls()[:60]:
        out.append('    %s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:200]))
    return '\n'.join(out)


def report(pid, cfg, P, pf, outcomes, viol, failed, undecided, errors, t0):
    os.makedirs(EV, exist_ok=True)
    nex = sum(o.executions for b, o in outcomes)
    bnd = {
        'label': 'bounded', 'scenarios': [o.text.strip()[:300] for b, o in outcomes], 'executions': nex,
        'bound': 'schedules that deviate from round robin at most the stated number of times'}
    proved = bool(cfg.get('proof')) and not undecided and not failed and P is not None
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(failed)}
    if cfg.get('proof') and P is not None:
        obs = [(r, o) for r in P.results for o in r.obligs]
        by = {}
        for r, o in obs:
            if o.status == 'proved':
                by[o.backend] = by.get(o.backend, 0) + 1
        ev['level'] = 'proof' if proved or failed or viol else 'exploration'
        ev['coverage'] = {
            'obligations': len(obs), 'discharged': sum(o.status == 'proved' for r, o in obs),
            'checker_cmd': 'python3-vt check.py ' + pid,
            'trusted_base': TRUSTED + sorted('model: ' + m for m in P.used_models),
            'functions_under_contract': [{'function': r.name, 'status': r.status, 'obligations': len(r.obligs), 'note': r.note,
                                          'covers': {k: bool(v) for k, v in (r.covers or {}).items()} if isinstance(r.covers, dict) else {},
                                          'seconds': round(r.wall, 2)} for r in P.results],
            'functions_executed_from_source': len(P.used_funcs),
            'discharged_by': by, 'solver_calls': P.nsolve, 'solver_seconds': round(P.tsolve, 2),
            'second_opinion': getattr(P, 'second', None),
            'undecided': undecided, 'bounded_companion': bnd}
        if ev['level'] == 'exploration':
            ev['coverage'].update(evaluations=nex, distinct_nontrivial=nex, rule=bnd['bound'], samples=bnd['scenarios'][:3])
        ev['assumptions'] = sorted(P.assumptions) + cfg.get('assumes', [])
    else:
        ev['level'] = cfg.get('level', 'exploration')
        ev['coverage'] = {'evaluations': nex, 'distinct_nontrivial': nex, 'rule': bnd['bound'] + '; every execution is a different schedule',
                          'samples': bnd['scenarios'][:5], 'undecided': undecided, 'errors': errors}
        ev['assumptions'] = cfg.get('assumes', [])
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)


def replay(path):
    t = open(path).read()
    g = lambda k: re.search(r'^%s (.*)$' % k, t, re.M).group(1)
    pid = g('property')
    cfg = registry.PROPS[pid]
    h = [h for h in cfg['harness'] if h[0] == g('harness')][0]
    b = bounded.build_harness(h[0], h[1], **(h[3] if len(h) > 3 else {}))
    return subprocess.run([b, '--scn', g('scenario'), '--replay', g('choices')]).returncode


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            rc = replay(sys.argv[2])
        else:
            rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    atexit._run_exitfuncs()
    os._exit(rc)
