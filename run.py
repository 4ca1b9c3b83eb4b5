#!/usr/bin/env python3
"""run.py setup | run.py check Cxx | run.py replay FILE

check: builds /repo's working tree, lets TLC generate sessions from the specification, replays them in the real library, has TLC
validate the recorded sessions against the specification, and reports the broken clauses that belong to the property."""
import json, os, shutil, subprocess, sys, tempfile, time
import concurrent.futures as cf
import vlib
from vlib import CheckError, build_driver, build_java, compile_session, describe, flag, generate, replay, tlc, validate
from props_table import HEAVY, PROPS

VERIF = vlib.VERIF
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def concerned(table, op, clause):
    for ops, clauses in table:
        if (ops == '*' or op in ops) and (clauses == '*' or clause in clauses):
            return True
    return False


def attended(table):
    """Operations whose contracts are of concern; empty: all"""
    if any(ops == '*' for ops, _ in table):
        return set()
    return set().union(*(ops for ops, _ in table))


def known_findings(prop):
    """known: property=C11 op=atan2 clause=halfturn | what fails"""
    out = []
    for l in open(FINDINGS):
        if l.startswith('known: '):
            head, what = l[7:].split('|', 1)
            kv = dict(f.split('=', 1) for f in head.split())
            if kv['property'] == prop:
                out.append((kv['op'], kv['clause'], what.strip()))
    return out


def models(work, prop, tier):
    """Design models that are checked exhaustively besides the implementation (name, config)."""
    out = []
    for m in PROPS[prop].get('models', []):
        cfg = m + ('-thorough' if tier == 'thorough' and os.path.exists(os.path.join(vlib.SPEC, m + '-thorough.cfg')) else '') + '.cfg'
        rc, txt, st = tlc(work, m, cfg, workers=4, timeout=700)
        if rc != 0:
            raise CheckError('model %s does not satisfy its invariants: %s' % (m, txt[-2000:]))
        out.append(dict(model=m, **st))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix='tsym-%s-' % prop)
    try:
        return check_in(work, prop, P, tier, seed, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(work, prop, P, tier, seed, t0):
    timing = {}
    build_java()
    jobs = []
    for f in P['families']:
        name, _, fl = f.partition(':')
        if name.endswith('!'):          # thorough only
            if tier != 'thorough':
                continue
            name = name[:-1]
        jobs.append((name, fl, dict(FAMILY=name, TIER=tier), 'Gen', 'Gen.cfg'))
    for r in P.get('random', []):
        profile, fl, nq, nt = r
        n = nt if tier == 'thorough' else nq
        jobs.append(('random-' + profile, fl, dict(PROFILE=profile, COUNT=str(n), SEED=str(seed)), 'Client', 'Client.cfg'))

    def gen(job):
        return generate(work, job[3], job[4], job[2])

    t = time.time()
    with cf.ThreadPoolExecutor(4) as ex:
        fut = ex.submit(build_driver)
        mfut = ex.submit(models, work, prop, tier)
        gens = list(ex.map(gen, jobs))
        exe, internals = fut.result()
        mods = mfut.result()
    timing['build+generate'] = round(time.time() - t, 1)

    progs, flags, rnd = [], {}, set()
    gst = dict(states=0, transitions=0)
    per = {}
    for job, (sess, st) in zip(jobs, gens):
        for k in gst:
            gst[k] += st[k]
        per[job[0]] = len(sess)
        for i, s in enumerate(sess):
            pid = '%s.%d' % (job[0], i)
            progs.append((pid, compile_session(s)))
            flags[pid] = job[1]
            if job[0].startswith('random-'):
                rnd.add(pid)
    if not progs:
        raise CheckError('nothing generated')
    text = dict(progs)

    t = time.time()
    lines = replay(work, exe, [p for p in progs if p[0] not in rnd], cpu=60)
    lines += replay(work, exe, [p for p in progs if p[0] in rnd], cpu=6)
    timing['replay'] = round(time.time() - t, 1)

    # programs that crashed or ran out of time: once more, alone, with more time
    unfinished, bad = 0, []
    kept = []
    for l in lines:
        if '"op":"crash"' not in l:
            kept.append(l)
            continue
        s = json.loads(l)
        e = s['ev'][-1]
        op = e['s'].split(' ')[0]
        hang = e['how'] == 'hang'
        if hang and s['id'] in rnd and op in HEAVY:
            unfinished += 1
            continue
        if not concerned(P['concern'], op, 'crash'):
            unfinished += 1
            continue
        if len(bad) < 3:
            again = replay(work, exe, [(s['id'], text[s['id']])], cpu=240 if hang else 60, par=1)
            if not again or '"op":"crash"' not in again[0]:
                if hang or e['how'] == 'kill':
                    unfinished += 1
                    kept += again
                    continue
        bad.append(dict(id=s['id'], at=0, op=op, clauses=['crash'], text='%s: %s' % (e['how'], e['s'])))

    t = time.time()
    fl = lambda l: flags[json.loads(l[:l.index(',"ev"')] + '}')['id']]
    lines = [flag(l, 'h' in fl(l), 'c' in fl(l), 'v' not in fl(l), attended(P['concern'])) for l in kept]
    viol, vst, strength = validate(work, lines)
    timing['validate'] = round(time.time() - t, 1)
    byid = {}
    if viol:
        for l in lines:
            byid[json.loads(l[:l.index(',"ev"')] + '}')['id']] = l
    other = 0
    for v in viol:
        cl = [c for c in v['clauses'] if concerned(P['concern'], v['op'], c)]
        other += len(v['clauses']) - len(cl)
        if cl:
            bad.append(dict(id=v['bad'], at=v['at'], op=v['op'], clauses=cl, text=describe(byid[v['bad']], v['at'])))

    known = known_findings(prop)
    seen, new = {}, []
    for b in bad:
        rest = []
        for c in b['clauses']:
            hit = [k for k in known if k[0] == b['op'] and k[1] == c]
            if hit:
                seen.setdefault(hit[0], b)
            else:
                rest.append(c)
        if rest:
            new.append(dict(b, clauses=rest))
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, k[2], ' (e.g. %s)' % seen[k]['text'] if k in seen else ''))

    nev = sum(l.count('"op":') for l in lines)
    samples = []
    for l in lines[:: max(1, len(lines) // 4)][:4]:
        s = json.loads(l)
        samples.append(dict(session=s['id'], calls=len(s['ev']), last=describe(l, len(s['ev']))[:300] if s['ev'] else ''))
    cov = dict(states=vst['states'] + gst['states'] + sum(m['states'] for m in mods),
               transitions=vst['transitions'] + gst['transitions'] + sum(m['transitions'] for m in mods),
               traces_validated_against_impl=len(lines), calls_validated=nev, sessions_per_family=per,
               values_exact_mod_p=strength['exact'], values_by_real_enclosure=strength['real'], values_undecided=strength['open'], calls_without_value=strength['none'],
               unfinished_sessions=unfinished, clauses_of_other_properties=other, models=mods, samples=samples, timing=timing, internals=internals)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(new),
                   assumptions=['the observed expressions are those the public API reports (operands, name, type, print)',
                                'values are compared at fixed sample points: exactly modulo a prime for rational expressions, by real enclosures otherwise']),
              open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d sessions, %d calls, %d states, %.0f s %s' % (prop, len(lines), nev, cov['states'], time.time() - t0, timing))
    if not new:
        return 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for b in new[:10]:
        print('  %s: %s [%s]' % (b['op'], b['text'][:600], ', '.join(b['clauses'])))
    b = min(new, key=lambda b: (len(text[b['id']]), b['id'], b['at']))
    path = os.path.join(rdir, '%s.txt' % prop)
    with open(path, 'w') as f:
        f.write('# %s, broken: %s\n# %s\n# run.py replay %s\n#flags %s\n' % (prop, ', '.join(b['clauses']), b['text'].replace('\n', ' ')[:2000], path, flags[b['id']]))
        f.write('\n'.join(text[b['id']]) + '\n')
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def do_replay(path):
    lines = open(path).read().splitlines()
    fl = next((l[7:] for l in lines if l.startswith('#flags')), '')
    prog = [l for l in lines if l and not l.startswith('#')]
    work = tempfile.mkdtemp(prefix='tsym-replay-')
    try:
        exe, _ = build_driver()
        out = replay(work, exe, [('0', prog)], cpu=240, par=1)
        s = json.loads(out[0])
        for i in range(len(s['ev'])):
            print(describe(out[0], i + 1))
        v, _, _ = validate(work, [flag(l, 'h' in fl, 'c' in fl, 'v' not in fl) for l in out])
        for x in v:
            print('BROKEN at call %d (%s): %s' % (x['at'], x['op'], ', '.join(x['clauses'])))
        return 1 if v else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == 'setup':
            build_java()
            build_driver()
            return 0
        if sys.argv[1] == 'replay':
            return do_replay(sys.argv[2])
        if sys.argv[1] == 'check':
            vlib.prune_cache()
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--thorough' in sys.argv:
                tier = 'thorough'
            return check(sys.argv[2], tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2
    return 2


if __name__ == '__main__':
    sys.exit(main())
