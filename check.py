#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough, VERIF_SEED)

The library sources are compiled to LLVM IR (never run), the analyser gsa works
on the IR, and the verdict is assembled from its reports.
exit 0: holds; exit 1: VIOLATION line printed; exit 2: no verdict.
"""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('GSA_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = 650 if TIER == 'quick' else 3000
BUILD = os.path.join(HERE, '.build')
SPEC = os.path.join(HERE, 'spec', 'ucd')


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = sh(['make', '-C', os.path.join(HERE, 'gsa'), 'OUT=' + BUILD, '-j8'])
        if r.returncode:
            raise NoVerdict('the analyser does not build:\n' + r.stdout[-3000:])
    return os.path.join(BUILD, 'gsa')


def build_ir(out, harness=None):
    cmd = ['bash', os.path.join(HERE, 'tools', 'buildir.sh'), REPO, out]
    if harness:
        cmd.append(os.path.join(HERE, harness))
    r = sh(cmd)
    if r.returncode or not os.path.exists(os.path.join(out, 'lib.bc')):
        raise NoVerdict('/repo does not compile:\n' + r.stdout[-3000:])
    return os.path.join(out, 'lib.bc')


def run_gsa(gsa, ir, args, modes, limit, grace, stop):
    """The modes are equally sound ways to treat passed text and to order the search; the first answer decides."""
    t0 = time.time()
    ps = []
    for m in modes:
        mode, order = m.split(':')
        env = dict(os.environ, GSA_MODE=mode, GSA_ORDER=order, GSA_LIMIT=str(limit - 15), GSA_GRACE=str(grace))
        out = tempfile.TemporaryFile('w+')
        err = tempfile.TemporaryFile('w+')
        ps.append((m, subprocess.Popen([gsa, ir, SPEC] + args, stdout=out, stderr=err, env=env), out, err))
    res = {}
    try:
        while len(res) < len(ps):
            for m, p, out, err in ps:
                if m in res or p.poll() is None:
                    continue
                out.seek(0)
                try:
                    r = json.load(out)
                except ValueError:
                    err.seek(0)
                    r = dict(job=args[0], error='analyser failed (%d): %s' % (p.returncode, err.read()[-400:]), violations=[])
                r['mode'] = m
                r['args'] = args
                res[m] = r
                if not r['error'] or r['violations']:
                    return r
            if time.time() - t0 > limit or (stop and time.time() > stop[0]):
                break
            time.sleep(0.05)
    finally:
        for m, p, out, err in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    for m in modes:
        if m in res:
            return res[m]
    return dict(job=args[0], error='time limit', violations=[], mode=modes[0], args=args)


def known():
    res = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    for line in open(p):
        m = re.match(r'finding: property=(\S+) sig=(".*?") (.*)', line)
        if m:
            res.append((m.group(1), json.loads(m.group(2)), m.group(3).strip()))
    return res


def main():
    import props
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    tmp = tempfile.mkdtemp(prefix='gsa-')
    try:
        gsa = build_engine()
        ir = build_ir(os.path.join(tmp, 'ir'), P.get('harness'))
        jobs = P['jobs'](TIER) if callable(P['jobs']) else P['jobs']
        with cf.ThreadPoolExecutor(12) as ex:
            stop = []
            fs = [ex.submit(run_gsa, gsa, ir, j, (P['modes'](j) if callable(P.get('modes')) else P.get('modes', ['int:0', 'fn:2'])), LIMIT, P.get('grace', 20), stop) for j in jobs]
            for f in cf.as_completed(fs):
                # once the verdict is clear the other analyses get a short time to add to the report
                if not stop and P['decide']([g.result() for g in fs if g.done()]):
                    stop.append(time.time() + 20)
            res = [f.result() for f in fs]
    except NoVerdict as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = P['decide'](res)
    errs = [r for r in res if r['error']]
    # anchors: every job must have analysed something
    for r in res:
        if not r['error'] and r.get('obligations', 0) + r.get('sites', 0) <= 0:
            r['error'] = 'nothing was analysed'
            errs.append(r)
    kn = [(s, t) for (p, s, t) in known() if p == pid]
    fresh, hit = [], set()
    for v in viol:
        for s, t in kn:
            if v['sig'] == s:
                hit.add((s, t))
                break
        else:
            fresh.append(v)
    ob = sum(r.get('obligations', 0) for r in res)
    cov = dict(
        obligations=ob, discharged=max(0, ob - len(viol)),
        checker_cmd='python3 check.py ' + pid,
        trusted_base=P['trusted'],
        rule=P['rule'],
        functions=sorted({f for r in res for f in r.get('functions', [])}),
        analyses=[dict(job=' '.join(r['args']), mode=r['mode'], error=r['error'],
                       **{k: r[k] for k in ('states', 'transitions', 'paths', 'instructions', 'decisions', 'obligations',
                                            'blocks', 'sites', 'seconds', 'scenarios', 'detail') if k in r}) for r in res])
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P.get('level', 'proof'),
              coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for s, t in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if fresh:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(fresh, f, indent=1)
        for v in fresh[:10]:
            print('%s: %s: %s\n    %s' % (v['where'], v['kind'], v['msg'], v['trace'][:600]))
        if len(fresh) > 10:
            print('... and %d more' % (len(fresh) - 10))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        for r in errs:
            print('ERROR property=%s %s: %s' % (pid, ' '.join(r['args']), r['error']))
        return 2
    print('property %s holds: %d obligations in %d analyses, %.1f s' % (pid, ob, len(res), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
