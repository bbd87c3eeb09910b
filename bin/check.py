#!/usr/bin/env python3
"""Runs the check of one property.  See DESIGN.md, 'How a check runs'.

  check.py PROPERTY            quick or thorough by VERIF_TIER
  check.py PROPERTY --case N   re-run one driver case of the conformance part
  check.py --setup             self-test of the framework (setup_cmd)
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8
BASE_FLAGS = ['-std=c++14', '-O1', '-w', '-pthread']

sys.path.insert(0, os.path.join(VERIF, 'bin'))


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, errors='replace', **kw)


class Build:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(NPROC)

    def java(self):
        d = os.path.join(self.work, 'java')
        os.makedirs(d, exist_ok=True)
        r = run(['javac', '-cp', CP, '-d', d] + sorted(glob.glob(VERIF + '/java/*.java')))
        if r.returncode:
            raise CheckError('javac failed\n' + r.stdout)
        return d

    def driver(self, name, extra=(), tag='', lib=True, cxx='g++', ldextra=()):
        """Compiles /repo's library sources and one driver; returns the program."""
        out = os.path.join(self.work, 'drv_%s%s' % (name, tag))
        inc = ['-I', REPO + '/include', '-I', VERIF + '/drivers']
        flags = BASE_FLAGS + [x.replace('{REPO}', REPO) for x in extra]
        srcs = [VERIF + '/drivers/%s.cpp' % name]
        if lib:
            srcs += sorted(glob.glob(REPO + '/src/walnut/*.cpp'))
        objs, jobs = [], []
        odir = os.path.join(self.work, 'obj_%s%s' % (name, tag))
        os.makedirs(odir, exist_ok=True)
        for s in srcs:
            o = os.path.join(odir, os.path.basename(s) + '.o')
            objs.append(o)
            jobs.append(self.pool.submit(run, [cxx] + flags + inc + ['-c', s, '-o', o]))
        for s, j in zip(srcs, jobs):
            r = j.result()
            if r.returncode:
                raise CheckError('cannot compile %s\n%s' % (s, r.stdout[-6000:]))
        r = run([cxx] + flags + objs + ['-o', out] + list(ldextra))
        if r.returncode:
            raise CheckError('cannot link %s\n%s' % (name, r.stdout[-6000:]))
        return out


def run_driver(prog, work, tag, seed, cases, tier, extra=(), only=None, cpu=20):
    """Runs the driver over its cases in parallel shards and joins the logs."""
    n = 1 if only is not None else NPROC
    procs, outs = [], []
    for i in range(n):
        out = os.path.join(work, 'log_%s_%d' % (tag, i))
        err = open(out + '.err', 'w')
        outs.append(out)
        cmd = [prog, '--seed', str(seed), '--cases', str(cases), '--tier', tier,
               '--shard', str(i), '--nshards', str(n), '--out', out, '--cpu', str(cpu)] + list(extra)
        if only is not None:
            cmd += ['--case', str(only)]
        procs.append((subprocess.Popen(cmd, stdout=err, stderr=err, cwd=work,
                                       env=dict(os.environ, MALLOC_PERTURB_='165')), err))
    for p, err in procs:
        rc = p.wait()
        err.close()
        if rc:
            raise CheckError('driver %s ended with %d\n%s' % (prog, rc, open(err.name).read()[-3000:]))
    cases_out = {}
    pending = {}
    for out in outs:
        with open(out, errors='replace') as f:
            for line in f:
                kind, cid, j = line.rstrip('\n').split(' ', 2)
                cid = int(cid)
                if kind == 'C':
                    cases_out[cid] = []
                elif kind == 'P':
                    pending[cid] = j
                elif kind == 'E':
                    cases_out[cid].append(j)
                    pending.pop(cid, None)
                elif kind == 'X':
                    what = json.loads(j)
                    ev = {'op': 'CRASH', 'how': what['how'],
                          'during': pending.get(cid, '')}
                    cases_out.setdefault(cid, []).append(json.dumps(ev))
        os.unlink(out)
    return cases_out


def write_cases(cases, path):
    n = 0
    with open(path, 'w') as f:
        for cid in sorted(cases):
            f.write('{"id":%d,"ev":[%s]}\n' % (cid, ','.join(cases[cid])))
            n += len(cases[cid])
    return n


class TLC:
    def __init__(self, javadir, work):
        self.javadir, self.work = javadir, work

    def run(self, module, cfg, env=None, workers=NPROC, heap='6g', extra=(), timeout=None, tag=''):
        """Returns (status, output, stats): status ok | violation | error."""
        md = tempfile.mkdtemp(prefix='tlc', dir=self.work)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-cp', self.javadir + ':' + CP, 'tlc2.TLC', '-noTE', '-workers', str(workers),
               '-metadir', md, '-config', os.path.join(VERIF, 'spec', cfg)] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'error', 'TLC timed out', {}
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        stats = {}
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left', out)
        if m:
            stats = {'generated': int(m[-1][0].replace(',', '')),
                     'distinct': int(m[-1][1].replace(',', '')),
                     'left': int(m[-1][2].replace(',', ''))}
        if r.returncode == 0 and 'No error has been found' in out and stats.get('left', 1) == 0:
            return 'ok', out, stats
        # 11 deadlock, 12 safety violation, 13 liveness, 10 assumption
        if r.returncode in (10, 11, 12, 13):
            return 'violation', out, stats
        return 'error', 'TLC exit %d\n%s' % (r.returncode, out[-6000:]), stats


def trace_counter(out):
    """case id and event index of the last state TLC printed."""
    c = re.findall(r'/\\ c = (\d+)', out)
    l = re.findall(r'/\\ l = (\d+)', out)
    return (int(c[-1]) if c else None, int(l[-1]) if l else None)


def load_known(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def validate(tlc, work, part, cases, seed, tag):
    """Trace validation of cases.  Returns list of rejected (case, event index)
    and statistics."""
    rejected = []
    cases = dict(cases)
    stats = {'generated': 0, 'distinct': 0}
    nev = 0
    total_cases = len(cases)
    path = os.path.join(work, 'trace_%s.ndjson' % tag)
    nev = write_cases(cases, path)
    env = {'VT_TRACE': path}
    st, out, s = tlc.run(part['spec'], part['cfg'], env=env, heap=part.get('heap', '8g'),
                         timeout=part.get('tlc_timeout'))
    if st == 'error':
        raise CheckError('trace validation of %s: %s' % (tag, out))
    if st == 'ok':
        expect = nev + total_cases
        if s['distinct'] < expect:
            raise CheckError('trace %s: %d distinct states for %d events of %d cases' %
                             (tag, s['distinct'], nev, total_cases))
    return st, out, s, nev, path


def op_counts(cases):
    ops = {}
    for evs in cases.values():
        for j in evs:
            m = re.search(r'"op":"([^"]*)"', j)
            k = m.group(1) if m else '?'
            ops[k] = ops.get(k, 0) + 1
    return ops


def main():
    from props import PROPS
    if sys.argv[1] == '--setup':
        return setup()
    prop = sys.argv[1]
    only = None
    if '--case' in sys.argv:
        only = int(sys.argv[sys.argv.index('--case') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.build'))
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    violations = []
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
           'samples': [], 'models': {}, 'parts': {}}
    try:
        b = Build(work)
        jd = b.java()
        tlc = TLC(jd, work)
        parts = P['parts']
        # start compiling while the models are checked
        progs = {}
        with cf.ThreadPoolExecutor(4) as ex:
            for p in parts:
                key = (p['driver'], p.get('tag', ''))
                if key not in progs:
                    progs[key] = ex.submit(b.driver, p['driver'], p.get('flags', ()), p.get('tag', ''),
                                           p.get('lib', True), p.get('cxx', 'g++'), p.get('ldextra', ()))
            gens = {}
            for m in P.get('models', []):
                if m.get('tier') == 'thorough' and tier != 'thorough':
                    continue
                env = dict(m.get('env', {}))
                if m.get('emit'):
                    env['VT_OUT'] = os.path.join(work, m['emit'])
                    gens[m['emit']] = env['VT_OUT']
                cfg = m['thorough_cfg'] if tier == 'thorough' and 'thorough_cfg' in m else m['cfg']
                st, out, s = tlc.run(m['spec'], cfg, env=env,
                                     workers=m.get('workers', NPROC), timeout=m.get('timeout', 3000))
                if st != 'ok':
                    raise CheckError('model %s/%s: %s\n%s' % (m['spec'], cfg, st, out[-5000:]))
                cov['models'][m['spec'] + '/' + cfg] = {'states': s['distinct'], 'transitions': s['generated']}
                cov['states'] += s['distinct']
                cov['transitions'] += s['generated']
                if m.get('emit_prefix'):
                    # scripts printed by the model, one per line
                    path = os.path.join(work, m['scripts'])
                    n = 0
                    with open(path, 'w') as f:
                        seen = set()
                        for line in out.splitlines():
                            line = line.strip().strip('"')
                            if line.startswith(m['emit_prefix']):
                                x = line[len(m['emit_prefix']):].strip()
                                if x not in seen:
                                    seen.add(x)
                                    f.write(x + '\n')
                                    n += 1
                    cov['models'][m['spec'] + '/' + cfg]['scripts'] = n
                    gens[m['scripts']] = (path, n)
            progs = {k: f.result() for k, f in progs.items()}
        for i, p in enumerate(parts):
            tag = p.get('name', p['driver'])
            if p.get('tier') == 'thorough' and tier != 'thorough':
                continue
            prog = progs[(p['driver'], p.get('tag', ''))]
            ncases = p['thorough'] if tier == 'thorough' else p['quick']
            extra = ['--mode', p['mode']] if p.get('mode') else []
            if p.get('scripts'):
                path, n = gens[p['scripts']]
                extra += ['--scripts', path]
                ncases = n
            cases = run_driver(prog, work, tag, seed, ncases, tier, extra, only, p.get('cpu', 20))
            st, out, s, nev, tpath = validate(tlc, work, p, cases, seed, tag)
            if st == 'violation':
                c, l = trace_counter(out)
                ids = sorted(cases)
                cid = ids[c - 1] if c else None
                # Run the case again: a repeatable rejection is the usual outcome; one
                # that does not repeat (behaviour that depends on addresses) still is a
                # recorded execution of the real code that the specification rejects.
                repeats = False
                for attempt in range(3):
                    again = run_driver(prog, work, tag + '_re', seed, ncases, tier, extra,
                                       cid, p.get('cpu', 20)) if cid is not None else cases
                    st2, out2, _, _, rpath = validate(tlc, work, p, again, seed, tag + '_re')
                    if st2 == 'violation':
                        repeats = True
                        break
                if not repeats and cid is not None and '"CRASH"' in cases[cid][-1] and 'signal 24' in cases[cid][-1]:
                    raise CheckError('case %s of %s ran out of processor time once' % (cid, tag))
                rp = os.path.join(replay_dir, '%s-%s.json' % (prop, tag))
                evs = cases[cid] if cid is not None else []
                with open(rp, 'w') as f:
                    json.dump({'property': prop, 'part': tag, 'seed': seed, 'case': cid,
                               'event': l, 'spec': p['spec'], 'cfg': p['cfg'],
                               'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s --case %s' % (
                                   seed, tier, prop, cid),
                               'repeats': repeats, 'events': [json.loads(e) for e in evs],
                               'tlc': out[-8000:]}, f, indent=1)
                violations.append((tag, cid, l, rp))
                if l and evs and l <= len(evs):
                    print('rejected: part %s case %s event %s: %s' % (tag, cid, l, evs[l - 1][:1500]))
                break
            cov['states'] += s['distinct']
            cov['transitions'] += s['generated']
            cov['traces_validated_against_impl'] += len(cases)
            ops = op_counts(cases)
            cov['parts'][tag] = {'cases': len(cases), 'events': nev, 'ops': ops}
            for need, least in p.get('require', {}).items():
                if only is None and ops.get(need, 0) < least:
                    raise CheckError('part %s is vacuous: %d events of %s' % (tag, ops.get(need, 0), need))
            k = sorted(cases)[len(cases) // 2]
            cov['samples'].append({'part': tag, 'case': k,
                                   'events': [e[:400] for e in cases[k][:6]]})
        for cid, what in load_known(prop):
            print('KNOWN-FINDING: property=%s %s %s' % (prop, cid, what))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
              'coverage': cov, 'assumptions': P.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        if only is None:
            with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        for tag, cid, l, rp in violations:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        if not violations:
            print('OK %s: %d traces, %d states, %.1fs' % (
                prop, cov['traces_validated_against_impl'], cov['states'], time.time() - t0))
        return 1 if violations else 0
    finally:
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def setup():
    os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='setup-', dir=os.path.join(VERIF, '.build'))
    try:
        b = Build(work)
        jd = b.java()
        # The Java overrides of Z must agree with its TLA+ definitions.
        outs = []
        for d in (jd, work):
            r = run(['java', '-cp', d + ':' + CP, 'tlc2.TLC', '-noTE', '-metadir', os.path.join(work, 'md'),
                     '-config', VERIF + '/spec/ZCheck.cfg', 'ZCheck.tla'], cwd=VERIF + '/spec')
            outs.append([x for x in r.stdout.splitlines() if x.startswith('<<')])
        if not outs[0] or outs[0] != outs[1]:
            print('the Z overrides differ from the TLA+ definitions')
            return 1
        print('setup ok: Z overrides agree with their definitions on %d rows' % len(outs[0]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR:', e)
        sys.exit(2)
