#!/usr/bin/env python3
"""Decides one property: run.py <property> [--tier quick|thorough].

Stages: build the harness from /repo's working tree, let TLC check the
specification and generate behaviours with what they must do, replay them into
the implementation, let TLC validate what the implementation recorded.
Exit 0: held on everything explored. Exit 1: VIOLATION. Anything else: no answer.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import checks  # noqa: E402


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HOME='/root')
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    return e


def build(crate, log):
    d = os.path.join(ROOT, crate)
    lock0 = open(os.path.join(d, 'Cargo.lock')).read() if os.path.exists(os.path.join(d, 'Cargo.lock')) else None
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(log, 'w').write(p.stdout)
    if lock0 is not None and open(os.path.join(d, 'Cargo.lock')).read() != lock0:
        open(os.path.join(d, 'Cargo.lock'), 'w').write(lock0)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise CheckError('the harness does not build against /repo')
    name = re.search(r'name = "([^"]+)"', open(os.path.join(d, 'Cargo.toml')).read()).group(1)
    return os.path.join(d, 'target', 'debug', name)


def cfg_text(spec, consts, invs, extra=''):
    def val(v):
        if isinstance(v, bool):
            return 'TRUE' if v else 'FALSE'
        if isinstance(v, (list, tuple, set)):
            return '{' + ', '.join(val(x) for x in v) + '}'
        if isinstance(v, str) and not v.startswith('<-'):
            return '"%s"' % v
        return str(v)
    lines = ['SPECIFICATION ' + spec]
    if consts:
        lines.append('CONSTANTS')
        for k, v in consts.items():
            lines.append('  %s %s' % (k, v) if isinstance(v, str) and v.startswith('<-') else '  %s = %s' % (k, val(v)))
    if invs:
        lines.append('INVARIANTS ' + ' '.join(invs))
    lines.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(lines) + '\n' + extra


def tlc(module, cfg, work, tag, args, envv, workers=1, heap='3g', timeout=840):
    """Run TLC; returns (ok, stats, output)."""
    cfgp = os.path.join(work, tag + '.cfg')
    open(cfgp, 'w').write(cfg)
    meta = os.path.join(work, tag + '.tlc')
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + work, '-cp', CP, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta, '-config', cfgp] + args + [os.path.join(SPEC, module + '.tla')]
    e = env()
    e.update(envv)
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    open(os.path.join(work, tag + '.out'), 'w').write(out)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    states = trans = 0
    if m:
        trans, states = (int(x.replace(',', '')) for x in m[-1])
    else:
        m = re.findall(r'The number of states generated: ([\d,]+)', out) or re.findall(r'Progress: ([\d,]+) states checked', out)
        if m:
            trans = states = int(m[-1].replace(',', ''))
    return rc, {'states': states, 'transitions': trans}, out


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = os.path.join(ROOT, 'work', '%s-%s' % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.trans = self.evals = self.nontrivial = self.vectors = self.traces = 0
        self.counts, self.samples, self.failures, self.stages = {}, [], [], []
        self.known = [k for k in load_known() if k['property'] == prop]
        self.known_hit = set()

    def gen(self, st, name):
        """TLC generates behaviours; returns vector files."""
        consts = dict(st['consts'])
        procs = st.get('procs', 8)
        sim = st.get('sim')
        jobs = []
        for p in range(procs):
            out = os.path.join(self.work, '%s-%d.jsonl' % (name, p))
            per = st.get('seeds', 1)
            lo = (self.seed * 1009 + p) * per
            envv = {'SVH_OUT': out, 'SVH_SEED_LO': str(lo), 'SVH_SEED_HI': str(lo + per - 1), 'SVH_PART': str(p), 'SVH_PARTS': str(procs)}
            args = []
            if sim:
                # many payload seeds, random behaviours
                envv['SVH_SEED_LO'], envv['SVH_SEED_HI'] = str(p * 4096), str(p * 4096 + 4095)
                args = ['-simulate', 'num=%d' % sim, '-depth', str(st.get('depth', 200)), '-seed', str(self.seed * 7717 + p * 31 + 1)]
            jobs.append((p, out, envv, args))

        def one(j):
            p, out, envv, args = j
            return out, tlc(st['module'], cfg_text(st.get('spec', 'Spec'), consts, st.get('invs', [])), self.work, '%s-%d' % (name, p), args, envv)
        files = []
        with ThreadPoolExecutor(min(8, procs)) as ex:
            for out, (rc, stats, text) in ex.map(one, jobs):
                if rc != 0:
                    sys.stderr.write(text[-4000:])
                    raise CheckError('TLC failed on %s (%s), exit %s' % (st['module'], name, rc))
                self.states += stats['states']
                self.trans += stats['transitions']
                if os.path.exists(out):
                    files.append(out)
        n = sum(sum(1 for _ in open(f)) for f in files)
        if n == 0:
            raise CheckError('TLC generated no behaviours for ' + name)
        self.stages.append({'stage': name, 'kind': 'generate', 'module': st['module'], 'mode': 'simulate' if sim else 'exhaustive', 'constants': {k: v for k, v in consts.items()}, 'invariants': st.get('invs', []), 'behaviours': n})
        return files

    def mc(self, st, name):
        rc, stats, text = tlc(st['module'], cfg_text(st.get('spec', 'Spec'), st.get('consts', {}), st.get('invs', []), st.get('extra', '')), self.work, name, st.get('args', []), st.get('env', {}), workers=8, heap='8g')
        if rc != 0:
            sys.stderr.write(text[-4000:])
            raise CheckError('TLC failed on %s (%s), exit %s' % (st['module'], name, rc))
        self.states += stats['states']
        self.trans += stats['transitions']
        self.stages.append({'stage': name, 'kind': 'model-check', 'module': st['module'], 'states': stats['states'], 'invariants': st.get('invs', [])})

    def replay(self, st, name, files):
        binary = build(st.get('crate', 'harness'), os.path.join(self.work, name + '.build.log'))
        res = os.path.join(self.work, name + '.result.json')
        try:
            p = subprocess.run([binary, st['mode'], res] + files, cwd=self.work, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=st.get('timeout', 500))
        except subprocess.TimeoutExpired:
            self.fail({'what': 'the code under test did not terminate', 'mode': st['mode'], 'files': files})
            return None
        if p.returncode < 0 or p.returncode == 134:
            self.fail({'what': 'the code under test ended the process (%d)' % p.returncode, 'mode': st['mode'], 'files': files, 'output': p.stdout[-2000:]})
            return None
        if p.returncode != 0 or not os.path.exists(res):
            sys.stderr.write(p.stdout[-4000:])
            raise CheckError('harness failed in mode ' + st['mode'])
        r = json.load(open(res))
        self.add(r, st['mode'], st.get('crate', 'harness'))
        self.stages.append({'stage': name, 'kind': 'replay', 'mode': st['mode'], 'vectors': r['vectors'], 'evaluations': r['evaluations']})
        for k, least in st.get('require', {}).items():
            if r['counts'].get(k, 0) < least and not r['failures']:
                raise CheckError('vacuous: %s covered %d times in %s' % (k, r['counts'].get(k, 0), name))
        return res

    def derive(self, files, crate='harness_derive', per=220):
        """Compile the generated declarations; run the accepted, insist that the others are refused."""
        import derive
        d = os.path.join(ROOT, crate)
        ok, bad = derive.load(files)
        bins = os.path.join(d, 'src', 'bin')
        shutil.rmtree(bins, ignore_errors=True)
        os.makedirs(bins)
        n = max(8, -(-len(ok) // per))
        parts = [ok[i::n] for i in range(n) if ok[i::n]]
        for i, p in enumerate(parts):
            open(os.path.join(bins, 'g%d.rs' % i), 'w').write(derive.accepted(p))
            open(os.path.join(self.work, 'g%d.jsonl' % i), 'w').writelines(json.dumps(x) + '\n' for x in p)

        def cargo(*args):
            return subprocess.run(['cargo'] + list(args) + ['--offline'], cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

        def lines(i, out):
            """Lines of program i that the compiler reports errors on."""
            got = {}
            for l in out.splitlines():
                m = json.loads(l) if l.startswith('{') else {}
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
                    continue
                for sp in m['message']['spans']:
                    while sp:
                        if sp['file_name'].endswith('bin/%s.rs' % i):
                            got.setdefault(sp['line_start'], m['message']['message'])
                        sp = (sp.get('expansion') or {}).get('span')
            return got
        p = cargo('build', '--lib')
        if p.returncode != 0:
            sys.stderr.write(p.stderr[-6000:])
            raise CheckError('the harness does not build against /repo')
        # accepted
        p = cargo('build', '--message-format=json', *sum((['--bin', 'g%d' % i] for i in range(len(parts))), []), '--keep-going')
        if p.returncode != 0:
            for i, part in enumerate(parts):
                # every declaration is the second of five lines
                for ln, msg in lines('g%d' % i, p.stdout).items():
                    k = (ln - 2) // 4
                    self.fail({'what': 'a valid declaration is refused: ' + msg, 'declaration': derive.decl(part[k]) if k < len(part) else '', 'vector': part[k] if k < len(part) else {}})
            if not self.failures:
                sys.stderr.write(p.stderr[-6000:])
                raise CheckError('the declarations do not build')
        else:
            def one(i):
                res = os.path.join(self.work, 'g%d.json' % i)
                q = subprocess.run([os.path.join(d, 'target', 'debug', 'g%d' % i), res, os.path.join(self.work, 'g%d.jsonl' % i)], cwd=self.work, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
                return i, q, res
            with ThreadPoolExecutor(8) as ex:
                for i, q, res in ex.map(one, range(len(parts))):
                    if q.returncode < 0 or q.returncode == 134:
                        self.fail({'what': 'the code under test ended the process (%d)' % q.returncode, 'output': q.stdout[-2000:]})
                        continue
                    if q.returncode != 0:
                        sys.stderr.write(q.stdout[-4000:])
                        raise CheckError('a declaration program failed')
                    self.add(json.load(open(res)), 'g01')
        # refused
        left = bad
        while left:
            open(os.path.join(bins, 'rejects.rs'), 'w').write(derive.rejected(left))
            p = cargo('check', '--message-format=json', '--bin', 'rejects')
            got = lines('rejects', p.stdout)
            now = [x for i, x in enumerate(left) if i + 2 not in got]
            if len(now) == len(left):
                for x in left:
                    self.fail({'what': 'an invalid declaration is accepted', 'declaration': derive.decl(x), 'vector': x})
                break
            left = now
        self.evals += len(bad)
        self.vectors += len(bad)
        self.nontrivial += len(bad)
        self.counts['refused declarations'] = len(bad)
        self.stages.append({'stage': 'declarations', 'kind': 'compile', 'accepted': len(ok), 'refused': len(bad)})

    def add(self, r, mode, crate=''):
        self.evals += r['evaluations']
        self.nontrivial += r['distinct_nontrivial']
        self.vectors += r['vectors']
        for k, n in r['counts'].items():
            self.counts[k] = self.counts.get(k, 0) + n
        if len(self.samples) < 3:
            self.samples += r['samples'][:1]
        for f in r['failures']:
            f['mode'] = mode
            f['crate'] = crate
            self.fail(f)

    def validate(self, st, name, trace_file):
        """TLC decides whether recorded behaviours are behaviours of the specification."""
        lines = [l for l in open(trace_file) if l.strip()]
        if not lines:
            raise CheckError('no traces were recorded for ' + name)
        procs = min(8, max(1, len(lines) // 200))
        chunks = [lines[i::procs] for i in range(procs)]

        def one(i):
            tf = os.path.join(self.work, '%s-%d.ndjson' % (name, i))
            open(tf, 'w').writelines(chunks[i])
            bad = os.path.join(self.work, '%s-%d.bad' % (name, i))
            return bad, tlc(st['module'], cfg_text('Spec', st.get('consts', {}), st.get('invs', []), 'POSTCONDITION AllSeen\n'), self.work, '%s-v%d' % (name, i), [], {'SVH_TRACES': tf, 'SVH_BAD': bad})
        with ThreadPoolExecutor(8) as ex:
            for bad, (rc, stats, text) in ex.map(one, range(procs)):
                if rc != 0:
                    sys.stderr.write(text[-4000:])
                    raise CheckError('TLC failed validating traces for %s, exit %s' % (name, rc))
                self.states += stats['states']
                self.trans += stats['transitions']
                if os.path.exists(bad):
                    for l in open(bad):
                        l = json.loads(l)
                        self.fail({'what': 'recorded behaviour is not one of the specification', 'trace': json.loads(l) if isinstance(l, str) else l})
        self.traces += len(lines)
        self.stages.append({'stage': name, 'kind': 'validate', 'module': st['module'], 'traces': len(lines)})

    def fail(self, f):
        for k in self.known:
            if k.get('status') == 'known' and matches(k, f):
                self.known_hit.add(k['id'])
                return
        self.failures.append(f)

    def finish(self):
        wall = round(time.time() - self.t0, 1)
        c = checks.CHECKS[self.prop]
        for k in self.known:
            if k.get('status') == 'known':
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['summary']))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.vectors + self.traces,
                           'evaluations': self.evals, 'distinct_nontrivial': self.nontrivial, 'rule': c['rule'],
                           'samples': self.samples[:3] or ['none'], 'counts': self.counts, 'stages': self.stages},
              'assumptions': c.get('assumptions', []) + ['exploration is bounded by the constants listed under stages'],
              'wall_s': wall, 'violations': len(self.failures)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        d = os.path.join(ROOT, 'replays')
        path = os.path.join(d, '%s-%s.json' % (self.prop, self.tier))
        if os.path.exists(path):
            os.remove(path)
        if self.failures:
            os.makedirs(d, exist_ok=True)
            json.dump(self.failures[:50], open(path, 'w'), indent=1)
            f = self.failures[0]
            what = f.get('failures', [{}])[0].get('what', f.get('what', ''))
            print('%d violations, first: %s' % (len(self.failures), what))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s %s: held on %d behaviours (%d checks, %d states) in %.1f s' % (self.prop, self.tier, self.vectors + self.traces, self.evals, self.states, wall))
        return 0


def load_known():
    p = os.path.join(ROOT, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, f):
    """A finding is identified by the vector it fails on."""
    v = f.get('vector') or {}
    m = k.get('match', {})
    if not m:
        return False
    return all(json.dumps(v.get(key), sort_keys=True) == json.dumps(val, sort_keys=True) for key, val in m.items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--vectors', nargs='*', help='replay these vector files instead of generating')
    a = ap.parse_args()
    run = Run(a.prop, a.tier)
    c = checks.CHECKS[a.prop]
    try:
        # start the build while TLC runs
        ex = ThreadPoolExecutor(1)
        crates = {st.get('crate', 'harness') for st in c['stages'](a.tier) if 'mode' in st and 'derive' not in st}
        fut = [ex.submit(build, cr, os.path.join(run.work, cr + '.build.log')) for cr in crates]
        decls = []
        for i, st in enumerate(c['stages'](a.tier)):
            name = st.get('name', 's%d' % i)
            if st['kind'] == 'mc':
                run.mc(st, name)
                continue
            if st['kind'] == 'gen':
                files = a.vectors or run.gen(st, name)
            else:
                files = st.get('files', [])
            if st.get('derive'):
                decls += files
                continue
            for f in fut:
                f.result()
            if 'mode' in st:
                res = run.replay(st, name, files)
                if res and 'validate' in st and not run.failures:
                    run.validate(st['validate'], name, res + '.traces')
            if a.vectors:
                break
        if decls:
            run.derive(decls)
        rc = run.finish()
    except CheckError as e:
        sys.stderr.write('CHECK ERROR: %s\n' % e)
        rc = 2
    if not a.keep and rc == 0:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
