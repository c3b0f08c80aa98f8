#!/usr/bin/env python3
"""Development tool: small changes to the sources of a scratch copy, to find what neither the tests nor the checks notice.
usage: mutate.py vectors             let TLC write a sample of every stage's behaviours to /tmp/mut/vec
       mutate.py run COUNT WORKERS [SEED] [FILE-SUBSTRING...]
       mutate.py file PATCH...       judge patches the same way
Never run by a check. Results are appended to /tmp/mut/results.jsonl."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mut'
CAP = int(os.environ.get('CAP', '900'))
sys.path.insert(0, R)
sys.path.insert(0, R + '/tools')


def vectors():
    import run, checks
    from concurrent.futures import ThreadPoolExecutor
    shutil.rmtree(M + '/vec', ignore_errors=True)
    jobs = []
    for prop, c in checks.CHECKS.items():
        for st in c['stages']('quick'):
            if st['kind'] != 'gen' or st.get('derive'):
                continue
            jobs.append((prop, st))

    def one(j):
        prop, st = j
        st = dict(st, procs=1)
        if 'sim' in st:
            st['sim'] = max(40, st['sim'] // 3)
        crate = st.get('crate', 'harness')
        name = '%s-%s' % (prop, st['name'])
        r = run.Run.__new__(run.Run)
        r.prop, r.tier, r.seed, r.work = prop, 'quick', 1, M + '/gen/' + name
        shutil.rmtree(r.work, ignore_errors=True)
        os.makedirs(r.work)
        r.states = r.trans = 0
        r.stages = []
        files = r.gen(st, name)
        lines = [l for f in files for l in open(f)]
        rnd = random.Random(7)
        if len(lines) > CAP:
            lines = rnd.sample(lines, CAP)
        os.makedirs('%s/vec/%s/%s' % (M, crate, st['mode']), exist_ok=True)
        open('%s/vec/%s/%s/%s.jsonl' % (M, crate, st['mode'], name), 'w').writelines(lines)
        shutil.rmtree(r.work, ignore_errors=True)
        return name, len(lines)
    with ThreadPoolExecutor(8) as ex:
        for n in ex.map(one, jobs):
            print(*n, flush=True)


TML = r'\b(tag|label|index|num_entries|num_bytes|num_entries_hint|num_bytes_hint)\b'


def ops(line):
    """Changed forms of a line."""
    s = line.strip()
    if re.match(r'([0A-Z]+, *){8}', s) or s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('use ') or 'unsafe' in s or 'assert' in s:
        return
    decl = re.match(r'(pub(\([a-z]+\))? )?(const )?(fn|struct|enum|trait|impl|type|mod|macro_rules)\b', s)
    if decl or s.endswith(',') and re.match(r'[a-z_]+: [&A-Z(]', s):
        return

    def sub(a, b):
        for m in re.finditer(a, line):
            new = line[:m.start()] + m.expand(b) + line[m.end():]
            if new != line:
                yield new
    if re.match(r'.*\)\?;$', s) and not s.startswith('let '):
        yield 'delete', re.sub(r'\S.*', '', line)
        yield 'ignore', re.sub(r'(\S.*)\?;', r'let _ = \1;', line)
    if re.match(r'(self|\*?[a-z_]+)[.a-z_]* [-+|&]?= .*;$', s):
        yield 'delete', re.sub(r'\S.*', '', line)
    if re.match(r'[a-z_.]+\.(push|push_str|clear|extend|pop|truncate|take|insert)\w*\(.*\);$', s):
        yield 'delete', re.sub(r'\S.*', '', line)
    table = [(r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|(?= )(?<! \|\|)', '&&'),
             (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+=', '-='), (r'-=', '+='), (r'\b0\b', '1'), (r'\b1\b', '0'),
             (r'\.value\(', '.value_computed('), (r'fragment_computed\(', 'fragment('), (r'_fragment\(', '_fragment_computed('),
             (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'is_ok\(\)', 'is_err()'), (r'is_empty\(\)', 'is_empty() == false'),
             (r'if (?!let)(.*) \{', r'if false && \1 {'), (r'if (?!let)(.*) \{', r'if true || \1 {'), (r'\bNone\b', 'Some(0)'), (r'\.cloned\(\)', ''),
             (r'Some\((?!\w+\) =>)[^()]*(\([^()]*\))?[^()]*\)', 'None'), (r'\bu64\b', 'u32'), (r'\bi64\b', 'i32'), (r'\bi128\b', 'i64'), (r'\bu128\b', 'u64'), (r'\bf64\b', 'f32'), (r'\bu16\b', 'u8'),
             (r'\btext_', 'binary_'), (r'record_tuple', 'record'), (r'tuple_value', 'seq_value'), (r'tagged_', 'enum_'), (r'map_key', 'map_value'), (r'map_value', 'map_key'), (r'VALUE_IDENT', 'VALUE_OFFSET'), (r'VALUE_OFFSET', 'VALUE_IDENT'),
             (r'break;', 'continue;'), (r'continue;', 'break;'), (r'!([a-z])', r'\1')]
    for a, b in table:
        for new in sub(a, b):
            yield '%s -> %s' % (a, b), new
    if re.search(r'\(.*' + TML, line) and '|' not in line and '=>' not in line or re.match(r'(tag|label|index)(\.clone\(\))?,$', s):
        for m in re.finditer(TML, line):
            if line[m.end():m.end() + 1] in ',)' or line[m.end():m.end() + 8] == '.clone()':
                yield 'none', line[:m.start()] + 'None' + line[m.end():].replace('.clone()', '', 1) if line[m.end():].startswith('.clone()') else line[:m.start()] + 'None' + line[m.end():]
    for m in re.finditer(r"(\"[^\"\\]{1,4}\"|'[^'\\]')", line):
        yield 'literal', line[:m.start()] + (m.group(0)[0] + '~' + m.group(0)[0]) + line[m.end():]


def candidates(repo, picks):
    out = []
    for d in ['src', 'src/data', 'ref/src', 'dynamic/src', 'buffer/src', 'nested/src', 'json/src', 'fmt/src', 'serde/src', 'flatten/src']:
        for f in sorted(os.listdir(os.path.join(repo, d))):
            p = os.path.join(d, f)
            if not p.endswith('.rs') or (picks and not any(x in p for x in picks)):
                continue
            lines = open(os.path.join(repo, p)).read().split('\n')
            end = next((i for i, l in enumerate(lines) if re.match(r'\s*#\[cfg\((all\()?test', l)), len(lines))
            for i in range(end):
                for op, new in ops(lines[i]):
                    out.append((p, i, op, lines[i], new))
    return out


ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HOME='/root',
           CARGO_PROFILE_DEV_OPT_LEVEL='0', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='1', SVH_THREADS='3', CARGO_BUILD_JOBS='3', RUSTFLAGS='-Awarnings')


def sh(cmd, cwd, timeout=900, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, ''


def trace_bad(mode, path):
    for l in open(path):
        t = json.loads(l)
        if mode == 'j04':
            pos, dead, bad = 0, False, False
            for e in t['evs']:
                if dead or not e['at'] or e['n'] > e['off'] or pos + e['off'] > t['len']:
                    bad = True
                    break
                if e['r'] == 'err' or (e['r'] == 'ok' and e['n'] == 0 and e['off'] > 0):
                    dead = True
                elif e['r'] == 'ok':
                    pos += e['n']
            if bad or t['ok'] != (pos == t['len']) or (dead and t['ok']):
                return True
        else:
            for c in t['cases']:
                if c['after'] or any(r['after'] or not r['same'] or ((r['made'], r['ok']) != ((r['at'], False) if r['at'] < c['total'] else (c['total'], c['ok']))) for r in c['runs']):
                    return True
    return False


class Worker:
    def __init__(self, k):
        self.d = '%s/w%d' % (M, k)
        self.repo = self.d + '/repo'
        self.v = self.d + '/verif'
        if not os.path.exists(self.repo):
            os.makedirs(self.d)
            sh('cp -a /repo %s' % self.repo, '/')
        sh('git checkout -q -f -- .', self.repo)
        os.makedirs(self.v, exist_ok=True)
        for c in ('harness', 'harness_noalloc'):
            sh("mkdir -p %s && rsync -a --exclude target %s/%s/ %s/%s/ && sed -i -E 's#\"(/repo|/tmp/rw)#\"%s#' %s/%s/Cargo.toml" % (self.v + '/' + c, R, c, self.v, c, self.repo, self.v, c), '/')
        sh("sed -e 's#^cd /repo .*#cd %s#' /opt/vp/env.sh > %s/env.sh; sed -e 's#/opt/vp/env.sh#%s/env.sh#; s#/repo/#%s/#g' /opt/vp/test.sh > %s/test.sh" % (self.repo, self.d, self.d, self.repo, self.d), '/')

    def replay(self, crate):
        rc, out = sh(['cargo', 'build', '--offline', '-q'], self.v + '/' + crate)
        if rc != 0:
            return 'build-fail'
        name = re.search(r'name = "([^"]+)"', open(self.v + '/' + crate + '/Cargo.toml').read()).group(1)
        vec = '%s/vec/%s' % (M, crate)
        # the modes that find most come first
        order = ['s02', 's03', 'n01', 'j01', 'b01', 'm01', 'd01', 'd02', 'f01', 's01', 'v01', 'b02']
        killed = []
        for mode in sorted(os.listdir(vec), key=lambda m: (order + [m]).index(m)):
            files = ['%s/%s/%s' % (vec, mode, f) for f in sorted(os.listdir(vec + '/' + mode))]
            res = '%s/%s-%s.json' % (self.d, crate, mode)
            for x in (res, res + '.traces'):
                if os.path.exists(x):
                    os.remove(x)
            rc, out = sh(['prlimit', '--as=12000000000', '%s/%s/target/debug/%s' % (self.v, crate, name), mode, res] + files, self.d, timeout=240)
            bad = rc != 0
            if not bad:
                r = json.load(open(res))
                bad = bool(r['failures']) or (os.path.exists(res + '.traces') and trace_bad(mode, res + '.traces'))
            if bad:
                killed.append(mode)
                if not os.environ.get('ALL'):
                    break
        return ','.join(killed)

    def judge(self):
        k = self.replay('harness')
        if k == 'build-fail':
            return k
        if k and not os.environ.get('TESTS'):
            return 'killed ' + k
        rc, out = sh('rm -f %s/o.json; bash %s/test.sh %s/o.json' % (self.d, self.d, self.d), self.repo, env={k: v for k, v in ENV.items() if not k.startswith('CARGO_PROFILE') and k != 'RUSTFLAGS'})
        try:
            res = json.load(open(self.d + '/o.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            t = 'tests' if set(stable) - set(res['passed']) else ''
        except Exception:
            t = 'tests-error'
        if k:
            return 'killed ' + k + (' and ' + t if t else ' UNTESTED')
        if t:
            return t
        k = self.replay('harness_noalloc')
        return 'noalloc ' + k if k else 'SURVIVED'


def run(count, workers, seed, picks):
    done = set()
    if os.path.exists(M + '/results.jsonl'):
        for l in open(M + '/results.jsonl'):
            r = json.loads(l)
            done.add((r['file'], r['old'], r['new'], r['line']))
    cs = [c for c in candidates('/repo', picks) if (c[0], c[3], c[4], c[1] + 1) not in done]
    random.Random(seed).shuffle(cs)
    print(len(cs), 'candidates', flush=True)
    q = queue.Queue()
    for c in cs[:count]:
        q.put(c)
    lock = threading.Lock()

    def work(k):
        w = Worker(k)
        while True:
            try:
                p, i, op, old, new = q.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(w.repo, p)
            src = open(path).read()
            lines = src.split('\n')
            assert lines[i] == old
            lines[i] = new
            open(path, 'w').write('\n'.join(lines))
            t = time.time()
            try:
                st = w.judge()
            except Exception as e:
                st = 'error %r' % e
            open(path, 'w').write(src)
            with lock:
                open(M + '/results.jsonl', 'a').write(json.dumps({'file': p, 'line': i + 1, 'op': op, 'old': old, 'new': new, 'status': st}) + '\n')
                print('%3.0f %-14s %s:%d %s | %s' % (time.time() - t, st, p, i + 1, old.strip()[:70], new.strip()[:70]), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'vectors':
        vectors()
    elif a[0] == 'file':
        w = Worker(99)
        for p in a[1:]:
            sh('git checkout -q -f -- .', w.repo)
            rc, out = sh(['git', 'apply', os.path.abspath(p)], w.repo)
            print(p, w.judge() if rc == 0 else out, flush=True)
        sh('git checkout -q -f -- .', w.repo)
    else:
        run(int(a[1]), int(a[2]), int(a[3]) if len(a) > 3 else 1, a[4:])
