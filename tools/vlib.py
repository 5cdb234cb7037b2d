"""Shared machinery of the checks: builds the harness from /repo, runs cases on the real library,
turns what it did into traces, and has TLC judge them against the specification."""
import ast, hashlib, json, os, re, resource, shutil, subprocess, sys, time, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(ROOT, 'work')
SPEC = os.path.join(ROOT, 'spec')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
TLA_DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


class Died(ToolError):
    pass


# ---------------------------------------------------------------- build

def cargo_env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTFLAGS='--cap-lints=allow', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0',
             CARGO_TARGET_DIR=os.path.join(WORK, 'target'))
    return e


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(ROOT, 'harness')):
        for d, dirs, files in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', 'tests', 'fuzz'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def build():
    """Builds the harness against /repo's working tree; returns the binary's path."""
    os.makedirs(WORK, exist_ok=True)
    stamp = os.path.join(WORK, 'built')
    want = tree_hash()
    binary = os.path.join(WORK, 'target', 'debug', 'over-harness')
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
        return binary
    env = cargo_env()
    hdir = os.path.join(ROOT, 'harness')
    if os.path.exists(binary):
        # Do not trust modification times to tell that the library has changed.
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'over', '-p', 'over-harness'], cwd=hdir, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    lock = open(os.path.join(hdir, 'Cargo.lock')).read()
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=hdir, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if open(os.path.join(hdir, 'Cargo.lock')).read() != lock:
        open(os.path.join(hdir, 'Cargo.lock'), 'w').write(lock)
    if r.returncode != 0:
        raise ToolError('the harness does not build:\n' + r.stdout[-4000:])
    open(stamp, 'w').write(want)
    return binary


# ---------------------------------------------------------------- running cases on the real code

def limits(mem_gb=6):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_worker(binary, mode, cases, wdir, env=None, stall=40, mem_gb=4):
    """Runs cases one after another in a process; a crash or hang is an observation of the case it
    happened in, and the rest is run in a new process.  Returns {id: output}."""
    scratch = os.path.join(wdir, 'scratch')
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(scratch)
    out = {}
    rest = list(cases)
    n = hangs = deaths = 0
    while rest:
        n += 1
        inp, outp = os.path.join(wdir, 'in%d' % n), os.path.join(wdir, 'out%d' % n)
        with open(inp, 'w') as f:
            for c in rest:
                f.write(json.dumps(c) + '\n')
        open(outp, 'w').close()
        args = [binary, mode, inp, outp] + ([scratch] if mode in ('docs', 'conc') else [])
        p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=open(os.path.join(wdir, 'stderr'), 'w'),
                             preexec_fn=limits(mem_gb), env=env)
        hang = False
        last, t0 = -1, time.time()
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(outp)
                if size != last:
                    last, t0 = size, time.time()
                elif time.time() - t0 > stall:
                    hang = True
                    p.kill()
                    p.wait()
                    break
        done = 0
        with open(outp) as f:
            for line in f:
                if line.endswith('\n'):
                    r = json.loads(line)
                    out[r['id']] = r
                    done += 1
        if mode == 'conc':
            if p.returncode != 0:
                raise Died('concurrent loads ended the process (%s)%s' % (p.returncode, ', hanging' if hang else ''))
            break
        if done < len(rest):
            if p.returncode == 0 and not hang:
                raise ToolError('harness skipped cases')
            if p.returncode == 101:
                raise ToolError('harness bug: ' + open(os.path.join(wdir, 'stderr')).read()[-500:])
            c = rest[done]
            what = 'hang' if hang else 'crash'
            err = open(os.path.join(wdir, 'stderr')).read()[-300:]
            out[c['id']] = {'id': c['id'], 'died': what, 'obs': [{'how': 'load', 'o': what, 'm': '%s %s' % (p.returncode, err)}]}
            done += 1
            hangs += hang
            deaths += 1
            if hangs >= 3 or deaths >= 40:
                # Enough to report; the cases left over stay without observations.
                break
        elif p.returncode not in (0, None) and not hang:
            # Died after the last case.
            c = rest[-1]
            out[c['id']]['obs'].append({'how': 'exit', 'o': 'crash', 'm': str(p.returncode)})
        rest = rest[done:]
    shutil.rmtree(wdir, ignore_errors=True)
    return out, os.path.realpath(scratch)


def harness_case(c):
    c = real(c)
    k = {x: c[x] for x in ('id', 'text', 'path', 'files', 'dirs', 'ops', 'abs', 'dmax') if x in c}
    return k


HERE = '\ue123'        # stands for the directory of a case in its texts and its path
ODD = '\uf8ff'         # in names: a byte that is not valid UTF-8


def asfile(c):
    return [dict(dir=[], name='root.over', kind='text', text=c['text'])]


def real(c):
    """The case with the directory it runs in filled in, and its text in a file when that is where it stands."""
    if c.get('asfile'):
        return dict(c, text=None, files=asfile(c), dirs=[[]], root=1, path='root.over')
    if HERE not in json.dumps([c.get('text'), c.get('files'), c.get('path')], ensure_ascii=False):
        return c
    sub = lambda t: t if t is None else t.replace(HERE, c['rootdir'])
    return dict(c, text=sub(c.get('text')), path=sub(c.get('path')),
                files=[dict(f, text=sub(f.get('text', ''))) for f in c.get('files', [])])


def scratch_of(tag, i):
    return os.path.join(os.path.realpath(WORK), 'run', '%s-%d' % (tag, i), 'scratch')


def run_docs(binary, cases, tag, mode='docs', blocks=False):
    """Runs document cases; puts 'raw' (the harness output) and 'rootdir' into each case."""
    if mode == 'conc':
        top = os.path.join(os.path.realpath(WORK), 'run', tag, 'scratch')
        for i, c in enumerate(cases):
            c['rootdir'] = os.path.join(top, 'c%d' % i)
        raw, root = run_worker(binary, mode, [harness_case(c) for c in cases], os.path.join(WORK, 'run', tag))
        assert root == top, root
        for c in cases:
            c['raw'] = raw[c['id']]
        return raw
    # In blocks, neighbours run one after another in the same process.
    n = len(cases)
    parts = [cases[i * n // NPROC:(i + 1) * n // NPROC] if blocks else cases[i::NPROC] for i in range(NPROC)]
    errs = []

    def work(i):
        try:
            if parts[i]:
                for c in parts[i]:
                    c['rootdir'] = scratch_of(tag, i)
                raw, root = run_worker(binary, mode, [harness_case(c) for c in parts[i]],
                                       os.path.join(WORK, 'run', '%s-%d' % (tag, i)))
                assert root == scratch_of(tag, i), root
                for c in parts[i]:
                    c['raw'] = raw.get(c['id'])
        except Exception as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(NPROC)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


# ---------------------------------------------------------------- error messages

POS = r' at line (?P<line>\d+), column (?P<col>\d+)'
PATTERNS = [
    ('BinOp', r"Could not apply operator '(?P<a1>.)' on types (?P<a2>.+) and (?P<a3>.+)" + POS),
    ('Cyclic', r'Tried to cyclically include file "(?P<a1>.*)"' + POS),
    ('DupField', r'Duplicate field "(?P<a1>.*)"' + POS),
    ('DupGlobal', r'Duplicate global "(?P<a1>.*)"' + POS),
    ('Expected', r'Expected (?P<a1>.+)' + POS + r'; found (?P<a2>.+)'),
    ('GlobalNF', r'Global "(?P<a1>.*)"' + POS + r' could not be found'),
    ('Bracket', r"Invalid closing bracket '(?P<a2>.)'" + POS + r"; expected (?P<a1>none|'.')"),
    ('BadDot', r'Invalid use of dot notation on value of type (?P<a1>.+)' + POS + r'; value must be an Obj, Arr, or Tup\.'),
    ('BadEscape', r"Invalid escape character '(?P<d1>.+)' following backslash" + POS + r"\. If you meant to write a backslash, use '\\\\'"),
    ('FieldChar', r"Invalid character '(?P<d1>.+)' for field" + POS),
    ('ValueChar', r"Invalid character '(?P<d1>.+)' for value" + POS),
    ('FieldName', r'Invalid field name "(?P<a1>.*)"' + POS),
    ('BadPath', r'Invalid include path "(?P<a1>.*)"' + POS),
    ('BadInclude', r'Invalid value of type "(?P<a1>.+)"' + POS + r'; must be either a Str value or one of the tokens "Obj", "Arr", "Tup", or "Str"'),
    ('BadIndex', r'Invalid index (?P<a1>-?\d+)' + POS),
    ('BadNumeric', r'Invalid numeric value' + POS),
    ('BadValue', r'Invalid value "(?P<a1>.*)"' + POS),
    ('MaxDepth', r'Exceeded maximum recursion depth \(64\)' + POS),
    ('UnOp', r"Could not apply operator '(?P<a1>.)' on type (?P<a2>.+)" + POS),
    ('End', r'Unexpected end at line (?P<line>\d+)'),
    ('VarNF', r'Variable "(?P<a1>.*)"' + POS + r' could not be found'),
    ('TypeMismatch', r'Type mismatch: expected (?P<a1>.+), found (?P<a2>.+) at line (?P<line>\d+), col (?P<col>\d+)'),
    ('ArrOOB', r'Arr index (?P<a1>\d+) out of bounds at line (?P<line>\d+), col (?P<col>\d+)'),
    ('TupOOB', r'Tup index (?P<a1>\d+) out of bounds at line (?P<line>\d+), col (?P<col>\d+)'),
    ('Io', r'stream did not contain valid UTF-8'),
]
PATTERNS = [(k, re.compile(r'(?:(?P<file>.+?): )?' + p, re.S)) for k, p in PATTERNS]


def undebug(s):
    """The character Rust's {:?} wrote as s (without its quotes)."""
    m = re.fullmatch(r'\\u\{([0-9a-f]+)\}', s)
    if m:
        return chr(int(m.group(1), 16))
    return {'\\n': '\n', '\\t': '\t', '\\r': '\r', '\\\\': '\\', "\\'": "'", '\\"': '"', '\\0': '\0'}.get(s, s)


def cps(s):
    return [ord(c) for c in s]


def canon_index(case, prefix):
    """Index (links followed) of the file an error message names; see Walk in OverDoc.tla."""
    if prefix is None:
        return 0
    files = asfile(case) if case.get('asfile') else case.get('files', [])
    base = case['rootdir'].split('/')[1:]
    at = [] if prefix.startswith('/') else list(base)
    cs = prefix.split('/')
    for k, c in enumerate(cs):
        rel = at[len(base):] if at[:len(base)] == base else None
        e = next((i for i, f in enumerate(files) if f['dir'] == rel and f['name'] == c), None)
        if k == len(cs) - 1:
            if e is None:
                return -1
            return files[e]['target'] if files[e]['kind'] == 'link' else e + 1
        if c in ('', '.'):
            continue
        if c == '..':
            at = at[:-1]
        elif e is not None and files[e]['kind'] == 'dirlink':
            at = base + files[e]['to']
        else:
            at = at + [c]


def decode_error(case, o):
    """Adds kind, args, line, col and file to an error observation."""
    best = None
    for kind, pat in PATTERNS:
        m = pat.fullmatch(o['m'])
        if m:
            g = m.groupdict()
            fidx = canon_index(case, g.get('file'))
            args = []
            for i in (1, 2, 3):
                if g.get('a%d' % i) is not None:
                    a = g['a%d' % i]
                    if kind == 'Bracket' and i == 1 and a != 'none':
                        a = a[1]
                    args.append(cps(a))
                elif g.get('d%d' % i) is not None:
                    args.append(cps(undebug(g['d%d' % i])))
            r = dict(kind=kind, args=args, line=int(g.get('line') or 0), col=int(g.get('col') or 0), file=fidx)
            if best is None or (best['file'] == -1 and fidx != -1):
                best = r
    if best is None or o.get('e') != 'ParseError':
        best = dict(kind='?', args=[], line=0, col=0, file=-1)
    o.update(best)


# ---------------------------------------------------------------- TLC

def tlc(module, config, env=None, workers=NPROC, timeout=800, args=(), heap='6g', stack='900m', tag='tlc'):
    """Runs TLC; returns its output.  Raises ToolError when TLC itself fails."""
    meta = os.path.join(WORK, 'meta', '%s-%d-%d' % (tag, os.getpid(), time.time_ns()))
    os.makedirs(meta)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-Djava.io.tmpdir=' + meta,
           '-cp', TLA_JAR + ':' + TLA_DEPS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', config] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on %s\n%s' % (module, ((x.stdout or b'') if isinstance(x.stdout, bytes) else b'').decode(errors='replace')[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def said(out):
    """The records printed by Say(...)."""
    r = []
    for line in out.splitlines():
        if line.startswith('"@'):
            r.append(json.loads(json.loads(line)[1:]))
    return r


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_case(c):
    c = real(c)
    root = c.get('root', 0)
    files = [dict(dir=[cps(x) for x in f['dir']], name=cps(f['name']), kind=f['kind'],
                  text=cps(f.get('text') or ''), target=f.get('target', 0), to=[cps(x) for x in f.get('to', [])]) for f in c.get('files', [])]
    dirs = {()}
    for d in list(c.get('dirs', [])) + [f['dir'] for f in c.get('files', [])]:
        for i in range(len(d) + 1):
            dirs.add(tuple(d[:i]))
    text = c['text'] if root == 0 else c['files'][c['files'][root - 1].get('target', root) - 1]['text']
    obs = []
    for o in c['obs']:
        if o['o'] == 'ok':
            k = dict(o='ok', g=o.get('g', []), r=o.get('r', []), idok=bool(o.get('idok', True)), t=o.get('t', []),
                     m=o.get('m', []), mn=o.get('mn', 0))
        elif o['o'] == 'err':
            k = {x: o[x] for x in ('o', 'kind', 'args', 'line', 'col', 'file')}
        else:
            k = dict(o=o['o'])
        obs.append(k)
    return dict(id=c['id'], text=cps(text), root=root, files=files, dirs=[[cps(x) for x in d] for d in sorted(dirs)],
                base=[cps(x) for x in c['rootdir'].split('/')[1:]] if files and 'rootdir' in c else [], cmp=c['cmp'], obs=obs)


class Verdict:
    def __init__(self):
        self.bad, self.known, self.results = [], [], {}
        self.states = self.transitions = 0


def judge(cases, tag, timeout=800, big=False):
    """Has TLC replay every case; cases carry 'obs' and 'cmp'."""
    v = Verdict()
    if not cases:
        return v
    path = os.path.join(WORK, 'trace-%s.ndjson' % tag)
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(tlc_case(c)) + '\n')
    rc, out = tlc('OverTrace', 'OverTraceBig.cfg' if big else 'OverTrace.cfg', env={'CASES': path}, tag=tag, timeout=timeout)
    recs = said(out)
    byid = {c['id']: c for c in cases}
    for r in recs:
        if r['t'] == 'judged':
            v.results[r['id']] = r['r']
        else:
            (v.known if r['t'] == 'known' else v.bad).append((byid[r['id']], r))
    if rc != 0 or len(v.results) != len(cases):
        raise ToolError('TLC failed (%s) on %s: %d of %d cases judged\n%s' % (
            rc, path, len(v.results), len(cases), '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
    g, d = stats(out)
    v.states, v.transitions = d, g
    os.remove(path)
    return v
