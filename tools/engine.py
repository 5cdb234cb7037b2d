"""Stages of the checks: each one produces behaviours (from the specification, or random ones), runs
them on the real library, and has the specification judge what happened."""
import collections, hashlib, json, os, random, shutil, subprocess, sys, threading, time
import vlib
from vlib import ROOT, WORK, NPROC, ToolError, cps

ERRORS_EXIT = 2


def txt(c):
    return ''.join(map(chr, c))


# ---------------------------------------------------------------- flat encodings

def skip_type(g, i):
    """Index after the type encoded at g[i]."""
    k = g[i]
    if k == 6:
        return skip_type(g, i + 1)
    if k == 7:
        n = g[i + 1]
        i += 2
        for _ in range(n):
            i = skip_type(g, i)
        return i
    return i + 1


def untree(g, limit=60000):
    """The encoding without sharing of the graph encoded in g, or None when it is too long."""
    seen = []

    def val(i):
        k = g[i]
        if k == 1:
            return g[i:i + 1], i + 1
        if k == 2:
            return g[i:i + 2], i + 2
        if k == 3:
            j = i + 3 + g[i + 2]
            return g[i:j], j
        if k == 4:
            j = i + 3 + g[i + 2]
            j = j + 1 + g[j]
            return g[i:j], j
        if k == 5:
            j = i + 2 + g[i + 1]
            return g[i:j], j
        if k == 9:
            return seen[g[i + 1] - 1], i + 2
        me = len(seen)
        seen.append(None)
        if k in (6, 7):
            # Arrays carry their element type, tuples their own.
            j = skip_type(g, i + 1)
            n = g[j]
            out = list(g[i:j + 1])
            j += 1
            for _ in range(n):
                x, j = val(j)
                out += x
        elif k == 8:
            out = list(g[i:i + 2])
            j = i + 2
            if g[i + 1]:
                x, j = val(j)
                out += x
            n = g[j]
            out.append(n)
            j += 1
            for _ in range(n):
                e = j + 1 + g[j]
                out += g[j:e]
                x, j = val(e)
                out += x
        else:
            raise ToolError('bad encoding %r' % (g[i:i + 20],))
        if len(out) > limit:
            raise OverflowError
        seen[me] = out
        return out, j
    try:
        return val(0)[0]
    except OverflowError:
        return None


# ---------------------------------------------------------------- the run of one check

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.t0 = time.time()
        self.violations = []
        self.known = collections.OrderedDict()
        self.cov = collections.Counter()
        self.stages = []
        self.samples = []
        self.outcomes = collections.Counter()
        self.distinct = set()
        self.assumptions = []
        self.binary = None
        self.listed = load_known(prop)

    # -- bookkeeping
    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def stage(self, name, **kw):
        self.stages.append(dict(name=name, **kw))
        self.log(name, ' '.join('%s=%s' % x for x in kw.items()))

    def saw(self, key):
        self.distinct.add(hashlib.blake2b(json.dumps(key, sort_keys=True).encode(), digest_size=8).digest())

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def violation(self, what, case, detail):
        """Records a violation; the first few are written out."""
        self.violations.append(what)
        if len(self.violations) > 20:
            return
        d = os.path.join(WORK, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, what=what, case=case, detail=detail), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('   ', what[:400].replace('\n', '\\n'), flush=True)

    def known_finding(self, key, text):
        if key not in self.listed:
            return False
        if key not in self.known:
            self.known[key] = text
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.listed[key]), flush=True)
        return True

    def finish(self, level):
        cov = dict(
            states=self.cov['states'], transitions=self.cov['transitions'],
            traces_validated_against_impl=self.cov['traces'],
            evaluations=self.cov['evals'], distinct_nontrivial=len(self.distinct),
            rule='one evaluation = one observation of the real library (a load, a call, a reload, a table row) compared '
                 'with the specification; distinct = different inputs together with the outcome the specification demands',
            samples=self.samples, stages=self.stages, outcomes=dict(self.outcomes.most_common(60)),
            known_findings_seen=list(self.known))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('done: %d violations, %d evaluations, %d traces, %d states' % (
            len(self.violations), cov['evaluations'], cov['traces_validated_against_impl'], cov['states']))

    # ---------------------------------------------------------------- documents

    def observe(self, cases, tag, ops, blocks=False):
        for i, c in enumerate(cases):
            c['id'] = i + 1
            c['ops'] = c.get('ops', ops)
        vlib.run_docs(self.binary, cases, '%s-%s' % (self.prop, tag), blocks=blocks)
        if any(c['raw'] is None for c in cases):
            # A worker gave up after too many crashes or hangs, each of which is reported.
            cases[:] = [c for c in cases if c['raw'] is not None]
            for i, c in enumerate(cases):
                c['id'] = i + 1
        for c in cases:
            self.prepare(c)

    def some_as_files(self, cases):
        """Every fourth text is put into a file, and the file is loaded."""
        for c in cases:
            if c.get('text') is not None and not c.get('files') and not c.get('path') and not c.get('root') and self.rng.random() < .25:
                c['asfile'] = True

    def prepare(self, c):
        c['obs'] = c['raw']['obs']
        for o in c['obs']:
            if o['o'] == 'err':
                vlib.decode_error(c, o)
            elif o['o'] == 'ok' and 'tree' in c['cmp']:
                o['t'] = untree(o['g'])
                if o['t'] is None:
                    o['t'] = []
                    c['cmp'] = [x for x in c['cmp'] if x != 'tree'] + ['graph']

    def docs(self, name, cases, cmp, ops=('use',), judge_timeout=800, big=False, blocks=False):
        """Random (or given) documents: the real loads are validated as traces of the loader machine."""
        t = time.time()
        self.some_as_files(cases)
        for c in cases:
            c.setdefault('cmp', list(cmp))
        self.observe(cases, name, list(ops), blocks)
        v = vlib.judge(cases, '%s-%s' % (self.prop, name), timeout=judge_timeout, big=big or name == 'scale')
        for c, r in v.known:
            self.line_break(c, r)
        for c, r in v.bad:
            self.violation('%s: %r differs from the specification in %s (%s): expected %s, got %s' % (
                name, show(c), r['comps'], c['obs'][r['n'] - 1].get('how'), short(r['exp']), short(c['obs'][r['n'] - 1])),
                public(c), r)
        for c in cases:
            self.outcomes[v.results[c['id']]] += 1
            self.saw([c['text'], c.get('files'), c.get('root'), v.results[c['id']]])
            if c['raw'].get('use_eq') is False or c['raw'].get('again_eq') is False:
                if self.prop in ('C15', 'C22', 'C25', 'C11'):
                    self.violation('%s: %r: the loaded object is not equal to itself or to a second load of the same text' % (name, show(c)), public(c), c['raw'])
        self.cov['states'] += v.states
        self.cov['transitions'] += v.transitions
        self.cov['traces'] += len(cases)
        self.cov['evals'] += sum(len(c['obs']) for c in cases)
        for c in cases[:2]:
            self.sample(dict(stage=name, **public(c), outcome=v.results[c['id']]))
        self.stage(name, kind='traces of real loads validated by TLC', cases=len(cases), ok=sum(x == 'ok' for x in v.results.values()),
                   states=v.states, s=round(time.time() - t, 1))
        return v

    def line_break(self, c, r):
        # A finding of C17 (known-findings.txt); the other checks look at the rest of such errors only.
        if self.prop == 'C17' and not self.known_finding('newline-position', show(c)):
            self.violation('position of a line break as offending character: %r' % (show(c),), public(c), r)

    def round_trips(self, name, cases, write, display):
        """After docs(..., ops=[write/display]): what was written is judged in its turn, as a document."""
        t = time.time()
        second = []
        n = 0
        for c in cases:
            raw = c['raw']
            w = raw.get('write')
            if write and w is not None:
                n += 1
                if 'panic' in w:
                    self.violation('%s: writing or reloading %r panics: %s' % (name, show(c), w['panic']), public(c), w)
                    continue
                if not w['wrote']:
                    self.violation('%s: %r cannot be written to a file' % (name, show(c)), public(c), w)
                for how in ('str', 'file'):
                    b = w[how]
                    if not b['eq'] or b['tree'] != w['want']:
                        self.violation('%s: %r written (%s) and loaded is not equal: %r -> %s' % (name, show(c), how, w['text'], short(b['obs'])), public(c), w)
                second.append(dict(text=w['text'], cmp=['out', 'tree'], obs=[dict(o='ok', t=w['want'], how='written')]))
            ds = raw.get('display')
            if display and ds is not None:
                if 'panic' in ds:
                    self.violation('%s: displaying %r panics: %s' % (name, show(c), ds['panic']), public(c), ds)
                    continue
                for d in ds:
                    n += 1
                    if not d['eq']:
                        self.violation('%s: the display form of a value of %r does not load as that value: %r -> %s' % (
                            name, show(c), d['text'], short(d['obs'])), public(c), d)
                    if d['ctx'] == 0:
                        second.append(dict(text=d['text'], cmp=['out', 'tree'],
                                           obs=[dict(o='ok', t=[8, 0, 1, 1, 120] + d['want'], how='display')]))
        # The same text need not be judged twice.
        uniq = {}
        for s in second:
            uniq.setdefault((s['text'], json.dumps(s['obs'])), s)
        second = list(uniq.values())
        second = second[:self.n(4000, 60000)]
        for i, s in enumerate(second):
            s['id'] = i + 1
        v = vlib.judge(second, '%s-%s2' % (self.prop, name))
        for c, r in v.bad:
            self.violation('%s: the written text %r does not define the object written: %s' % (name, c['text'], short(r['exp'])), public(c), r)
        self.cov['evals'] += n
        self.cov['states'] += v.states
        self.cov['transitions'] += v.transitions
        self.cov['traces'] += len(second)
        for s in second[:2]:
            self.sample(dict(stage=name + '/written', text=s['text']))
            self.saw(s['text'])
        self.stage(name + '/written', kind='written and displayed texts reloaded and judged by TLC', reloads=n, texts=len(second), s=round(time.time() - t, 1))

    # ---------------------------------------------------------------- behaviours generated by TLC

    def compare(self, name, c, exp, cmp):
        """Compares the first observation of a replayed case with what TLC emitted."""
        err = exp['error']
        if c.get('asfile') and err['kind']:
            err = dict(err, file=1 if err['file'] == 0 else err['file'])
        for o in c['obs']:
            bad = []
            if o['o'] not in ('ok', 'err'):
                bad = ['alive']
            elif err['kind']:
                if o['o'] != 'err':
                    bad = ['out']
                else:
                    if 'kind' in cmp and o['kind'] != err['kind']:
                        bad.append('kind')
                    if 'args' in cmp and o['kind'] == err['kind'] and o['args'] != err['args']:
                        bad.append('args')
                    if 'pos' in cmp and err['kind'] != 'Io' and (o['line'], o['col'], o['file']) != (err['line'], err['col'], err['file']):
                        if err['kind'] in ('FieldChar', 'BadEscape') and err['args'] == [[10]] and \
                                (o['line'], o['col'], o['file']) == (err['line'] + 1, 0, err['file']) and \
                                (self.prop != 'C17' or self.known_finding('newline-position', show(c))):
                            pass
                        else:
                            bad.append('pos')
            elif o['o'] != 'ok':
                bad = ['out']
            else:
                if 'graph' in cmp and (o['g'] != exp['graph'] or not o['idok']):
                    bad.append('graph')
                if 'tree' in cmp and 'graph' not in bad and o['g'] != exp['graph'] and untree(o['g']) != untree(exp['graph']):
                    bad.append('tree')
                if 'refs' in cmp and (len(o['r']) != len(exp['refs']) or any(e not in (-1, r) for e, r in zip(exp['refs'], o['r']))):
                    bad.append('refs')
            if bad:
                self.violation('%s: %r differs from the specification in %s (%s): expected %s, got %s' % (
                    name, show(c), bad, o.get('how'), short(exp), short(o)), public(c), dict(exp=exp, bad=bad))
                return

    def replay_docs(self, name, recs, cmp, ops=(), stats=(0, 0), to_case=None):
        t = time.time()
        cases = []
        for r in recs:
            c = to_case(r) if to_case else dict(text=txt(r['text']))
            c['cmp'] = [x for x in cmp if x != 'tree']
            c['exp'] = r['exp']
            cases.append(c)
        self.some_as_files(cases)
        self.observe(cases, name, list(ops))
        for c in cases:
            self.compare(name, c, c['exp'], cmp)
            self.outcomes[c['exp']['error']['kind'] or 'ok'] += 1
            self.saw([c['text'], c.get('files'), c['exp']['error']['kind']])
        self.cov['traces'] += len(cases)
        self.cov['evals'] += sum(len(c['obs']) for c in cases)
        if cases:
            for c in self.rng.sample(cases, min(2, len(cases))):
                self.sample(dict(stage=name, **public(c), outcome=c['exp']['error']['kind'] or 'ok'))
        return cases, round(time.time() - t, 1)

    def tlc_gen(self, name, module, params, timeout=800, config=None):
        p = os.path.join(WORK, 'gen-%s-%s.json' % (self.prop, name))
        with open(p, 'w') as f:
            json.dump(params, f)
        rc, out = vlib.tlc(module, config or module + '.cfg', env={'GEN': p}, tag=self.prop + name, timeout=self.n(timeout, 4 * timeout))
        if rc != 0:
            raise ToolError('TLC (%s) on %s %s:\n%s' % (rc, module, p, '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
        os.remove(p)
        g, d = vlib.stats(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        return vlib.said(out), d

    def generated(self, name, lexemes, max_, cmp, prefix='', rt=False, ops=(), timeout=800, names=False):
        """All documents over a set of lexemes up to a length, from TLC, replayed on the real code."""
        t = time.time()
        recs, states = self.tlc_gen(name, 'OverGen', dict(lexemes=[cps(x) for x in lexemes], max=max_, rt=rt, prefix=cps(prefix), names=names), timeout)
        t1 = round(time.time() - t, 1)
        cases, t2 = self.replay_docs(name, recs, cmp, ops)
        if not any(not c['exp']['error']['kind'] for c in cases):
            raise ToolError('no document of stage %s loads' % name)
        self.stage(name, kind='all documents over a set of lexemes, generated by TLC and replayed', lexemes=len(lexemes), length=max_,
                   exhaustive=True, cases=len(cases), ok=sum(not c['exp']['error']['kind'] for c in cases), states=states, tlc_s=t1, replay_s=t2)
        return cases

    def includes(self, name, params, cmp, ops=()):
        """All ways a few files can include each other, from TLC, replayed on the real code."""
        t = time.time()
        recs, states = self.tlc_gen(name, 'OverInc', params)
        t1 = round(time.time() - t, 1)

        def to_case(r):
            files = [dict(dir=[txt(d) for d in f['dir']], name=txt(f['name']), kind=f['kind'], text=txt(f['text']),
                          target=f['target'], to=[txt(d) for d in f['to']]) for f in r['files']]
            c = dict(text=txt(r['text']), files=files, dirs=[[txt(x) for x in d] for d in params['dirs']], root=params['root'])
            if params['root']:
                f = files[params['root'] - 1]
                c['path'] = '/'.join(f['dir'] + [f['name']])
            return c
        cases, t2 = self.replay_docs(name, recs, cmp, ops, to_case=to_case)
        self.stage(name, kind='all include graphs over a few files, generated by TLC and replayed', files=len(params['files']), exhaustive=True,
                   cases=len(cases), ok=sum(not c['exp']['error']['kind'] for c in cases), states=states, tlc_s=t1, replay_s=t2)
        return cases

    # ---------------------------------------------------------------- histories of calls

    def run_api(self, cases, tag):
        parts = [cases[i::NPROC] for i in range(NPROC)]
        raw, errs = {}, []

        def work(i):
            try:
                if parts[i]:
                    r, _ = vlib.run_worker(self.binary, 'api', parts[i], os.path.join(WORK, 'run', '%s-%s-%d' % (self.prop, tag, i)))
                    raw.update(r)
                    for c in parts[i]:
                        raw.setdefault(c['id'], {'obs': []})
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(NPROC)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        return raw

    def api(self, name, histories, cmp, resops=None):
        """Random histories of calls, validated as traces of the interface machine."""
        t = time.time()
        cases = [dict(id=i + 1, n=n, ops=ops) for i, (n, ops) in enumerate(histories)]
        raw = self.run_api(cases, name)
        path = os.path.join(WORK, 'trace-%s-%s.ndjson' % (self.prop, name))
        sent = []
        with open(path, 'w') as f:
            for c in cases:
                obs = raw[c['id']]['obs']
                k = next((i for i, x in enumerate(obs) if 'panic' in x or x.get('o')), None)
                if k is not None:
                    op = c['ops'][k] if k < len(c['ops']) else {'o': 'drop'}
                    if resops is None or op['o'] in resops or 'graph' in cmp:
                        self.violation('%s: call %s ends in %s' % (name, json.dumps(op), obs[k].get('panic', obs[k].get('o'))), dict(c), obs[k])
                    obs = obs[:k]
                    c = dict(c, ops=c['ops'][:k])
                clean = [{x: o[x] for x in o if x != 'written'} for o in obs]
                if not clean and k is None:
                    continue
                if len(clean) != len(c['ops']):
                    raise ToolError('api harness: %d observations of %d calls' % (len(clean), len(c['ops'])))
                if not clean:
                    continue
                sent.append(c)
                f.write(json.dumps(dict(c, cmp=list(cmp), resops=sorted({o['o'] for o in c['ops']}) if resops is None else list(resops), obs=clean)) + '\n')
        rc, out = vlib.tlc('OverApiTrace', 'OverApiTrace.cfg', env={'CASES': path}, tag=self.prop + name)
        recs = vlib.said(out)
        judged = {r['id'] for r in recs if r['t'] == 'judged'}
        byid = {c['id']: c for c in cases}
        for r in recs:
            if r['t'] == 'bad':
                c = byid[r['id']]
                got = raw[r['id']]['obs'][r['n'] - 1]
                self.violation('%s: after call %d %s of a history: %s differ; expected %s, got %s' % (
                    name, r['n'], json.dumps(c['ops'][r['n'] - 1]), r['comps'], short(r['exp']), short(got)),
                    dict(c, ops=c['ops'][:r['n']]), r)
        if rc != 0 or len(judged) != len(sent):
            raise ToolError('TLC failed (%s) on %s: %d of %d\n%s' % (rc, path, len(judged), len(sent),
                            '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
        os.remove(path)
        g, d = vlib.stats(out)
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.cov['traces'] += len(sent)
        self.cov['evals'] += sum(len(c['ops']) for c in sent)
        for c in sent:
            self.saw(c['ops'])
            for o, x in zip(c['ops'], raw[c['id']]['obs']):
                self.outcomes['%s:%s' % (o['o'], x['res']['e'] or x['res']['r'])] += 1
        for c in sent[:2]:
            self.sample(dict(stage=name, ops=c['ops']))
        self.stage(name, kind='histories of API calls validated by TLC', cases=len(sent), calls=sum(len(c['ops']) for c in sent), states=d,
                   s=round(time.time() - t, 1))
        return cases, raw

    def api_all(self, name, params, cmp, timeout=800, resops=None):
        """All histories of calls over an alphabet, generated by TLC and replayed."""
        t = time.time()
        recs, states = self.tlc_gen(name, 'MCApi', params, timeout)
        t1 = round(time.time() - t, 1)
        cases = [dict(id=i + 1, n=params['n'], prefix=params['prefix'], ops=[params['ops'][k - 1] for k in r['h']]) for i, r in enumerate(recs)]
        raw = self.run_api(cases, name)
        for c, r in zip(cases, recs):
            obs = raw[c['id']]['obs']
            if not obs:
                continue
            for k, e in enumerate(r['exp']):
                o = obs[k] if k < len(obs) else {'panic': 'missing'}
                op = c['ops'][k]
                if 'panic' in o or o.get('o'):
                    bad = ['panic']
                else:
                    p = e['proj']
                    bad = []
                    if 'res' in cmp and (resops is None or op['o'] in resops):
                        if not fits(op, e['res'], o['res']):
                            bad.append('res')
                    if 'graph' in cmp and o['g'] != p['g']:
                        bad.append('graph')
                    if 'refs' in cmp and o['refs'] != p['refs']:
                        bad.append('refs')
                    if 'ids' in cmp and o['ids'] != p['ids']:
                        bad.append('ids')
                    if 'same' in cmp and not o['same']:
                        bad.append('same')
                if bad:
                    self.violation('%s: after call %d %s of a history: %s differ; expected %s, got %s' % (
                        name, k + 1, json.dumps(op), bad, short(e), short(o)), dict(c, ops=c['ops'][:k + 1]), dict(exp=e, got=o))
                    break
            self.saw(r['h'])
        self.cov['traces'] += len(cases)
        self.cov['evals'] += sum(len(c['ops']) for c in cases)
        if cases:
            self.sample(dict(stage=name, ops=cases[-1]['ops']))
        self.stage(name, kind='all histories of API calls over an alphabet, generated by TLC and replayed', calls=len(params['ops']),
                   length=params['max'], exhaustive=True, cases=len(cases), states=states, tlc_s=t1, s=round(time.time() - t, 1))
        return cases


def fits(op, want, got):
    """Fits of OverApi.tla."""
    if op['o'] == 'write':
        return want['d'] != [1] or got == want
    if op['o'] in ('cmp', 'natc') and want['d'][:1] == [3]:
        return got['r'] == 'ok' and len(got['d']) == len(want['d']) and got['d'][0] in (0, 1) and got['d'][1:] == want['d'][1:]
    return got == want


def show(c):
    if c.get('files'):
        return dict(text=c['text'], path=c.get('path'), files={'/'.join(f['dir'] + [f['name']]): f.get('text', f['kind']) for f in c['files']})
    t = c['text']
    return t if t is None or len(t) < 400 else t[:200] + '...' + t[-150:]


def public(c):
    return {k: c[k] for k in ('text', 'path', 'abs', 'root', 'files', 'dirs', 'ops', 'asfile') if k in c}


def short(x, n=300):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- known findings

def load_known(prop):
    """known-findings.txt: 'finding: property=<id> key=<key> <what>' lines (and 'fixed:' lines, which suppress nothing)."""
    r = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                key, what = rest.split(' ', 1)
                r[key.split('=', 1)[1]] = what
    return r
