"""Check of one property: extract, translate, prove, search, report."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from .ast import TU, ExtractionError, run_clang, params, qual, norm
from .trans import Model, FnTrans, Fn, Loop, DROPPED
from .prove import Prover, Job, QUICK, ROOT

REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = os.path.join(ROOT, 'contracts', 'baseline.json')


class Unit:
    """A C++ translation unit whose functions are verified together."""
    def __init__(self, name, cpp, fns, classes=None, models=None, keys=None, theories=(), prelude='', ext=None,
                 aliases=None, prelude_uses=None, adaptors=None, pure=()):
        self.pure = list(pure)              # classes whose operator== is under contract as equality of all fields
        self.name, self.cpp, self.fns = name, cpp, fns
        self.classes, self.models, self.keys = classes or {}, models or {}, keys or {}
        self.theories, self.prelude = list(theories), prelude
        self.ext = ext
        self.aliases = aliases or {}
        self.adaptors = adaptors or {}      # iterator adaptor class -> (element type, element type of the base iterator)
        self.failures = []      # (function, message)
        self.records = {}


def attach(tu, fn):
    """The definition in the current source that contract fn talks about."""
    c = []
    for q, n in tu.funcs:
        if fn.match(q, n) and not any(n is x for x in c):
            c.append(n)
    # a definition may be listed several times (template redeclarations)
    uniq = {}
    for n in c:
        uniq.setdefault(n.get('type', {}).get('qualType', '') + '|' + ','.join(qual(p) for p in params(n)), n)
    c = list(uniq.values())
    if not c:
        raise ExtractionError('no definition of %s in the current source' % fn.q)
    if len(c) > 1:
        raise ExtractionError('%d definitions match the contract of %s' % (len(c), fn.q))
    return c[0]


class Extraction:
    def __init__(self, unit, work, baseline):
        self.unit, self.work, self.baseline = unit, work, baseline
        self.jobs = []
        self.failures = []
        self.newbase = {}
        self.translated = []

    def clang(self):
        u = self.unit
        path = os.path.join(self.work, 'tu_%s.cc' % u.name)
        with open(path, 'w') as f:
            f.write(u.cpp)
        return TU(run_clang(path, REPO), path)

    def run(self):
        u = self.unit
        try:
            tu = self.clang()
        except ExtractionError as e:
            for f in u.fns:
                self.failures.append((f.q, str(e)))
            return
        model = Model(tu, u.classes, u.models, u.keys)
        model.aliases.update(u.aliases)
        model.pure = u.pure
        model.reserved = {f.why for f in u.fns} | set(re.findall(r'\b(?:function|predicate|lemma|constant|ghost|val)\s+([a-z]\w*)', u.prelude))
        model.adaptors.update({k: v[0] for k, v in u.adaptors.items()})
        model.adaptor_base.update({k: v[1] for k, v in u.adaptors.items()})
        for f in u.fns:
            f.node = None
            try:
                f.node = attach(tu, f)
            except ExtractionError as e:
                if not (f.trusted and f.sig is not None):
                    f.attach_error = str(e)
                    if not f.trusted:
                        self.failures.append((f.q, str(e)))
        done = []
        live = [f for f in u.fns if f.node is not None or (f.trusted and f.sig is not None)]
        for f in u.fns:
            if f.trusted or f.node is None:
                continue
            base = self.baseline.get('%s.%s' % (u.name, f.why), {})
            tr = (u.ext or FnTrans)(model, live, f, base)
            try:
                text = tr.translate()
                vals = []
                for s in tr.used_specs:
                    if s is f:
                        continue
                    b = self.baseline.get('%s.%s' % (u.name, s.why), {})
                    vals.append(FnTrans(model, live, s, b).val_decl(s, b) if s.node is not None else s.sig)
                done.append((f, tr, text, vals))
            except ExtractionError as e:
                self.failures.append((f.q, str(e)))
            except (KeyError, IndexError, AttributeError, TypeError) as e:
                if os.environ.get('CXX2WHY_TRACE'): traceback.print_exc()
                self.failures.append((f.q, 'translator cannot handle the source: %r at %s' % (e, traceback.format_exc().strip().splitlines()[-3].strip())))
        for c in u.classes:
            if c in tu.classes:
                model.wtype(('cls', c))
        try:
            recs = model.records()
        except ExtractionError as e:
            for f in u.fns:
                self.failures.append((f.q, str(e)))
            return
        uses = '\n'.join('  use %s' % t for t in u.theories)
        cx = lambda *ts: uses_for('\n'.join(ts + (u.prelude, '\n'.join(recs))))
        un = 'unit_' + u.name
        pre = 'module Types\n%s%s\n%s\nend\nmodule Prelude\n%s%s\n  use export Types\n%s\nend\n' % (
            cx(), uses, '\n'.join('  ' + r for r in recs), cx(), uses, u.prelude)
        with open(os.path.join(self.work, un + '.mlw'), 'w') as f:
            f.write(pre)
        if re.search(r'\b(lemma|goal|let)\b', u.prelude):
            self.jobs.append(Job(un, pre, kind='prelude'))
        for f, tr, text, vals in done:
            head = 'module F\n%s%s\n  use %s.Prelude\n\n%s\n\n' % (cx(text, *vals), uses, un, '\n\n'.join(vals))
            self.jobs.append(Job('%s.%s' % (u.name, f.why), head + text + 'end\n'))
            self.jobs[-1].fn = f
            self.jobs[-1].tr = tr
            smoke = self.smoke(tr, text)
            j = Job('%s.%s.smoke' % (u.name, f.why), head + smoke + 'end\n', kind='smoke',
                    strategy=[('z3', 1), ('cvc5', 1)])
            j.fn = f
            if f.reachable:
                self.jobs.append(j)
            self.newbase['%s.%s' % (u.name, f.why)] = {
                'params': [p.get('name') for p in params(f.node)],
                'locals': [[c, t] for c, t, w in tr.locals]}
            self.translated.append((f, tr))

    def smoke(self, tr, text):
        """Same body and preconditions, postcondition false."""
        i = text.index('\n= ')
        head, rest = text[:i], text[i:]
        head = drop_clauses(head, 'ensures')
        return head + '\n  ensures { [@expl:smoke] false }' + rest


_MODS = None


def cxx_modules():
    """Declared names of each module of the C++ model."""
    global _MODS
    if _MODS is None:
        mods = {}
        s = open(os.path.join(ROOT, 'theory', 'cxx.mlw')).read()
        for m in re.finditer(r'^module (\w+)\n(.*?)^end', s, re.S | re.M):
            mods[m.group(1)] = set(re.findall(r'^  (?:let|val|function|predicate|type|exception)\s+(?:(?:function|predicate|constant|ghost|rec|lemma)\s+)*(\w+)', m.group(2), re.M))
        _MODS = mods
    return _MODS


def uses_for(text):
    """`use` clauses for exactly the parts of the model that the text mentions."""
    words = set(re.findall(r'\w+', text))
    out = ['  use int.Int', '  use seq.Seq']
    for m, names in cxx_modules().items():
        if m in ('Base', 'Vec') or names & words and not m.startswith('IntsImpl'):
            out.append('  use cxx.' + m)
    if re.search(r'\breal\b|[-+*<>=]\.', text):
        out.append('  use real.RealInfix')
    if 'Abs.' in text:
        out.append('  use real.Abs as Abs')
    if 'Fset.' in text:
        out.append('  use set.Fset as Fset')
    return '\n'.join(out) + '\n'


def drop_clauses(s, word):
    out, i = '', 0
    while True:
        m = re.compile(r'\b%s\s*\{' % word).search(s, i)
        if not m:
            return out + s[i:]
        out += s[i:m.start()]
        d, k = 1, m.end()
        while d:
            if s[k] == '{':
                d += 1
            elif s[k] == '}':
                d -= 1
            k += 1
        i = k


def scan_assumptions(files):
    """Every val / axiom / assume / any of the theories used."""
    out = []
    for f in files:
        s = open(f).read()
        s = re.sub(r'\(\*.*?\*\)', '', s, flags=re.S)
        for m in re.finditer(r'\b(val(?:\s+(?:function|predicate|constant|ghost))?|axiom)\s+(\(?[\w=+<>\[\].]+\)?)', s):
            out.append('%s:%s %s' % (os.path.basename(f), m.group(1).split()[0], m.group(2)))
        n = len(re.findall(r'\bassume\b', s))
        if n:
            out.append('%s: %d assume statements' % (os.path.basename(f), n))
    return out


class Harness(threading.Thread):
    """Bounded search on the real code: compiled from /repo on every run."""
    def __init__(self, pid, src, work, seed, tier, budget):
        super().__init__()
        self.pid, self.src, self.work = pid, src, work
        self.seed, self.tier, self.budget = seed, tier, budget
        self.error = None
        self.fails = []
        self.stats = {}
        self.known = []

    def run(self):
        exe = os.path.join(self.work, 'harness')
        cmd = ['g++', '-std=c++11', '-O1', '-include', 'functional', '-I', os.path.join(REPO, 'include'), '-I',
               os.path.join(ROOT, 'harness'), '-o', exe, self.src, '-lpthread']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            self.error = 'harness does not compile against the current source:\n' + p.stdout.decode()[-3000:]
            return
        self.search(self.budget)

    def search(self, budget, extra=()):
        exe = os.path.join(self.work, 'harness')
        scratch = os.path.join(self.work, 'hscratch')
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run([exe, '--seed', str(self.seed), '--budget', str(budget), '--tier', self.tier] + list(extra),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch, timeout=budget * 3 + 120)
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode(errors='replace')
            self.parse(out)
            cases = [l[5:] for l in out.splitlines() if l.startswith('CASE ')]
            self.fails.append('the code under test does not terminate; last case: %s' % (cases[-1] if cases else '?'))
            return
        out = p.stdout.decode(errors='replace')
        self.parse(out)
        if p.returncode < 0 or p.returncode not in (0, 1):
            cases = [l[5:] for l in out.splitlines() if l.startswith('CASE ')]
            err = p.stderr.decode(errors='replace').strip()[-300:]
            self.fails.append('the code under test crashed (exit %d %s); last case: %s' % (p.returncode, err, cases[-1] if cases else '?'))

    def parse(self, out):
        for l in out.splitlines():
            if l.startswith('FAIL '):
                self.fails.append(l[5:])
            elif l.startswith('STAT '):
                k, v = l[5:].split('=', 1)
                try:
                    self.stats[k] = self.stats.get(k, 0) + int(v)
                except ValueError:
                    self.stats.setdefault(k, v)


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mkbase = '--baseline' in argv
    keep = '--keep' in argv
    only = [a[7:] for a in argv if a.startswith('--only=')]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    if keep:
        shutil.rmtree(work)
        work = '/tmp/vp_' + pid
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
    try:
        return check(pid, tier, seed, mkbase, work, t0, only, '-v' in argv)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, mkbase, work, t0, only, verbose):
    prop = importlib.import_module('contracts.' + pid.lower())
    baseline = json.load(open(BASE)) if os.path.exists(BASE) else {}
    for f in os.listdir(os.path.join(ROOT, 'theory')):
        if f.endswith('.mlw'):
            shutil.copy(os.path.join(ROOT, 'theory', f), work)
    hz = None
    hsrc = os.path.join(ROOT, 'harness', pid + '.cc')
    if os.path.exists(hsrc) and not only and not mkbase:
        hz = Harness(pid, hsrc, work, seed, tier, getattr(prop, 'BUDGET', 20) * (1 if tier == 'quick' else 6))
        hz.start()
    exs = []

    def ex1(u):
        e = Extraction(u, work, baseline)
        e.run()
        return e
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as tp:
        exs = list(tp.map(ex1, prop.UNITS))
    jobs, failures, newbase = [], [], {}
    for e in exs:
        jobs += e.jobs
        failures += e.failures
        newbase.update(e.newbase)
    if mkbase:
        baseline.update(newbase)
        json.dump(baseline, open(BASE, 'w'), indent=0, sort_keys=True)
        for f in failures:
            print('FAILED', f)
        return 0
    thy = list(getattr(prop, 'THEORIES', []))
    if 'cxx' not in thy:
        thy.insert(0, 'cxx')
    for t in thy:
        jobs.append(Job('theory_' + t, open(os.path.join(ROOT, 'theory', t + '.mlw')).read(), kind='theory'))
    if only:
        jobs = [j for j in jobs if any(re.search(o, j.name) for o in only)]
    deadline = t0 + (getattr(prop, 'DEADLINE', 600) if tier == 'quick' else 3000)
    if os.environ.get('CXX2WHY_DEADLINE'):          # development only
        deadline = t0 + float(os.environ['CXX2WHY_DEADLINE'])
    pr = Prover(work, jobs, deadline=deadline, strategy=getattr(prop, 'STRATEGY', QUICK))
    if hz:
        # a failing input settles the verdict: the proof attempt is cut short
        kn = known_findings(pid)
        pr.cut = lambda: not hz.is_alive() and any(not any(re.search(rx, f) for rx, d in kn) for f in hz.fails)
    pr.run()
    obligations, discharged, per = 0, 0, {}
    undis, vac, errs = [], [], []
    for j in jobs:
        if j.error:
            if j.kind in ('theory',):
                errs.append('%s: %s' % (j.name, j.error.strip()[-800:]))
            elif j.kind != 'smoke':
                failures.append((j.name, 'generated WhyML rejected: ' + j.error.strip()[-600:]))
            continue
        if j.kind == 'smoke':
            sm = [t for t in j.tasks if 'smoke' in t.expl]
            if sm and all(t.status == 'valid' for t in sm):
                vac.append(j.name)
            continue
        if j.kind == 'function' and not j.tasks:
            pass
        for t in j.tasks:
            obligations += 1
            if t.status == 'valid':
                discharged += 1
                per[t.solver] = per.get(t.solver, 0) + 1
            else:
                (errs if j.kind == 'theory' else undis).append(t if j.kind != 'theory' else 'lemma not proved: %s (%s) %s' % (t.name, t.loc, t.tried))
    if verbose or only:
        for j in jobs:
            print('%-40s %3d tasks %3d valid %s' % (j.name, len(j.tasks), sum(t.status == 'valid' for t in j.tasks), 'ERROR ' + j.error if j.error else ''))
            if j.kind != 'smoke':
                for t in j.tasks:
                    if t.status != 'valid' or t.time > 8:
                        print('     %s %s %s %.1fs %s' % (t.status, t.name, t.loc, t.time, t.tried[-1:]))
        for f in failures:
            print('EXTRACTION', f)
    if hz:
        hz.join()
    return verdict(prop, pid, tier, seed, work, t0, exs, jobs, failures, undis, vac, errs, obligations, discharged, per, pr, hz)


def verdict(prop, pid, tier, seed, work, t0, exs, jobs, failures, undis, vac, errs, obligations, discharged, per, pr, hz):
    code = 0
    lines = []
    known = known_findings(pid)
    fails = []
    hits = set()
    if hz:
        for f in hz.fails:
            k = [d for rx, d in known if re.search(rx, f)]
            if k:
                hits.add(k[0])
            else:
                fails.append(f)
    rd = os.path.join(ROOT, 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s.txt' % pid)
    violations = 0
    # when an obligation fails or the code left the translator's reach look harder for a concrete input
    if hz and not hz.error and not fails and (undis or failures):
        left = 780 - (time.time() - t0)
        if left > 30:
            hz.seed += 1000
            hz.search(min(left / 3, getattr(prop, 'BUDGET', 20) * 5), ['--deep', '1'])
            for f in hz.fails:
                if not any(re.search(rx, f) for rx, d in known):
                    fails.append(f)
    body = []
    if undis:
        body.append('Failed obligations (generated from the current source, not discharged by any solver):')
        for t in undis:
            body.append('  %s   [%s, line %s of the generated file]' % (t.name, t.job.name, t.loc))
            src = (t.job.text.splitlines() or [''])
            try:
                body.append('      ' + src[int(t.loc.split(':')[1]) - 1].strip()[:400])
            except (ValueError, IndexError):
                pass
            body.append('      solvers: ' + '; '.join(t.tried))
    if failures:
        body.append('Functions outside the reach of the verifier in the current source (bounded stand-in decides):')
        for q, m in failures:
            body.append('  %s: %s' % (q, m))
    if fails:
        violations = len(fails)
        body.insert(0, 'Failing inputs on the real code (seed %d):' % seed)
        body[1:1] = ['  ' + f for f in fails[:50]] + ['Re-run: g++ -std=c++11 -O1 -include functional -I /repo/include -I /verif/harness /verif/harness/%s.cc && ./a.out --seed %d' % (pid, seed), '']
        open(rp, 'w').write('\n'.join(body) + '\n')
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    elif undis:
        violations = len(undis)
        open(rp, 'w').write('\n'.join(body) + '\n')
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        code = 1
    for d in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    if errs or vac:
        for e in errs:
            print('ERROR', e, file=sys.stderr)
        for v in vac:
            print('ERROR vacuous contract: false is provable in', v, file=sys.stderr)
        if code == 0:
            code = 2
    if hz and hz.error and code == 0:
        if failures:
            print('ERROR', hz.error, file=sys.stderr)
            code = 2
        else:
            print('note: bounded harness unavailable: %s' % hz.error.splitlines()[-1][:200])
    if code == 0 and obligations == 0 and not failures:
        print('ERROR no obligations', file=sys.stderr)
        code = 2
    assum = list(getattr(prop, 'ASSUMPTIONS', []))
    thyfiles = [os.path.join(ROOT, 'theory', t + '.mlw') for t in (['cxx'] + [x for x in getattr(prop, 'THEORIES', []) if x != 'cxx'])]
    scanned = scan_assumptions(thyfiles)
    trusted_fns, contracts, inlined = [], [], set()
    for e in exs:
        for f in e.unit.fns:
            if f.trusted:
                trusted_fns.append('%s (%s): %s' % (f.q, e.unit.name, f.reason))
        for f, tr in e.translated:
            js = [j for j in jobs if getattr(j, 'fn', None) is f and j.kind == 'function']
            n = sum(len(j.tasks) for j in js)
            contracts.append('%s [%s]: %d obligations%s' % (f.q, e.unit.name, n, ' (partial correctness: termination not claimed)' if tr.diverges or f.diverges else ''))
            inlined.update(tr.inlined)
        if re.search(r'\baxiom\b', e.unit.prelude):
            assum.append('axioms in the prelude of unit %s' % e.unit.name)
    assum += ['assumed (not proved) contract of repository function ' + t for t in trusted_fns]
    assum += ['assumed: ' + s for s in scanned]
    assum += ['extraction drops: ' + d for d in DROPPED]
    assum += ['trusted: clang 18 AST, the cxx2why translation, Why3 1.6.0 VC generation, the SMT/ATP solvers']
    bounded = bool(failures)
    level = getattr(prop, 'LEVEL', 'proof')
    cov = {'obligations': obligations, 'discharged': discharged,
           'checker_cmd': 'python3 -m cxx2why.run %s (clang AST of /repo -> WhyML -> why3 prove split_vc -> z3/cvc5/E portfolio)' % pid,
           'trusted_base': ['clang 18', 'cxx2why', 'Why3 1.6.0', 'Z3 4.8.12 / 5.3.2', 'cvc5 1.1.2', 'E 2.6'],
           'functions_under_contract': contracts, 'inlined_functions': sorted(inlined),
           'discharged_by_back_end': per, 'solver_time_s': round(pr.solver_time, 1),
           'vacuity_checks': sum(1 for j in jobs if j.kind == 'smoke'), 'vacuous': vac,
           'not_extracted': ['%s: %s' % x for x in failures],
           'undischarged': ['%s %s' % (t.name, t.loc) for t in undis]}
    if hz:
        cov['bounded_stand_in'] = dict(hz.stats, note='bounded search on the real code; never counted as proved', error=hz.error or '')
    if bounded and code == 0:
        level = 'other'
        cov['explanation'] = ('parts of the current source could not be extracted, so this run decided them only by the '
                              'bounded stand-in; this is not a proof')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': assum, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if code == 0:
        print('OK property=%s obligations=%d discharged=%d functions=%d%s wall=%.1fs' % (
            pid, obligations, discharged, len(contracts), ' BOUNDED-ONLY-PARTS=%d' % len(failures) if failures else '', time.time() - t0))
    return code


if __name__ == '__main__':
    sys.path.insert(0, ROOT)
    sys.exit(main(sys.argv[1:]))
