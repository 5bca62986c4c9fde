"""Why3 driver: one VC task file per obligation, discharged by a portfolio of
solvers run in parallel."""
import os, re, subprocess, time, threading, queue, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

CONF = '''[main]
magic = 14
memlimit = 2000
running_provers_max = 1
timelimit = 5.0

[partial_prover]
name = "CVC5"
path = "%(d)s_cvc5"
version = "1.1.2"

[partial_prover]
name = "Z3"
path = "%(d)s_z3"
version = "4.8.12"

[partial_prover]
name = "Eprover"
path = "%(d)s_e"
version = "2.6"

[prover]
name = "Z3mono"
version = "4.8.12"
alternative = ""
command = "%(d)s_z3 %%f"
driver = "%(drv)s"
editor = ""
in_place = false
interactive = false
'''

# Why3's Z3 driver, except that polymorphic symbols are instantiated at every
# type of the task instead of the types of the goal only
DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'theory', 'driver', 'z3mono.drv')

# stands in for a prover: keeps the task Why3 hands to it
DUMP = '''#!/bin/sh
for f in "$@"; do :; done
cp "$f" "$CXX2WHY_DUMP/$(date +%s%N)"
echo unknown
'''

# task formats: driver and extra transformations
FORMAT = {'z3': ('Z3,4.8.12', []), 'm': ('Z3mono,4.8.12', []), 'cvc5': ('CVC5,1.1.2', []), 'e': ('Eprover,2.6', []),
          'in': ('Z3,4.8.12', ['-a', 'inline_goal'])}
PRUNED = {'p': 'z3', 'mp': 'm', 'inp': 'in', 'sp': 'in'}
Z3 = lambda f, t: ['/usr/bin/z3', '-smt2', '-T:%d' % t, '-memory:3500', 'sat.random_seed=42', 'nlsat.randomize=false',
                   'smt.random_seed=42', f]
Z3S = lambda f, t: ['/usr/bin/z3', '-smt2', '-T:%d' % t, '-memory:3500', 'smt.random_seed=7', 'smt.arith.solver=2', f]
Z3NEW = lambda f, t: ['/usr/local/bin/z3-new', '-smt2', '-T:%d' % t, '-memory:3500', f]
CVC5 = lambda f, t: ['/usr/bin/cvc5', '--tlimit=%d000' % t, f]
CVC5E = lambda f, t: ['/usr/bin/cvc5', '--tlimit=%d000' % t, '--enum-inst', f]
EPROVER = lambda f, t: ['/usr/bin/eprover', '-s', '-R', '-xAuto', '-tAuto', '--cpu-limit=%d' % t, '--memory-limit=3000',
                        '--tstp-in', f]
SOLVER = {
    'z3': ('z3', 'Z3 4.8.12', Z3), 'z3p': ('p', 'Z3 4.8.12', Z3), 'z3i': ('in', 'Z3 4.8.12', Z3),
    'z3ip': ('inp', 'Z3 4.8.12', Z3),
    'z3s': ('z3', 'Z3 4.8.12', Z3S), 'z3q': ('p', 'Z3 4.8.12', Z3S), 'z3iq': ('inp', 'Z3 4.8.12', Z3S),
    'z3new': ('z3', 'Z3 5.3.2', Z3NEW), 'z3newp': ('p', 'Z3 5.3.2', Z3NEW), 'z3newip': ('inp', 'Z3 5.3.2', Z3NEW),
    'cvc5': ('cvc5', 'cvc5 1.1.2', CVC5), 'cvc5p': ('p', 'cvc5 1.1.2', CVC5), 'cvc5ip': ('inp', 'cvc5 1.1.2', CVC5),
    'cvc5e': ('cvc5', 'cvc5 1.1.2', CVC5E), 'cvc5ep': ('p', 'cvc5 1.1.2', CVC5E),
    'e': ('e', 'E 2.6', EPROVER),
    'z3sp': ('sp', 'Z3 4.8.12', Z3), 'cvc5sp': ('sp', 'cvc5 1.1.2', CVC5), 'z3newsp': ('sp', 'Z3 5.3.2', Z3NEW),
    'z3m': ('m', 'Z3 4.8.12', Z3), 'z3mp': ('mp', 'Z3 4.8.12', Z3), 'cvc5mp': ('mp', 'cvc5 1.1.2', CVC5), 'cvc5m': ('m', 'cvc5 1.1.2', CVC5), 'z3newmp': ('mp', 'Z3 5.3.2', Z3NEW),
    'z3ssp': ('sp', 'Z3 4.8.12', Z3S),
}
QUICK = [('z3p', 1), ('cvc5mp', 1), ('z3mp', 1), ('cvc5p', 2), ('z3', 2), ('z3mp', 2), ('cvc5mp', 3), ('z3sp', 2), ('cvc5sp', 3), ('z3p', 4), ('e', 4), ('cvc5', 4), ('z3newsp', 3),
         ('z3newp', 4), ('z3newip', 4), ('z3mp', 6), ('cvc5mp', 6), ('z3newmp', 6), ('z3q', 8), ('z3sp', 8), ('cvc5sp', 8), ('cvc5p', 10), ('cvc5ip', 10), ('z3', 12),
         ('z3i', 12), ('cvc5', 15), ('z3newsp', 15), ('e', 20), ('z3s', 20), ('cvc5e', 20), ('z3sp', 40),
         ('cvc5sp', 40), ('z3p', 40), ('cvc5p', 40), ('z3new', 40)]


def sexprs(s):
    """Top-level s-expressions of an SMT-LIB file, comments dropped."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        if c.isspace():
            i += 1
            continue
        d, k, q = 0, i, False
        while k < n:
            ch = s[k]
            if ch == ';' and not q:
                k = s.find('\n', k)
                if k < 0:
                    k = n
                continue
            if ch == '|':
                q = not q
            if not q:
                if ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0:
                        k += 1
                        break
            k += 1
        out.append(s[i:k])
        i = k
    return out


def prune(src, dst):
    """Drop the polymorphic instances of the axioms (dropping hypotheses is
    always sound); the monomorphic ones usually suffice and are much easier."""
    out = ['(set-logic ALL)']
    for e in sexprs(open(src).read()):
        if e.startswith('(assert') and re.search(r'\bt2tb\w*|\(\w+ ty\)', e):
            continue
        if e.startswith('(set-logic'):
            continue
        out.append(e)
    with open(dst, 'w') as f:
        f.write('\n'.join(out) + '\n')


def parse(s):
    """s-expression -> nested lists of tokens"""
    toks = re.findall(r'\|[^|]*\||"[^"]*"|[()]|[^\s()]+', re.sub(r';[^\n]*', '', s))
    stack = [[]]
    for t in toks:
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0][0]


def show(x):
    return x if isinstance(x, str) else '(' + ' '.join(map(show, x)) + ')'


def rename(x, m):
    if isinstance(x, str):
        return m.get(x, x)
    return [rename(y, m) for y in x]


def split_goal(g, cmds, fresh, depth=0):
    """Goal -> list of (extra commands, goal) whose joint validity gives g."""
    if isinstance(g, list) and g and depth < 12:
        if g[0] == 'and':
            return [r for x in g[1:] for r in split_goal(x, cmds, fresh, depth + 1)]
        if g[0] == '=>' and len(g) == 3:
            return split_goal(g[2], cmds + ['(assert %s)' % show(g[1])], fresh, depth + 1)
        if g[0] == 'ite' and len(g) == 4:
            return (split_goal(g[2], cmds + ['(assert %s)' % show(g[1])], fresh, depth + 1)
                    + split_goal(g[3], cmds + ['(assert (not %s))' % show(g[1])], fresh, depth + 1))
        if g[0] == 'forall':
            m, c = {}, []
            for v, t in g[1]:
                fresh[0] += 1
                m[v] = 'sk!%d' % fresh[0]
                c.append('(declare-fun %s () %s)' % (m[v], show(t)))
            return split_goal(rename(g[2], m), cmds + c, fresh, depth + 1)
        if g[0] == '!' :
            return split_goal(g[1], cmds, fresh, depth + 1)
    return [(cmds, g)]


def split_file(src):
    """Files src.k, one per conjunct of the (negated) goal of src."""
    es = sexprs(open(src).read())
    k = max(i for i, e in enumerate(es) if e.startswith('(assert'))
    g = parse(es[k])[1]
    if not (isinstance(g, list) and g[0] == 'not'):
        return [src]
    out = []
    for n, (cmds, goal) in enumerate(split_goal(g[1], [], [0])):
        f = '%s.%d' % (src, n)
        with open(f, 'w') as h:
            h.write('\n'.join(es[:k] + cmds + ['(assert (not %s))' % show(goal)] + es[k + 1:]) + '\n')
        out.append(f)
    return out


class Task:
    def __init__(self, job, idx, expl, goal, loc):
        self.job, self.idx, self.expl, self.goal, self.loc = job, idx, expl, goal, loc
        self.files = {}
        self.status = 'open'
        self.solver = None
        self.time = 0.0
        self.stage = 0
        self.tried = []

    @property
    def name(self):
        return '%s: %s' % (self.goal, self.expl)


class Job:
    """One generated WhyML file."""
    def __init__(self, name, text, kind='function', expect='valid', strategy=None):
        self.name, self.text, self.kind, self.expect = name, text, kind, expect
        self.tasks = []
        self.error = None
        self.strategy = strategy
        self.path = None
        self.transforms = ['-a', 'split_vc']


class Prover:
    def __init__(self, work, jobs, cpus=None, deadline=None, strategy=QUICK, libdir=None):
        self.work = work
        self.libdir = libdir or work
        os.makedirs(work, exist_ok=True)
        self.conf = os.path.join(work, 'why3.conf')
        with open(self.conf, 'w') as f:
            f.write(CONF % {'d': os.path.join(work, 'dump'), 'drv': DRIVER})
        for k in ('z3', 'cvc5', 'e'):
            with open(os.path.join(work, 'dump_' + k), 'w') as f:
                f.write(DUMP)
            os.chmod(os.path.join(work, 'dump_' + k), 0o755)
        self.jobs = jobs
        self.cpus = cpus or min(8, os.cpu_count() or 4)
        self.deadline = deadline
        self.strategy = strategy
        self.lock = threading.Lock()
        self.solver_time = 0.0
        self.cut, self.early, self.failed = None, False, 0

    def dump(self, job, fmt):
        d = os.path.join(self.work, re.sub(r'\W', '_', job.name) + '.' + fmt)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ, CXX2WHY_DUMP=d)
        cmd = ['why3', '-C', self.conf, 'prove', '-L', self.libdir, '-P', FORMAT[fmt][0],
               ] + job.transforms + FORMAT[fmt][1] + ['-t', '5', job.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        out = p.stdout.decode() + p.stderr.decode()
        blocks = re.findall(r'(?:File "([^"]*)", line (\d+), character[^\n]*:\n)?(?:Sub-goal|Goal)\s+([^\n]*(?:\n(?!Prover)[^\n]*)*)\nProver result is: ([^\n]*)', out)
        files = sorted(os.listdir(d))
        if len(files) != len(blocks):
            raise RuntimeError('why3 on %s: %d tasks, %d results\n%s' % (job.name, len(files), len(blocks), out[-3000:]))
        return blocks, [os.path.join(d, f) for f in files], out, p.returncode

    def prepare(self, job):
        job.path = os.path.join(self.work, re.sub(r'\W', '_', job.name) + '.mlw')
        with open(job.path, 'w') as f:
            f.write(job.text)
        # type check first so that errors are recognisable
        cmd = ['why3', '-C', self.conf, 'prove', '-L', self.libdir, '--type-only', job.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = p.stderr.decode()
        if p.returncode != 0:
            job.error = err
            return
        blocks, files, out, rc = self.dump(job, 'z3')
        for i, ((f, line, what, res), path) in enumerate(zip(blocks, files)):
            what = re.sub(r'\s+', ' ', what)
            m = re.match(r"(.*) of goal ([^ ]*)\.$", what)
            if m:
                expl, goal = m.group(1), m.group(2)
            else:
                m = re.match(r"(.*?)'?\.?$", what)
                expl, goal = 'goal', what.rstrip('.')
            t = Task(job, i, expl, goal.replace("'vc", ''), '%s:%s' % (os.path.basename(f), line))
            t.files['z3'] = path
            job.tasks.append(t)

    def file(self, t, fmt):
        with t.job.lock:
            base = PRUNED.get(fmt, fmt)
            if base not in t.files:
                blocks, files, out, rc = self.dump(t.job, base)
                if len(files) != len(t.job.tasks):
                    raise RuntimeError('task count differs between formats in %s' % t.job.name)
                for x, f in zip(t.job.tasks, files):
                    x.files[base] = f
            if fmt == 'sp' and 'sp' not in t.files:
                if 'inp' not in t.files:
                    prune(t.files['in'], t.files['in'] + '.p')
                    t.files['inp'] = t.files['in'] + '.p'
                t.files['sp'] = split_file(t.files['inp'])
            if fmt not in t.files:
                prune(t.files[base], t.files[base] + '.p')
                t.files[fmt] = t.files[base] + '.p'
        return t.files[fmt]

    def attempt(self, t, solver, tlimit):
        fmt, label, cmd = SOLVER[solver]
        f = self.file(t, fmt)
        if fmt == 'sp':
            while t.files['sp']:
                if not self.solve(t, f[0], fmt, label, cmd, tlimit):
                    return False
                t.files['sp'].pop(0)
            t.status, t.solver = 'valid', label
            return True
        if self.solve(t, f, fmt, label, cmd, tlimit):
            t.status, t.solver = 'valid', label
            return True
        return False

    def solve(self, t, f, fmt, label, cmd, tlimit):
        t0 = time.time()
        try:
            p = subprocess.run(cmd(f, tlimit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tlimit + 5)
            out = p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out = 'timeout'
        dt = time.time() - t0
        with self.lock:
            self.solver_time += dt
        t.time += dt
        if fmt == 'e':
            ok = 'SZS status Theorem' in out or 'SZS status Unsatisfiable' in out or 'SZS status ContradictoryAxioms' in out
        else:
            ok = bool(re.search(r'^unsat\b', out, re.M))
        first = (out.strip().splitlines() or [''])[0][:100]
        t.tried.append('%s/%ds: %s' % (label, tlimit, 'valid' if ok else first))
        return ok

    def run(self):
        for j in self.jobs:
            j.lock = threading.Lock()
        # generate
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(self.cpus) as ex:
            list(ex.map(self.prepare, self.jobs))
        q = queue.PriorityQueue()
        n = 0
        pend = 0
        for j in self.jobs:
            for t in j.tasks:
                if j.kind == 'smoke' and 'smoke' not in t.expl:
                    continue
                q.put((0, n, t))
                n += 1
                pend += 1
        state = {'pend': pend, 'n': n}
        cond = threading.Condition()

        def worker():
            while True:
                with cond:
                    while True:
                        if state['pend'] == 0:
                            return
                        try:
                            pr, _, t = q.get_nowait()
                            break
                        except queue.Empty:
                            cond.wait(0.2)
                strat = t.job.strategy or self.strategy
                done = False
                if self.cut and not self.early and self.cut():
                    self.early = True
                    self.deadline = min(self.deadline or 1e18, time.time() + 10)
                if self.deadline and time.time() > self.deadline:
                    done = True
                    t.tried.append('deadline reached')
                else:
                    s, lim = strat[t.stage]
                    try:
                        done = self.attempt(t, s, lim)
                    except Exception as e:   # a crashed attempt is not an answer
                        t.tried.append('error: %s' % e)
                    t.stage += 1
                    if not done and t.stage >= len(strat):
                        done = True
                with cond:
                    if done:
                        if t.status == 'open':
                            t.status = 'unknown'
                            if t.job.kind != 'smoke':
                                self.failed += 1
                                if self.failed >= 3 and self.deadline and t.stage >= len(strat):
                                    # the verdict is settled; do not spend the rest of the time
                                    self.deadline = min(self.deadline, time.time() + 20)
                        state['pend'] -= 1
                    else:
                        state['n'] += 1
                        q.put((t.stage, state['n'], t))
                    cond.notify_all()
        ths = [threading.Thread(target=worker) for _ in range(self.cpus)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()


if __name__ == '__main__':
    import sys
    work = '/tmp/sp/work'
    jobs = [Job(os.path.basename(f)[:-4], open(f).read()) for f in sys.argv[1:]]
    t0 = time.time()
    p = Prover(work, jobs, libdir=os.path.join(ROOT, 'theory'))
    p.run()
    for j in jobs:
        if j.error:
            print(j.name, 'ERROR', j.error)
        print(j.name, len(j.tasks), 'tasks', sum(t.status == 'valid' for t in j.tasks), 'valid')
        for t in j.tasks:
            if t.status != 'valid' or t.stage > 5:
                print('  ', t.status, t.name, t.loc, t.tried[-3:])
    print('wall', time.time() - t0)
