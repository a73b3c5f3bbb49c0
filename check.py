#!/usr/bin/env python3
"""Decide one property by symbolic execution of the current /repo tree.

usage: check.py PROPERTY_ID [--thorough] [--keep DIR]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, reproduced natively.
Exit 2: the check itself could not run.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
H = os.path.join(HERE, 'harness')
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS

T0 = time.time()
TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1'))
NPROC = 8


# what gcc 13, which builds the library, only warns about
LAX = ['-Wno-error=' + w for w in ('implicit-function-declaration', 'int-conversion', 'implicit-int',
                                   'incompatible-function-pointer-types', 'incompatible-pointer-types', 'return-type')]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def sources():
    """The library's C sources, as the build lists them."""
    t = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'libmpi_serial_a_SOURCES\s*=(.*)', t)
    names = sorted(set(x for x in (m.group(1).split() if m else []) if x.endswith('.c')))
    names = [n for n in names if os.path.exists(os.path.join(REPO, n))]
    if not names:
        names = sorted(n for n in os.listdir(REPO) if n.endswith('.c'))
    return names


class Build:
    def __init__(self, work):
        self.work = work
        self.lib = {}
        self.nat = {}
        self.pool = ThreadPoolExecutor(NPROC)

    def flags(self, defs):
        return ['-DHAVE_CONFIG_H', '-I' + os.path.join(H, 'cfg'), '-I' + REPO, '-I' + H] + list(defs)

    def libbc(self, defs):
        key = tuple(defs)
        if key in self.lib:
            return self.lib[key]
        d = os.path.join(self.work, 'bc%d' % len(self.lib))
        os.makedirs(d, exist_ok=True)

        def one(n):
            o = os.path.join(d, n[:-2] + '.bc')
            must(['clang', '-O0', '-g', '-w'] + LAX + ['-emit-llvm', '-c'] + self.flags(defs) +
                 [os.path.join(REPO, n), '-o', o])
            return o
        objs = list(self.pool.map(one, sources()))
        o = os.path.join(d, 'libc_model.bc')
        must(['clang', '-O0', '-g', '-w', '-fno-builtin', '-emit-llvm', '-c', os.path.join(H, 'libc.c'), '-o', o])
        self.lib[key] = objs + [o]
        return self.lib[key]

    def bitcode(self, harness, defs, libdefs, extra):
        o = os.path.join(self.work, 'h_%s.bc' % hashlib.sha1(repr((harness, defs, libdefs)).encode()).hexdigest()[:10])
        src = harness if os.path.isabs(harness) else os.path.join(H, harness)
        must(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c'] +
             self.flags(list(defs) + list(libdefs)) + extra + [src, '-o', o])
        must(['opt', '-passes=mem2reg', o, '-o', o])   # the harness only; the library stays as it is
        out = o[:-3] + '.all.bc'
        must(['llvm-link', '-o', out, o] + self.libbc(libdefs))
        return out

    def native(self, harness, defs, libdefs, init, extra, asan=True):
        key = (harness, tuple(defs), tuple(libdefs), init, asan)
        if key in self.nat:
            return self.nat[key]
        lk = ('lib', tuple(libdefs), init, asan)
        cc = ['gcc', '-O1', '-g', '-w', '-ftrivial-auto-var-init=' + init] + (['-fsanitize=address'] if asan else [])
        if lk not in self.nat:
            d = os.path.join(self.work, 'nat%d' % len(self.nat))
            os.mkdir(d)

            def one(n):
                o = os.path.join(d, os.path.basename(n)[:-2] + '.o')
                must(cc + ['-c'] + self.flags(libdefs) + [n, '-o', o])
                return o
            self.nat[lk] = list(self.pool.map(one, [os.path.join(REPO, n) for n in sources()] +
                                              [os.path.join(H, 'sx_native.c')]))
        out = os.path.join(self.work, 'n%d' % len(self.nat))
        src = harness if os.path.isabs(harness) else os.path.join(H, harness)
        must(cc + self.flags(list(defs) + list(libdefs)) + extra + [src] + self.nat[lk] +
             ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-o', out])
        self.nat[key] = out
        return out


def replay(binary, infile, work, fill, tag, timeout=20):
    """Run one input file natively.  Returns (status, outcome lines)."""
    o = os.path.join(work, 'out_%s' % tag)
    env = dict(os.environ, SX_IN=infile, SX_OUT=o, SX_FILL=str(fill),
               ASAN_OPTIONS='exitcode=67:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1')
    d = os.path.join(work, 'cwd_%s' % tag)
    os.makedirs(d, exist_ok=True)
    try:
        r = subprocess.run([binary], env=env, cwd=d, timeout=timeout, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, errors='replace', text=True)
        st, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        st, err = 'timeout', ''
    lines = open(o, errors='replace').read().splitlines() if os.path.exists(o) else []
    return st, lines, err


def unresolved(bc):
    out = must(['llvm-nm', '-u', bc])
    return sorted(x for x in out.split() if x.lower().startswith('mpi_'))


def bad(st):
    return st in (66, 67, 'timeout') or (isinstance(st, int) and st < 0)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    P = PROPS[pid]
    must(['bash', os.path.join(HERE, 'sx', 'build.sh')])
    work = tempfile.mkdtemp(prefix='sxcheck_')
    try:
        return run(pid, P, work)
    finally:
        if '--keep' in sys.argv:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, P, work):
    B = Build(work)
    jobs = []
    tierdefs = ['-DTHOROUGH=1'] if TIER == 'thorough' else []
    for r in P['runs']:
        if r.get('tier') and r['tier'] != TIER:
            continue
        for case in r.get('cases', [0]):
            jobs.append((r, case))
    gen = {}
    for r, case in jobs:
        if r.get('gen') and r['gen'] not in gen:
            gen[r['gen']] = __import__(r['gen']).generate(REPO, work, must)
    skipped = sorted(set('%s case %s' % (r['harness'], c) for r, c in jobs if r.get('gen') and gen[r['gen']] is None))
    jobs = [(r, c) for r, c in jobs if not (r.get('gen') and gen[r['gen']] is None)]
    bcs = {}

    def bc_for(r):
        defs = list(r.get('defs', [])) + tierdefs
        lib = list(r.get('lib', []))
        k = (r['harness'], tuple(defs), tuple(lib))
        if k not in bcs:
            bcs[k] = B.bitcode(r['harness'], defs, lib, gen.get(r.get('gen'), []))
        return bcs[k]
    nobuild = []
    for r, case in list(jobs):
        try:
            bc = bc_for(r)
            if r.get('must_build'):
                un = unresolved(bc)
                if un:
                    raise Broken('not in the library: ' + ' '.join(un))
        except Broken as e:
            if r.get('must_build'):     # the configuration is documented: not building it is the violation
                bc = B.bitcode(r['harness'], list(r.get('defs', [])) + tierdefs, [], gen.get(r.get('gen'), []))
                if unresolved(bc):
                    raise
                nobuild.append((r, str(e)))
                break
            if not r.get('optional'):   # a harness of an internal interface that has changed
                raise
            skipped.append('%s: does not compile against the current tree' % r['harness'])
            jobs = [j for j in jobs if j[0] is not r]
    skipped = sorted(set(skipped))
    if nobuild:
        r, text = nobuild[0]
        dst = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(dst, exist_ok=True)
        rp = os.path.join(dst, '%s_build.txt' % pid)
        with open(rp, 'w') as g:
            g.write('# the library does not compile with %s\n%s\n' % (' '.join(r['lib']), text))
        print('  the library compiles, but not with %s' % ' '.join(r['lib']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if not jobs:
        raise Broken('nothing to run: %s' % skipped)

    cap = 3000 if TIER == 'thorough' else 500
    found = []

    def go(job):
        i, (r, case) = job
        out = os.path.join(work, 'run%d' % i)
        # a quick check answers within its time whatever the code: what is cut is reported as incomplete
        left = (700 if TIER == 'quick' else 10800) - (time.time() - T0)
        if found:
            left = min(left, 1 if os.environ.get('SX_FAST') else 60)
        t = min(r.get('time', cap) if TIER == 'quick' else cap, max(5, left))
        cmd = [os.path.join(HERE, 'sx', 'sx'), bc_for(r), '--out', out, '--case', str(case), '--time',
               str(t), '--samples', str(r.get('samples', 8))]
        if r.get('nsw'):
            cmd.append('--nsw')
        cmd += r.get('opts', [])
        if TIER == 'thorough':
            cmd += ['--dump-smt', '40']
        p = sh(cmd, timeout=cap + 600)
        try:
            st = json.load(open(os.path.join(out, 'stats.json')))
        except Exception:
            st = None
        if 'VIOL\t' in p.stdout:
            found.append(i)
        return p.returncode, p.stdout, st, out

    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(go, enumerate(jobs)))

    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, checks=0, discharged=0, trivial=0,
               terminated=0, assume_killed=0)
    solver = 0.0
    functions, covered = set(), set()
    viols, samples, incomplete, notes = [], [], ['not run: ' + x for x in skipped], []
    for (r, case), (rc, text, st, out) in zip(jobs, results):
        name = '%s%s case %s' % (r['harness'], ' ' + ' '.join(r.get('defs', []) + r.get('lib', [])) if r.get('defs') or r.get('lib') else '', case)
        if st is None:
            # ended from outside (memory ran out): what the other runs decided still stands
            if rc < 0 and any(x[2] for x in results):
                incomplete.append('%s: the executor was ended by signal %d' % (name, -rc))
                text = ''.join(l for l in text.splitlines(True) if l.startswith('VIOL\t') and l.endswith('\n'))
                st = {}
            else:
                raise Broken('executor failed on %s (exit %s)\n%s' % (name, rc, text[-3000:]))
        for k in tot:
            tot[k] += st.get(k, 0)
        solver += st.get('solver_s', 0)
        functions |= set(st.get('functions', []))
        covered |= set(st.get('covered', []))
        if st.get('incomplete'):
            incomplete.append('%s: %s' % (name, st.get('why', '')))
        for l in text.splitlines():
            f = l.split('\t')
            if f[0] == 'VIOL':
                viols.append((r, case, f[1], f[2], f[3], f[4]))
            elif f[0] == 'PATH':
                samples.append((r, case, f[1], f[2]))
        want = r.get('covers', [])
        if isinstance(want, dict):
            want = want.get(case, [])
        miss = [c for c in want if c not in st.get('covered', [])]
        if miss and st and not st.get('incomplete') and not st.get('violations'):
            notes.append('VACUOUS %s: never reached %s' % (name, miss))

    # Replay counterexamples on the real code.
    known = []
    kf = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    known.append(d)
    reported, knownhit, unrepro = [], set(), []
    seen = {}
    for i, (r, case, kind, msg, where, fn) in enumerate(viols):
        key = (r['harness'], case, kind, msg)
        if seen.get(key, 0) >= 1:
            continue
        if len(reported) >= 4:
            break
        defs = list(r.get('defs', [])) + tierdefs
        ex = gen.get(r.get('gen'), [])
        how = None
        for init, fill, asan in (('pattern', 0xA5, True), ('zero', 0, True), ('zero', 1, True), ('zero', 0xff, True), ('uninitialized', 0xA5, False)):
            b = B.native(r['harness'], defs, list(r.get('lib', [])), init, ex, asan)
            st, lines, err = replay(b, fn, work, fill, 'v')
            if bad(st):
                how = (init, fill, st, [x for x in lines if x.startswith(('failed', 'end'))], err[:1500])
                break
        if not how:
            unrepro.append((kind, msg, where, fn))
            continue
        seen[key] = 1
        k = [d for d in known if d['match'] in msg and d.get('harness', r['harness']) == r['harness']]
        if k:
            knownhit.add(k[0]['what'])
            continue
        dst = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(dst, exist_ok=True)
        rp = os.path.join(dst, '%s_%d.txt' % (pid, len(reported)))
        with open(rp, 'w') as g:
            g.write(open(fn).read())
            g.write('# harness %s defs %s lib %s\n# %s: %s\n# at %s\n# native replay: %r\n' %
                    (r['harness'], r.get('defs', []), r.get('lib', []), kind, msg, where, how))
        reported.append((kind, msg, where, rp))

    # Validate the encoding: sampled paths must do the same natively.
    validated, disagreements, written = 0, [], []
    lim = 200 if TIER == 'thorough' else 60
    step = max(1, len(samples) // lim)

    def val(x):
        i, (r, case, how, fn) = x
        b = B.native(r['harness'], list(r.get('defs', [])) + tierdefs, list(r.get('lib', [])), 'pattern', gen.get(r.get('gen'), []))
        st, lines, err = replay(b, fn, work, 0xA5, 's%d' % i)
        txt = open(fn).read().splitlines()
        mobs = [l for l in txt if l.startswith('obs ')]
        nobs = [l for l in lines if l.startswith('obs ')]
        end = [l for l in lines if l.startswith('end ')]
        def norm(o):
            p = o.split(' ', 2)
            return (int(p[1]) & ((1 << 64) - 1), p[2])
        ok = st == 0 and [norm(o) for o in mobs] == [norm(o) for o in nobs] and end and end[-1][4:] == how
        return ok, (r['harness'], case, how, fn, st, mobs[:8], nobs[:8], end, err[-400:]), txt
    sel = samples[::step]
    if reported and os.environ.get('SX_FAST'):
        sel = []
    for r, case, how, fn in sel:   # build binaries first, one at a time
        B.native(r['harness'], list(r.get('defs', [])) + tierdefs, list(r.get('lib', [])), 'pattern', gen.get(r.get('gen'), []))
    with ThreadPoolExecutor(NPROC) as ex:
        for ok, d, txt in ex.map(val, enumerate(sel)):
            if ok:
                validated += 1
                if len(written) < 5:
                    written.append({'harness': d[0], 'case': d[1], 'path_end': d[2],
                                    'inputs': [l[3:] for l in txt if l.startswith('in ')][:24],
                                    'observed_both': [l[4:] for l in txt if l.startswith('obs ')][:12]})
            else:
                disagreements.append(d)
    cross = None
    if TIER == 'thorough':
        cross = crosscheck([o for _, _, _, o in results])
        if cross['disagree']:
            notes.append('SOLVERS DISAGREE on %d queries' % cross['disagree'])

    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['instructions'],
            'traces_validated_against_impl': validated,
            'samples': written or [{'note': 'no completed path was sampled'}],
            'path_forks': tot['forks'], 'paths_ending_in_termination': tot['terminated'],
            'paths_cut_by_assumptions': tot['assume_killed'],
            'assertions_checked': tot['checks'], 'assertions_discharged': tot['discharged'],
            'assertions_constant_folded': tot['trivial'],
            'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'],
            'solver_s': round(solver, 3),
            'functions_encoded': sorted(functions),
            'runs': ['%s case %s %s' % (r['harness'], c, ' '.join(r.get('defs', []) + r.get('lib', []))) for r, c in jobs],
            'exhaustive': not incomplete,
            'incomplete_runs': incomplete,
            'reached': sorted(covered),
            'bounds': P.get('bounds_thorough', P['bounds']) if TIER == 'thorough' else P['bounds'],
            'outside': P.get('outside', ''),
            'counterexamples_not_reproduced': ['%s: %s at %s' % u[:3] for u in unrepro],
            'sample_disagreements': [repr(d) for d in disagreements[:5]],
            'solver': 'z3 (in process)',
        },
        'assumptions': COMMON_ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(reported),
    }
    if cross:
        ev['coverage']['cross_checked'] = cross
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s [%s]: %d runs, %d paths, %d instructions, %d queries (%.1fs solver), %d/%d assertions discharged, %d samples validated, %.1fs'
          % (pid, TIER, len(jobs), tot['paths'], tot['instructions'], tot['queries'], solver, tot['discharged'],
             tot['checks'], validated, time.time() - T0))
    for w in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for x in incomplete:
        print('INCOMPLETE', x)
    for u in unrepro:
        print('NOT REPRODUCED %s: %s at %s' % u[:3])
        if '--keep' in sys.argv:
            print('   ', u[3])
    for d in disagreements:
        print('SAMPLE DISAGREEMENT', d)
    for n in notes:
        print(n)
    for kind, msg, where, rp in reported:
        print('  %s: %s\n    at %s' % (kind, msg, where))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if reported:
        return 1
    if notes or (disagreements and not incomplete and os.environ.get('SX_STRICT')):
        return 2
    return 0


def crosscheck(dirs):
    """Ask two other solvers the queries z3 answered (dumped in SMT-LIB)."""
    files = []
    for d in dirs:
        files += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.smt2')]
    files = files[:400]

    def one(f):
        m = re.search(r':status (\w+)', open(f).read())
        want = m.group(1) if m else '?'
        res = []
        for cmd in (['cvc5', '--tlimit=20000', f], ['z3-new', '-T:20', f]):
            r = sh(cmd)
            l = [x for x in r.stdout.split() if x in ('sat', 'unsat', 'unknown')]
            res.append(l[0] if l and '(error' not in r.stdout else 'inconclusive')
        return want, res, f
    n = dict(queries=len(files), agree=0, inconclusive=0, disagree=0)
    with ThreadPoolExecutor(NPROC) as ex:
        for want, res, f in ex.map(one, files):
            for x in res:
                if x == want:
                    n['agree'] += 1
                elif x in ('sat', 'unsat'):
                    n['disagree'] += 1
                    print('disagree', f, want, res)
                else:
                    n['inconclusive'] += 1
    return n


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as e:
        print('CHECK BROKEN:', e)
        rc = 2
    sys.exit(rc)
