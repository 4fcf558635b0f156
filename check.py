#!/usr/bin/env python3
"""Solver-based check of one property:  check.py <property-id> [--tier quick|thorough] [--case NAME] [-v]

Builds LLVM IR from /repo's current sources plus the property's harness, runs
the symbolic engine on every case of the property, replays every counterexample
natively against the real code, validates sampled paths natively, and writes
evidence/<id>.json.  Exit 0: held; 1: VIOLATION printed; 2: the check itself failed.
"""
import sys, os, re, json, subprocess, time, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
JOBS = 8
COMMON = ['-std=gnu++11', '-fwrapv', '-fno-strict-aliasing', '-fno-exceptions', '-fno-threadsafe-statics', '-w', '-Wno-c++11-narrowing', '-Wno-narrowing',
          '-ftrivial-auto-var-init=pattern', '-gline-tables-only',
          '-I' + REPO + '/src', '-I' + HERE + '/rt', '-I' + REPO + '/Arduino']
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-emit-llvm', '-c']
SAN = ['-O1', '-fsanitize=address,shift-exponent,integer-divide-by-zero,null,unreachable,return', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-c']
WRAP = ['-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=strdup']


class CheckError(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def must(cmd, what):
    rc, out = sh(cmd)
    if rc:
        raise CheckError('%s failed (%d): %s\n%s' % (what, rc, ' '.join(cmd), out[-3000:]))
    return out


class Case:
    def __init__(self, name, hfile, opts):
        self.name, self.hfile, self.opts = name, hfile, opts
        self.prop = name.split('_')[0]


def scan():
    cases, harness = [], {}
    hd = os.path.join(HERE, 'harness')
    for fn in sorted(os.listdir(hd)):
        if not fn.endswith('.cpp'):
            continue
        path = os.path.join(hd, fn)
        info = {'sources': [], 'flags': []}
        opts = {}
        for line in open(path):
            m = re.match(r'//\s*@source\s+(\S+)\s*(.*)$', line)
            if m:
                info['sources'].append((m.group(1), m.group(2).split()))
            m = re.match(r'//\s*@flags\s+(.*)$', line)
            if m:
                info['flags'] += m.group(1).split()
            m = re.match(r'//\s*@case\s*(.*)$', line)
            if m:
                opts = dict(kv.split('=', 1) for kv in m.group(1).split())
            m = re.match(r'\s*(?:CASE\((\w+)\))', line)
            if m:
                cases.append(Case(m.group(1), fn, opts))
                opts = {}
        harness[fn] = info
    return cases, harness


def build_engine():
    eng = os.path.join(HERE, 'engine', 'symex')
    srcs = [os.path.join(HERE, 'engine', f) for f in ('symex.cpp', 'expr.h', 'solver.h')]
    if not os.path.exists(eng) or any(os.path.getmtime(s) > os.path.getmtime(eng) for s in srcs):
        must(['make', '-B', '-C', os.path.join(HERE, 'engine')], 'engine build')
    return eng


def build_harness(hfile, info, names, out, pool):
    """Compile harness + sources to IR and natively."""
    os.makedirs(out, exist_ok=True)
    base = hfile[:-4]
    table = os.path.join(out, base + '.cases.cpp')
    with open(table, 'w') as f:
        for n in names:
            f.write('extern "C" void %s();\n' % n)
        f.write('extern "C" { struct sx_case_entry { const char *name; void (*fn)(); };\nextern sx_case_entry sx_cases[];\nsx_case_entry sx_cases[] = {\n')
        for n in names:
            f.write('  {"%s", %s},\n' % (n, n))
        f.write('  {nullptr, nullptr}}; }\n')
    units = [(os.path.join(HERE, 'harness', hfile), [], True, True),
             (os.path.join(HERE, 'rt', 'arduino.cpp'), [], True, True),
             (os.path.join(HERE, 'rt', 'minilibc.cpp'), ['-ftrivial-auto-var-init=uninitialized'], True, False),
             (os.path.join(HERE, 'rt', 'native.cpp'), [], False, True),
             (table, [], False, True)]
    for s, fl in info['sources']:
        units.append((os.path.join(REPO, 'src', s), fl, True, True))
    jobs, bcs, objs = [], [], []
    for i, (src, fl, ir, nat) in enumerate(units):
        stem = os.path.join(out, '%s.%d.%s' % (base, i, os.path.basename(src)))
        if not os.path.exists(src):
            continue  # moved or merged: what is missing is looked for in the other sources below
        if ir:
            bcs.append(stem + '.bc')
            jobs.append([CLANG] + COMMON + IRFLAGS + info['flags'] + fl + [src, '-o', stem + '.bc'])
        if nat:
            objs.append(stem + '.o')
            jobs.append([CLANG] + COMMON + SAN + info['flags'] + fl + [src, '-o', stem + '.o'])
    for f in [pool.submit(must, j, 'compile') for j in jobs]:
        f.result()
    linked = os.path.join(out, base + '.linked.bc')
    mod = os.path.join(out, base + '.bc')
    exe = os.path.join(out, base + '.native')
    link = [CLANG, '-fsanitize=address,undefined', '-o', exe] + objs
    rc, msg = sh(link + WRAP)
    extra = []
    if rc and 'undefined' in msg:
        # code has moved to sources the harness does not list: offer all others, of which the linkers take what is needed
        names = [s for s, _ in info['sources']]
        flags = info['flags'] + [x for _, fl in info['sources'] for x in fl]
        others = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp') and f not in names)

        def offer(f):
            stem, src = os.path.join(out, '%s.x.%s' % (base, f)), os.path.join(REPO, 'src', f)
            ok = all(sh([CLANG] + COMMON + x + flags + [src, '-o', o])[0] == 0 for x, o in ((IRFLAGS, stem + '.bc'), (SAN, stem + '.o')))
            return stem if ok else None
        stems = [r.result() for r in [pool.submit(offer, f) for f in others]]
        stems = [x for x in stems if x]
        lib = os.path.join(out, base + '.a')
        must(['ar', 'rcs', lib] + [x + '.o' for x in stems], 'ar')
        must(link + [lib] + WRAP, 'native link')
        extra = [x + '.bc' for x in stems]
    elif rc:
        raise CheckError('native link failed: ' + msg[-3000:])
    must([LINK, '-o', linked] + bcs, 'llvm-link')
    for x in extra * 2:
        rc, msg = sh([LINK, '--only-needed', linked, x, '-o', linked + '.n'])
        if rc == 0:
            os.replace(linked + '.n', linked)
    must([OPT, '-passes=function(sroa,simplifycfg,early-cse,simplifycfg)', linked, '-o', mod], 'opt')
    return mod, exe


def native(exe, files):
    res = {}
    if not files:
        return res
    p = subprocess.run([exe] + files, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900)
    for line in p.stdout.decode(errors='replace').split('\n'):
        f = line.split('\t')
        if f[0] == 'RESULT':
            res[f[1]] = (f[2], f[3] if len(f) > 3 else '')
    return res


def main():
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, verbose, keep = None, False, None
    pid = None
    i = 0
    while i < len(args):
        a = args[i]
        if a == '--tier':
            tier = args[i + 1]; i += 1
        elif a == '--case':
            only = args[i + 1]; i += 1
        elif a == '-v':
            verbose = True
        elif a == '--keep':
            keep = args[i + 1]; i += 1
        else:
            pid = a
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cases, harness = scan()
    mine = [c for c in cases if c.prop == pid and (tier == 'thorough' or c.opts.get('tier', 'quick') == 'quick') and (only is None or c.name == only)]
    if not mine:
        print('no cases for', pid)
        return 2
    out = keep or os.path.join(HERE, 'build', '%s.%d' % (pid, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        return run(pid, tier, seed, mine, cases, harness, out, t0, verbose)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        if not keep:
            shutil.rmtree(out, ignore_errors=True)


def run(pid, tier, seed, mine, cases, harness, out, t0, verbose):
    eng = build_engine()
    pool = ThreadPoolExecutor(JOBS)
    mods = {}
    for h in sorted(set(c.hfile for c in mine)):
        mods[h] = build_harness(h, harness[h], [c.name for c in cases if c.hfile == h], out, pool)
    tbuild = time.time() - t0
    budget = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '20000'))

    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid]
    # for campaigns over planted bugs: the first violation ends the run
    failfast = os.environ.get('VERIF_FAILFAST') == '1'
    stop, running = [], []

    def one(c):
        left = budget - (time.time() - t0)
        tl = float(c.opts.get('time', '300' if tier == 'quick' else '3000'))
        if tier == 'thorough':
            tl = max(tl, 3000)
        tl = max(20, min(tl, left))
        cmd = [eng, mods[c.hfile][0], '--case', c.name, '--out', out, '--time', str(tl), '--merge', c.opts.get('merge', '8')]
        if 'steps' in c.opts:
            cmd += ['--steps', c.opts['steps']]
        if verbose:
            cmd.append('-v')
        if failfast and stop:
            return c, {'case': c.name, 'status': 'skipped', 'violations': [], 'samples': []}
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            running.append(p)
            err = p.communicate(timeout=tl + 240)[1].decode(errors='replace')
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err = 'engine did not stop'
        if failfast and stop:
            return c, {'case': c.name, 'status': 'skipped', 'violations': [], 'samples': []}
        if verbose:
            sys.stderr.write(err)
        try:
            r = json.load(open(os.path.join(out, c.name + '.json')))
        except Exception:
            r = {'case': c.name, 'status': 'error', 'error': 'engine crashed: ' + err[-500:], 'violations': [], 'samples': []}
        if failfast and any(not any(k['case'] == c.name and k['label'] == v['label'] for k in known) for v in r['violations']):
            stop.append(c.name)
            for q in running:
                q.poll() is None and q.kill()
        return c, r

    # longest first
    mine.sort(key=lambda c: -float(c.opts.get('cost', '10')))
    results = list(pool.map(one, mine))
    violations, errors, knownhit, unrepro = [], [], [], []
    nat_ok = 0
    samples_out = []
    for c, r in results:
        exe = mods[c.hfile][1]
        st = r['status']
        if st in ('error', 'timeout', 'vacuous'):
            errors.append('%s: %s %s' % (c.name, st, r.get('error', '')))
        vf = [v['file'] for v in r['violations']]
        nr = native(exe, vf)
        for v in r['violations']:
            ns, nd = nr.get(v['file'], ('none', ''))
            if v['kind'] == 'assert':
                rep = ns == 'assert'
            elif v['kind'] == 'hang':
                rep = ns == 'timeout'
            else:
                rep = ns == 'crash'
            # any native failure on a solver-found input is a real failure of the case
            if not rep and ns in ('assert', 'crash', 'timeout'):
                rep = True
            if not rep:
                unrepro.append('%s: %s "%s" at %s did not reproduce natively (%s %s)' % (c.name, v['kind'], v['label'], v['where'], ns, nd))
                continue
            lab = nd if ns == 'assert' else v['label']
            k = next((k for k in known if k['case'] == c.name and k['label'] == lab), None)
            if k:
                knownhit.append(k)
                continue
            rd = os.path.join(HERE, 'replays')
            os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, '%s.%s.%d.txt' % (pid, c.name, len(violations)))
            shutil.copy(v['file'], dst)
            with open(dst, 'a') as f:
                f.write('native %s %s\nhow python3 %s/replay.py %s\n' % (ns, nd, HERE, dst))
            violations.append((c.name, v, ns, nd, dst))
        sr = native(exe, r['samples'])
        for s in r['samples']:
            ns, nd = sr.get(s, ('none', ''))
            if ns == 'pass':
                nat_ok += 1
            elif not r['violations']:
                errors.append('%s: path %s passes in the engine but natively: %s %s' % (c.name, os.path.basename(s), ns, nd))
                if verbose:
                    print(open(s).read()[:3000])
            if ns == 'pass' and len([x for x in samples_out if x['case'] == c.name]) < 1:
                ins = [l.split()[2] + '=' + l.split()[4] for l in open(s) if l.startswith('input ')]
                samples_out.append({'case': c.name, 'inputs': ins[:24], 'native': 'same observations'})
    R = [r for _, r in results]
    tot = lambda k: sum(r.get(k, 0) for r in R)
    funcs = {}
    for r in R:
        for f in r.get('functions', []):
            if '/src/' in f['file']:
                funcs[f['name']] = funcs.get(f['name'], 0) + f['calls']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot('paths') + tot('merges')), 'transitions': int(tot('forks') + tot('paths')),
            'traces_validated_against_impl': nat_ok, 'samples': samples_out,
            'paths': tot('paths'), 'forks': tot('forks'), 'merges': tot('merges'), 'ir_instructions_executed': tot('instructions'),
            'assertions_evaluated': tot('asserts'), 'assertion_queries': tot('assert_queries'), 'memory_bound_queries': tot('memory_queries'),
            'solver': {'name': 'z3 4.8.12 (QF_BV)', 'queries': tot('solver_queries'), 'sat': tot('solver_sat'), 'unsat': tot('solver_unsat'), 'unknown': tot('solver_unknown'),
                       'seconds': round(tot('solver_s'), 2), 'slowest_query_s': max([r.get('solver_max_s', 0) for r in R] + [0])},
            'cases': [{'case': r['case'], 'status': r['status'], 'paths': r.get('paths', 0), 'symbolic_inputs': r.get('symbolic_vars', 0), 'wall_s': r.get('wall_s', 0), 'covers': r.get('covers', {}), 'assertions': r.get('assert_labels', {})} for r in R],
            'functions_encoded': funcs,
            'bounds': json.load(open(os.path.join(HERE, 'tools', 'bounds.json'))).get(pid, ''),
            'known_findings_hit': len(knownhit), 'build_s': round(tbuild, 1),
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True): k for k in knownhit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for name, v, ns, nd, dst in violations:
        print('  %s: %s "%s" at %s; natively: %s %s' % (name, v['kind'], v['label'], v['where'], ns, nd))
    for v in violations[:1]:
        print('VIOLATION property=%s replay=%s' % (pid, v[4]))
    if violations:
        for e in errors + unrepro:
            print('  note: ' + e)
        return 1
    if errors or unrepro:
        for e in errors + unrepro:
            print('CHECK-ERROR property=%s %s' % (pid, e))
        return 2
    print('OK property=%s cases=%d paths=%d queries=%d (solver %.1fs) native=%d wall=%.1fs' % (pid, len(R), tot('paths'), tot('solver_queries'), tot('solver_s'), nat_ok, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
