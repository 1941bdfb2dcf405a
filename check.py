#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough        decide one property on /repo's current tree
   check.py --replay FILE                  re-execute a reported counterexample on the real code"""
import glob
import json
import multiprocessing
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
try:
    import z3  # noqa
except ImportError:
    if os.path.exists(VT) and os.environ.get('LV_REEXEC') != '1':
        os.environ['LV_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
    raise
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import verify  # noqa

sys.setrecursionlimit(20000)
JOBS = min(8, os.cpu_count() or 4)
EVID = os.path.join(VERIF, 'evidence')


def header(path, key):
    out = []
    for m in re.finditer(r'^// %s:(.*)$' % key, open(path).read(), re.M):
        out += m.group(1).split()
    return out


def specs_of(prop):
    res = []
    for p in sorted(glob.glob(os.path.join(VERIF, 'specs', '*.cpp'))):
        b = os.path.basename(p)
        if b.startswith(prop + '_') or prop in header(p, 'LV_PROPS'):
            res.append(p)
    return res


def contract_ranges(text):
    """[(first line, last line, name)] of the contracts of a specification"""
    res = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'LV_(CONTRACT|BOUNDED)\((\w+)\)', lines[i])
        if m:
            j = i
            if not re.search(r'\}\s*$', lines[i]):
                while j < len(lines) - 1 and lines[j] != '}':
                    j += 1
            res.append((i + 1, j + 1, ('lvc_' if m.group(1) == 'CONTRACT' else 'lvb_') + m.group(2)))
            i = j
        i += 1
    return res


REDUCED = {}    # spec -> copy without the contracts that do not compile against this tree


def compile_reduced(spec, out, work):
    """leave out the contracts that the current tree cannot be instantiated with
    -> (error or None, names left out)"""
    text = open(spec).read()
    src = os.path.join(work, 'reduced_' + os.path.basename(spec))
    dropped = []
    err = None
    for _ in range(8):
        ranges = contract_ranges(text)
        with open(src, 'w') as f:
            f.write(text)
        err = verify.compile_ir(spec, out, src, ['-ferror-limit=0', '-ftemplate-backtrace-limit=0'])
        if err is None:
            REDUCED[spec] = src
            return None, dropped
        hit = {int(m.group(1)) for m in re.finditer(r'%s:(\d+):' % re.escape(src), err)}
        bad = [(a, b, n) for a, b, n in ranges if any(a <= h <= b for h in hit)]
        if not bad or len(bad) == len(ranges):
            return err, dropped
        lines = text.split('\n')
        for a, b, n in bad:
            dropped.append(n)
            for k in range(a - 1, b):
                lines[k] = ''
        text = '\n'.join(lines)
    return err, dropped


def native_build(spec, out):
    fl, stubs = verify.common_flags(spec)
    fl = fl + header(spec, 'LV_NATIVE_FLAGS')
    cmd = [verify.CXX, '-std=c++17', '-O1', '-g1', '-fno-access-control', '-fsanitize=address', '-DLV_NATIVE', '-w', '-rdynamic']
    cmd += ['-I', os.path.join(VERIF, 'specs'), '-I', verify.REPO]
    for d in verify.deps_includes():
        cmd += ['-isystem', d]
    libs = ['-l' + x for x in header(spec, 'LV_LIBS')]
    r = subprocess.run(cmd + fl + [REDUCED.get(spec, spec), os.path.join(VERIF, 'engine', 'native.cpp'), '-o', out, '-lpthread', '-ldl'] + libs,
                       capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr


def ce_text(f):
    s = []
    for n, v in f['inputs']:
        s.append('in %s %d' % (n, v))
    for n, args, r in f['uf']:
        a = list(args) + [0, 0, 0]
        s.append('uf %s %d %d %d %d = %d' % (n, len(args), a[0], a[1], a[2], r))
    return '\n'.join(s) + '\n'


def run_contract(ld, c, budget, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        r = verify.verify_contract(ld, c, budget)
    except BaseException as ex:
        r = dict(contract=c, status='undecided', obligations={}, failures=[], notes=[], undecided='engine: %r' % (ex,),
                 wall=0, stats={}, covered=[], executed=[], trusted=[], cands=[])
    q.send(r)
    q.close()
    os._exit(0)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 780 if tier == 'quick' else 6 * 3600
    deadline = t0 + total
    cbudget = 240 if tier == 'quick' else 3000
    work = tempfile.mkdtemp(prefix='lv_%s_' % prop)
    try:
        return decide(prop, tier, seed, t0, deadline, cbudget, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, deadline, cbudget, work, only):
    specs = specs_of(prop)
    if not specs:
        print('no specification for', prop)
        return 2
    # 1. compile every specification TU against the current tree
    procs = []
    lls = {}
    errs = {}
    skipped = {}
    from concurrent.futures import ThreadPoolExecutor

    def comp(s):
        out = os.path.join(work, os.path.basename(s) + '.ll')
        return s, out, verify.compile_ir(s, out)
    with ThreadPoolExecutor(JOBS) as ex0:
        compiled = list(ex0.map(comp, specs))
    for s, out, err in compiled:
        if err and not header(s, 'LV_MUST_COMPILE'):
            full = err
            err, dropped = compile_reduced(s, out, work)
            if err is None:
                skipped[s] = dropped
                print('note: %s of %s cannot be instantiated against the current tree: %s' % (
                    ', '.join(dropped), os.path.basename(s), next((l for l in full.splitlines() if 'error' in l), full[:200])))
        if err:
            errs[s] = err
            print('note: %s does not compile against the current tree: %s' % (os.path.basename(s), next((l for l in err.splitlines() if 'error' in l), err[:200])))
        else:
            lls[s] = out
    # a spec may be the statement that some use of the library is well formed
    illformed = []
    for s, err in errs.items():
        m = re.search(r'^// LV_MUST_COMPILE: (.*)$', open(s).read(), re.M)
        # the complaint is about /repo's code, as used by the specification
        if m and verify.REPO + '/' in err:
            illformed.append((s, m.group(1), err))
    # 2. verify
    jobs = []
    lds = {}
    for s, out in lls.items():
        lds[s] = verify.Loaded(out)
        for c in lds[s].contracts:
            if only and only not in c:
                continue
            jobs.append((s, c))
    pending = list(jobs)
    running = []
    results = []
    while pending or running:
        while pending and len(running) < JOBS:
            s, c = pending.pop(0)
            rd, wr = multiprocessing.Pipe(False)
            left = deadline - time.time() - 60
            b = min(cbudget, max(left, 1))
            pid = os.fork()
            if pid == 0:
                rd.close()
                run_contract(lds[s], c, b, wr)
            wr.close()
            running.append((pid, rd, s, c, time.time() + b + 45))
        for item in list(running):
            pid, rd, s, c, dl = item
            r = None
            if rd.poll(0.02 if len(running) > 2 else 0.05):
                try:
                    r = rd.recv()
                except EOFError:
                    r = dict(undecided='the verifier process ended unexpectedly (memory?)')
            elif time.time() > dl:
                r = dict(undecided='time budget exhausted')
                os.kill(pid, 9)
            if r is not None:
                base = dict(contract=c, status='undecided', obligations={}, failures=[], notes=[], undecided='', wall=0, stats={},
                            covered=[], executed=[], trusted=[], cands=[])
                base.update(r)
                base['spec'] = s
                results.append(base)
                rd.close()
                os.waitpid(pid, 0)
                running.remove(item)
    # 3. failures and undecided contracts: execute the contract on the real code
    binaries = {}
    ex = ThreadPoolExecutor(JOBS)
    need = sorted({r['spec'] for r in results if r['status'] != 'proved' or tier == 'thorough'})
    tb = time.time()

    def nb(s):
        out = os.path.join(work, os.path.basename(s) + '.bin')
        return s, out, native_build(s, out)
    for s, out, err in ex.map(nb, need):
        binaries[s] = (out, err)
        if err:
            print('note: native build of %s failed: %s' % (os.path.basename(s), err[:800]))
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'):
                known.append(json.loads(l))
    violations = []
    knownhits = []
    standins = []
    nsearch = [r for r in results if r['status'] in ('undecided', 'vacuous') or (tier == 'thorough' and r['status'] == 'proved')]
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)

    def search(r, secs, trials=10**9):
        b, err = binaries[r['spec']]
        if err:
            return None, 'native build failed', ''
        outf = os.path.join(work, r['contract'] + '.ce')
        p = subprocess.run([b, 'search', r['contract'], str(seed), str(trials), str(secs), outf], capture_output=True, text=True)
        ce = open(outf).read() if os.path.exists(outf) and p.returncode == 10 else None
        return ce, p.stdout.strip()[-400:], p.stderr[-3000:]

    def handle_failed(r):
        b, err = binaries[r['spec']]
        confirmed = None
        detail = ''
        if not err:
            for i, f in enumerate(r['failures']):
                cef = os.path.join(work, '%s.%d.in' % (r['contract'], i))
                open(cef, 'w').write(ce_text(f))
                p = subprocess.run([b, 'replay', r['contract'], cef], capture_output=True, text=True)
                if p.returncode == 10:
                    confirmed = (open(cef).read(), p.stdout.strip(), p.stderr[-3000:])
                    break
            if confirmed is None:
                ce, msg, serr = search(r, 25 if tier == 'quick' else 120)
                detail = msg
                if ce is not None:
                    confirmed = (ce, msg, serr)
        else:
            detail = 'native build failed'
        return r, confirmed, detail

    def handle_undecided(r):
        secs = 25 if tier == 'quick' else 60
        return r, search(r, secs if r['status'] != 'proved' else 20)
    for r, confirmed, detail in ex.map(handle_failed, [r for r in results if r['status'] == 'failed']):
        path = os.path.join(EVID, 'replay', '%s-%s.txt' % (prop, r['contract']))
        write_replay(path, prop, r, confirmed, detail)
        obs = sorted({f['obligation'] for f in r['failures']})
        k = [e for e in known if e.get('status') == 'known' and e['property'] == prop and e['contract'] == r['contract'] and set(obs) <= set(e['obligations'])]
        if k:
            knownhits.append((k[0], r))
            continue
        violations.append((r, path, confirmed, obs))
    for r, (ce, msg, serr) in ex.map(handle_undecided, nsearch):
        if ce is not None:
            path = os.path.join(EVID, 'replay', '%s-%s.txt' % (prop, r['contract']))
            write_replay(path, prop, r, (ce, msg, serr), '')
            k = [e for e in known if e.get('status') == 'known' and e['property'] == prop and e['contract'] == r['contract'] and any(o in msg for o in e['obligations'])]
            if k:
                knownhits.append((k[0], r))
                continue
            violations.append((r, path, (ce, msg, serr), ['bounded: ' + msg]))
        standins.append(dict(contract=r['contract'], why=r['undecided'] or 'cross-check of a proved contract', outcome=msg, found=ce is not None))
    # 4. report
    for k, r in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r, path, confirmed, obs in violations:
        print('%s: failed obligation(s) %s' % (r['contract'], ', '.join(obs)))
        for f in r['failures'][:3]:
            print('    %s: %s' % (f['obligation'], f['reason']))
            for fr in f['stack'][:4]:
                print('        in %s' % fr[:160])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'))
    for r in results:
        if r['status'] in ('undecided', 'vacuous'):
            print('note: %s undecided by the verifier: %s' % (r['contract'], r['undecided'][:300]))
    for s, what, err in illformed:
        path = os.path.join(EVID, 'replay', '%s-%s.txt' % (prop, os.path.basename(s)))
        with open(path, 'w') as f:
            f.write('property %s\ncontract (all)\nspec %s\n# obligation %s: the instantiation is rejected by the compiler\n' % (prop, os.path.basename(s), what))
            f.write(''.join('# %s\n' % l for l in err.splitlines()[:80]))
        print('%s: failed obligation %s' % (os.path.basename(s), what))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    write_evidence(prop, tier, seed, t0, results, errs, skipped, standins, violations, knownhits)
    for r in sorted(results, key=lambda r: -r['wall'])[:int(os.environ.get('LV_SLOW', '3'))]:
        print('  %-50s %-9s %6.1fs' % (r['contract'], r['status'], r['wall']))
    nob = sum(d['discharged'] for r in results if r['contract'].startswith('lvc_') for d in r['obligations'].values())
    print('%s %s: %d contracts, %d proved, %d obligations discharged, %d violations, %.0f s' % (
        prop, tier, len(results), sum(r['status'] == 'proved' for r in results), nob, len(violations) + len(illformed), time.time() - t0))
    if violations or illformed:
        return 1
    if not results:
        print('no contract of %s could be built against the current tree' % prop)
        return 2
    return 0


def write_replay(path, prop, r, confirmed, detail):
    with open(path, 'w') as f:
        f.write('property %s\ncontract %s\nspec %s\n' % (prop, r['contract'], os.path.basename(r['spec'])))
        if confirmed:
            f.write('# counterexample, reproduced on the real code: %s\n' % confirmed[1].replace('\n', ' | '))
            f.write(confirmed[0])
            if confirmed[2].strip():
                f.write(''.join('# %s\n' % l for l in confirmed[2].splitlines()[:40]))
        else:
            f.write('# no failing input found natively (%s)\n' % detail)
        for x in r['failures']:
            f.write('# failed obligation %s (%s): %s\n' % (x['obligation'], x['kind'], x['reason']))
            for s in x['stack']:
                f.write('#     at %s\n' % s)
            f.write('#   verifier model: inputs %s\n#   functions %s\n' % (x['inputs'], x['uf']))
            if x['cut']:
                f.write('#   inside loop(s) summarised by invariants: %s\n' % (x['cut'],))
        for n in r['notes']:
            f.write('# loop %s\n' % (n,))
        f.write('# re-run: python3 %s/check.py --replay %s\n' % (VERIF, path))


def replay(path):
    kv = dict(l.split(None, 1) for l in open(path).read().splitlines()[:3])
    spec = os.path.join(VERIF, 'specs', kv['spec'].strip())
    work = tempfile.mkdtemp(prefix='lv_replay_')
    try:
        b = os.path.join(work, 'bin')
        err = native_build(spec, b)
        if err and compile_reduced(spec, b + '.ll', work)[0] is None:
            err = native_build(spec, b)
        if err:
            print(err)
            return 2
        cef = os.path.join(work, 'in')
        open(cef, 'w').write(''.join(l + '\n' for l in open(path).read().splitlines() if re.match(r'(in|uf) ', l)))
        return subprocess.run([b, 'replay', kv['contract'].strip(), cef]).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, tier, seed, t0, results, errs, skipped, standins, violations, knownhits):
    proofs = [r for r in results if r['contract'].startswith('lvc_')]
    bounded = [r for r in results if r['contract'].startswith('lvb_')]

    def tot(rs, k):
        return sum(d[k] for r in rs for d in r['obligations'].values())
    kinds = {}
    for r in proofs:
        for d in r['obligations'].values():
            kinds[d['kind']] = kinds.get(d['kind'], 0) + d['discharged']
    trusted = sorted({t for r in results for t in r['trusted']})
    fns = sorted({f for r in proofs for f in r['executed']})
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                stats[k] = round(stats.get(k, 0) + v, 3)
    nob = tot(proofs, 'discharged') + tot(proofs, 'failed')
    assum = ['clang 18 front end (-O1 IR, LLVM passes mem2reg/instsimplify/simplifycfg only) and the layout it computes',
             'the verification condition generator in /verif/engine (sym.py, models.py) and z3/cvc5',
             'template parameters are instantiated with opaque value types (arbitrary values and arbitrary functions over them); '
             'other instantiations are not re-verified',
             'memory allocation never fails; integer overflow is decided on machine integers (not assumed mathematical)']
    for sp in specs_of(prop):
        text = open(sp).read()
        for m in re.finditer(r'^// LV_TRUST:\s*(.*)$', text, re.M):
            assum.append('assumed contract (%s): %s' % (os.path.basename(sp), m.group(1)))
        for d in sorted(set(re.findall(r'\{VERIF\}/stubs/(\w+)', text) + re.findall(r'^// LV_STUBS:\s*(\w+)', text, re.M))):
            what = [open(f).read().split('#pragma')[0] for f in sorted(glob.glob(os.path.join(VERIF, 'stubs', d, '**', '*'), recursive=True))
                    if os.path.isfile(f) and open(f).read().startswith('// The contract')]
            t = ' '.join(what[0].replace('//', ' ').split()) if what else ''
            t = 'assumed contract on a dependency (stubs/%s): %s' % (d, t)
            if t not in assum:
                assum.append(t)
    for s in errs:
        assum.append('UNDECIDED: %s did not compile against this tree' % os.path.basename(s))
    for s, names in skipped.items():
        assum.append('UNDECIDED: %s did not compile against this tree' % ', '.join(names))
    for r in results:
        if r['status'] in ('undecided', 'vacuous'):
            assum.append('UNDECIDED by the verifier: %s (%s)' % (r['contract'], r['undecided'][:200]))
    for r in results:
        for x in r.get('replaced', []):
            x = 'callee replaced in %s: %s' % (r['contract'], x)
            assum.append(x)
    for r in bounded:
        assum.append('BOUNDED, not counted as proved: %s' % r['contract'])
    ev = dict(property=prop, tier=tier, seed=seed, level=levels().get(prop, 'proof'), wall_s=round(time.time() - t0, 2), assumptions=assum, violations=len(violations),
              coverage=dict(
                  obligations=nob, discharged=tot(proofs, 'discharged'),
                  checker_cmd='python3 check.py %s %s' % (prop, tier),
                  trusted_base=trusted or ['none beyond the compiler, the VC generator and the solver'],
                  contracts=[dict(name=r['contract'], spec=os.path.basename(r['spec']), status=r['status'], wall_s=round(r['wall'], 2),
                                  obligations={k: (v['discharged'], v['failed']) for k, v in r['obligations'].items()},
                                  summarised_loops=len(r['notes'])) for r in proofs],
                  obligations_by_kind=kinds,
                  functions_under_contract=len(fns), functions=fns[:400],
                  loops_discharged_by_invariant=sum(len(r['notes']) for r in proofs),
                  solver=stats,
                  bounded_contracts=[dict(name=r['contract'], status=r['status'], obligations=tot([r], 'discharged')) for r in bounded],
                  native_standins=standins,
                  known_findings=[k['what'] for k, _ in knownhits],
                  undecided=[r['contract'] for r in results if r['status'] in ('undecided', 'vacuous')]))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def levels():
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        return {c['property']: c['level'] for c in m['checks']}
    except Exception:
        return {}


if __name__ == '__main__':
    sys.exit(main())
