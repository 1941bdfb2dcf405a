"""compile a spec TU from /repo's current sources and verify its contracts"""
import os
import re
import subprocess
import sys
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LV_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

CXX = 'clang++-18'
INCS = ['/usr/include/x86_64-linux-gnu/qt5', ]


def common_flags(spec):
    """flags; a spec may carry  // LV_FLAGS: ...   and  // LV_STUBS: dir"""
    text = open(spec).read()
    fl = []
    for m in re.finditer(r'^// LV_FLAGS:(.*)$', text, re.M):
        fl += m.group(1).replace('{VERIF}', VERIF).split()
    stubs = []
    for m in re.finditer(r'^// LV_STUBS:(.*)$', text, re.M):
        stubs += [os.path.join(VERIF, 'stubs', s) for s in m.group(1).split()]
    return fl, stubs


DEPS_INC = None


def deps_includes():
    """include directories of lager's dependencies, from the build tree configuration"""
    global DEPS_INC
    if DEPS_INC is None:
        DEPS_INC = []
        for p in ('/usr/local/include', '/usr/include'):
            pass
        cj = os.path.join(REPO, '_build', 'CMakeCache.txt')
        for d in ('/opt/vp/deps/include',):
            if os.path.isdir(d):
                DEPS_INC.append(d)
    return DEPS_INC


def compile_ir(spec, out, src=None, extra=()):
    """src: a copy of the spec without some of its contracts"""
    fl, stubs = common_flags(spec)
    cmd = [CXX, '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DLV_VERIFY', '-w', '-fno-delete-null-pointer-checks', '-S', '-emit-llvm', '-fno-discard-value-names' if False else '-fdiscard-value-names']
    for s in stubs:
        cmd += ['-I', s]
    cmd += ['-I', os.path.join(VERIF, 'specs'), '-I', REPO]
    for d in deps_includes():
        cmd += ['-isystem', d]
    cmd += fl + list(extra) + [src or spec, '-o', out + '.raw']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    keep_ub(out + '.raw')
    r = subprocess.run(['/usr/lib/llvm-18/bin/opt', '-S', '-passes=function(mem2reg,instsimplify,simplifycfg,dce)',
                        out + '.raw', '-o', out], capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    os.unlink(out + '.raw')
    return None


def keep_ub(path):
    """make undefined behaviour survive the clean-up passes, which would otherwise
    use it to delete paths: reaching `unreachable` is a call, and so is reading
    a local variable that has no value"""
    out = []
    undefs = set()
    with open(path) as f:
        for l in f:
            if l.startswith('  '):
                if l.startswith('  unreachable'):
                    out.append('  call void @__lv_unreachable()\n')
                elif ' nsw ' in l or ' nuw ' in l:
                    l = re.sub(r' = (add|sub|mul|shl|trunc) ((nuw|nsw) )+', r' = \1 ', l, count=1)
                elif ' = alloca ' in l:
                    m = re.match(r'  (%\S+) = alloca (i\d+|ptr|float|double)(,|$)', l)
                    if m:
                        v, t = m.group(1), m.group(2)
                        undefs.add(t)
                        nm = '%%lvu.%d' % len(out)
                        out.append(l)
                        out.append('  %s = call %s @__lv_undef_%s()\n' % (nm, t, t))
                        l = '  store %s %s, ptr %s\n' % (t, nm, v)
            out.append(l)
    out.append('declare void @__lv_unreachable()\n')
    for t in sorted(undefs):
        out.append('declare %s @__lv_undef_%s() nounwind willreturn memory(none)\n' % (t, t))
    with open(path, 'w') as f:
        f.writelines(out)


def demangle(names):
    p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


class Loaded:
    def __init__(self, path):
        from ir import Module
        self.mod = Module(open(path).read())
        self.dem = demangle(list(self.mod.funcs) + list(self.mod.decls) + [g for g in self.mod.globals if g.startswith('_ZTI')])
        self.contracts = [n for n in self.mod.funcs if re.match(r'lv[cb]_', n)]


def verify_contract(ld, name, budget_s=200, timeout_ms=20000, verbose=0):
    """-> result dict"""
    import z3
    import sym
    from sym import Engine, State, Unsupported, PathEnd, Budget, Returned
    import models
    e = Engine(ld.mod, ld.dem, timeout_ms=timeout_ms)
    e.phiw_dummy = None
    res = dict(contract=name, status='proved', obligations={}, failures=[], notes=[], undecided='')
    t0 = time.time()
    e.deadline = t0 + budget_s

    def on_ob(n, kind, ok):
        d = res['obligations'].setdefault(n, dict(kind=kind, discharged=0, failed=0))
        d['discharged' if ok else 'failed'] += 1

    def on_fail(st, n, kind, reason, cond, model):
        d = res['obligations'].setdefault(n, dict(kind=kind, discharged=0, failed=0))
        if not d['failed']:
            d['failed'] += 1
        if kind == 'lemma' or 'unknown' in reason:
            res['undecided'] = res['undecided'] or ('%s not established: %s' % (
                'auxiliary lemma "%s"' % n if kind == 'lemma' else 'obligation "%s"' % n, reason))
            return
        if len([f for f in res['failures'] if f['obligation'] == n]) >= 2:
            return
        frames = []
        for fr in reversed(st.frames[-12:]):
            frames.append(ld.dem.get(fr.fn.name, fr.fn.name)[:200])
        f = dict(obligation=n, kind=kind, reason=reason, stack=frames, inputs=[], uf=[], cut=list(st.ghost.get('cut', ())))
        m = model
        feas = None
        if m is None and cond is None:
            r, m = e.check(st, None, full=True)
            feas = str(r)
            if r == z3.unsat:
                return
        if m is not None:
            m2 = minimise(e, st, cond) or m
            f['inputs'] = [(nm, mval(m2, v)) for nm, v in st.inputs]
            f['uf'] = [(nm, [mval(m2, a) for a in args], mval(m2, r)) for nm, args, r in st.ufapps]
        res['failures'].append(f)

    def minimise(e, st, cond):
        """prefer small lengths in the counterexample"""
        try:
            if not st.lens:
                return None
            for lim in (0, 1, 2, 3, 5):
                ex = [z3.ULE(l, lim) for l in st.lens]
                if cond is not None:
                    ex.append(cond)
                r, m = e.check(st, z3.And(*ex), full=True)
                if r == z3.sat:
                    return m
        except Exception:
            pass
        return None

    def on_cut(where, W, invdrop, S0):
        kept = {}
        for key, info in W.items():
            c = info['cand']
            kept[str(key)] = 'havoc' if c is None else (c[0] + (':%+d' % sym.sgn(c[1], 64) if c[0] == 'lin' else ''))
        res['notes'].append(dict(loop=where[:300], locations=len(W), kept={k: v for k, v in list(kept.items())[:40]},
                                 dropped_invariants=[str(x) for x in invdrop]))

    e.on_obligation = on_ob
    e.on_fail = on_fail
    e.on_cut = on_cut
    returned = [0]
    try:
        st = State()
        # dynamic initialisation of globals, executed concretely
        ctors = ld.mod.globals.get('llvm.global_ctors')
        if ctors:
            ty, init = ld.mod.global_info('llvm.global_ctors')
            for t, el in init[1]:
                fnop = el[1][1][1]
                if fnop[0] != 'g':
                    continue
                st.stop_depth = 0
                out = []
                e.call_function(st, fnop[1], [])
                e.explore(st, on_return=lambda s: out.append(s))
                if len(out) != 1:
                    raise Unsupported('global constructor forks')
                st = out[0]
        st.stop_depth = None
        e.executed.clear()
        e.call_function(st, name, [])

        def on_ret(s):
            returned[0] += 1
            if returned[0] == 1 or True:
                pass
            # vacuity: the end of the contract is reachable
            if 'end' not in e.covered:
                r = e.check(s)
                if r == z3.sat:
                    e.covered.add('end')
        e.explore(st, on_return=on_ret)
    except (Unsupported, Budget) as ex:
        if os.environ.get('LV_TRACE'):
            tb = ex.__traceback__
            while tb:
                st_ = tb.tb_frame.f_locals.get('st')
                if st_ is not None and hasattr(st_, 'frames'):
                    last = [getattr(f.fn, 'name', f.fn) for f in st_.frames]
                if 'ins' in tb.tb_frame.f_locals:
                    print('   at', tb.tb_frame.f_locals['ins'])
                tb = tb.tb_next
            print('   stack', *last, sep='\n      ')
        res['undecided'] = '%s: %s' % (type(ex).__name__, ex)
    except z3.Z3Exception as ex:
        res['undecided'] = 'solver: %s' % ex
        if verbose:
            traceback.print_exc()
    except RecursionError as ex:
        res['undecided'] = 'recursion'
    except Exception as ex:
        res['undecided'] = 'engine: %r' % ex
        res['traceback'] = traceback.format_exc()
        if verbose:
            traceback.print_exc()
    if res['failures']:
        res['status'] = 'failed'
    elif res['undecided']:
        res['status'] = 'undecided'
    elif 'end' not in e.covered:
        res['status'] = 'vacuous'
        res['undecided'] = 'no path of the contract reaches its end'
    elif not res['obligations'] or not any(d['kind'] in ('post', 'lemma') for d in res['obligations'].values()):
        res['status'] = 'vacuous'
        res['undecided'] = 'contract generated no postcondition obligation'
    res['wall'] = time.time() - t0
    res['stats'] = e.stats
    res['covered'] = sorted(e.covered)
    res['executed'] = sorted({ld.dem.get(n, n) for n in e.executed if 'lager' in ld.dem.get(n, n)})
    res['trusted'] = sorted({models.TRUSTED[n] for n in e._model_cache if n in models.TRUSTED})
    res['replaced'] = sorted('%s by its contract %s' % (a, ld.dem.get(b, b)) for a, b in e.replaced)
    res['cands'] = e.cand_log[-20:]
    if os.environ.get('LV_CANDS'): print('\n'.join(e.cand_log[-60:]))
    return res


def mval(m, v):
    import z3
    if isinstance(v, int):
        return v
    x = m.eval(v, model_completion=True)
    try:
        return x.as_long()
    except Exception:
        return 0


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('contract', nargs='?')
    ap.add_argument('-b', type=float, default=120)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-k', action='store_true', help='keep ll')
    a = ap.parse_args()
    out = '/tmp/lv_%s.ll' % os.path.basename(a.spec)
    t = time.time()
    err = compile_ir(a.spec, out)
    if err:
        print(err[:6000])
        sys.exit(2)
    t2 = time.time()
    ld = Loaded(out)
    print('compile %.1fs load %.1fs size %d' % (t2 - t, time.time() - t2, os.path.getsize(out)))
    for c in ld.contracts:
        if a.contract and a.contract not in c:
            continue
        r = verify_contract(ld, c, a.b, verbose=a.v)
        nob = sum(d['discharged'] for d in r['obligations'].values())
        print('%-40s %-9s obl=%d paths=%d steps=%d checks=%d cuts=%d solver=%.1fs wall=%.1fs %s' % (
            c, r['status'], nob, r['stats']['paths'], r['stats']['steps'], r['stats']['checks'], r['stats']['cuts'],
            r['stats']['solver_s'], r['wall'], r['undecided']))
        if 'traceback' in r and a.v:
            print(r['traceback'])
        for f in r['failures']:
            print('   FAIL', f['obligation'], f['kind'], f['reason'])
            for s in f['stack']:
                print('        at', s)
            print('      inputs', f['inputs'])
            print('      uf', f['uf'])
            if f['cut']:
                print('      in cut loops', f['cut'])
        if a.v:
            print('   obligations', r['obligations'])
            for n in r['notes']:
                print('   loop', n)
            for n in r['cands']:
                print('   cand', n)
            print('   covered', r['covered'])
