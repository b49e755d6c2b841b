"""Check driver: obligations, verdicts, evidence, replays."""
import contextlib, ctypes, json, os, random, signal, struct, sys, time, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, ir, sx, world, real, smt
import term as t
from world import sortw, World, Run, Gen, ev, close, isolated


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 1000003 + hash_(pid))
        self.t0 = time.time()
        self.obs = []              # records
        self.functions = set()
        self.trusted = set()
        self.assumptions = []
        self.violations = []
        self.known = []
        self.notes = []
        self.covers = 0
        self.diff_runs = 0
        self.mods = {}
        self.backend_s = {}
        self.kf = self.load_known()
        self.thorough = self.tier == 'thorough'

    # ------------------------------------------------------------ known findings
    def load_known(self):
        r = {}
        p = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith('fixed'):
                    d = json.loads(l)
                    if d['property'] == self.pid and d.get('status', 'open') == 'open':
                        r[d['site']] = d
        return r

    # ------------------------------------------------------------ build
    def build(self, jobs):
        """jobs: [(key, harness file, dim, defs)]"""
        self.mods.update(build.modules([(k, os.path.join(VERIF, 'props', s), d, f) for k, s, d, f in jobs]))

    def mod(self, k):
        return self.mods[k][0]

    def nat(self, k):
        return self.mods[k][1]

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def absorb(self, run):
        """account the functions executed under a run"""
        self.functions |= {demangle(f) for f in run.ex.functions}
        for a in run.ex.assumed:
            self.trusted.add('output-only/logging call treated as having no effect: ' + demangle(a))
        for n in run.ex.notes:
            self.assume(n)

    def note_sweep(self, name, s):
        self.notes.append('SAT sweep %s: %s' % (name, s))

    # ------------------------------------------------------------ obligations
    @contextlib.contextmanager
    def budget(self, name):
        """wall-clock limit of one proof attempt; the check as a whole has to
        answer in time, so the limit shrinks when it runs late"""
        left = (3000 if self.thorough else 700) - (time.time() - self.t0)
        lim = max(3.0, min(300.0 if self.thorough else 100.0, left / 3))

        def hit(sig, frame):
            raise real.Unknown('time budget of %d s' % lim)
        old = signal.signal(signal.SIGALRM, hit)
        signal.setitimer(signal.ITIMER_REAL, lim, 2.0)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def ob(self, name, proof, search=None, kind='proof', backend='real-normal-form+z3', bounded_ok=True):
        """one obligation.
        proof(): True discharged / False refuted / None undecided.
        search(): None or a dict describing a failing input replayed on the
        real code (also the bounded stand-in when proof is undecided)."""
        t0 = time.time()
        why = None
        try:
            with self.budget(name):
                r = proof()
        except (sx.Unsupported, real.Unknown) as e:
            r, why = None, '%s: %s' % (type(e).__name__, e)
        dt = time.time() - t0
        if os.environ.get('VERIF_TRACE'):
            print('  %7.2f s  %s  %s' % (dt, name, r if not isinstance(r, tuple) else r[0]), why and str(why)[:300] or '', flush=True)
        self.backend_s[backend] = self.backend_s.get(backend, 0) + dt
        rec = dict(name=name, s=round(dt, 3), backend=backend)
        if isinstance(r, tuple):
            r, why = r
        if r is True:
            rec['status'] = 'discharged'
            self.obs.append(rec)
            return True
        inp, err = None, None
        if search is not None:
            try:
                inp = search()
            except (sx.Unsupported, real.Unknown) as e:
                err = str(e)
        if isinstance(inp, tuple):
            inp, nchecked = inp
        else:
            nchecked = None
        if isinstance(inp, dict):
            rec['status'] = 'refuted'
            self.obs.append(rec)
            if 'exact' in inp:
                inp, why = None, 'fails for %s' % (inp['exact'],)
            self.violate(name, inp, why)
            return False
        if r is False and (search is None or err):
            rec['status'] = 'refuted'
            self.obs.append(rec)
            self.violate(name, None, why)
            return False
        if r is False:
            # normal forms differ over uninterpreted atoms, but no input shows
            # it on the real code: not counted as proved, not an alarm
            why = 'normal forms differ (%s) but %s replays agree' % (why, nchecked)
        rec['status'] = 'undecided'
        rec['why'] = why
        if search is None or err:
            rec['error'] = err
            self.obs.append(rec)
            self.notes.append('UNDECIDED %s: %s %s' % (name, why, err))
            self.hard_undecided = True
            return None
        rec['status'] = 'bounded'
        rec['cases'] = nchecked
        self.obs.append(rec)
        self.notes.append('BOUNDED (not proved) %s: %s' % (name, why))
        return None

    hard_undecided = False

    def bounded(self, name, search, n_desc=''):
        """a stand-in that is bounded by construction"""
        t0 = time.time()
        r = search()
        n = None
        if isinstance(r, tuple):
            r, n = r
        rec = dict(name=name, s=round(time.time() - t0, 3), backend='bounded native run', status='bounded', cases=n,
                   bound=n_desc)
        if isinstance(r, dict):
            rec['status'] = 'refuted'
            self.obs.append(rec)
            self.violate(name, r, 'bounded stand-in')
            return False
        self.obs.append(rec)
        return True

    def cover(self, name, ok):
        """vacuity guard: must hold"""
        self.covers += 1
        if not ok:
            raise RuntimeError('vacuity guard failed: ' + name)

    def violate(self, name, inp, why):
        site = name
        for k, d in self.kf.items():
            if name == k or (k.endswith('*') and name.startswith(k[:-1])):
                self.known.append((name, d))
                self.obs[-1]['status'] = 'known-finding'
                return
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        fn = os.path.join(VERIF, 'replays', '%s_%s.json' % (self.pid, hashlib.sha256(name.encode()).hexdigest()[:8]))
        with open(fn, 'w') as f:
            json.dump(dict(property=self.pid, obligation=name, failing_input=inp, verifier_output=str(why)[:6000]), f,
                      indent=1, default=str)
        self.violations.append((name, fn, inp is not None))

    # ------------------------------------------------------------ finish
    def finish(self):
        n = len(self.obs)
        disc = sum(1 for o in self.obs if o['status'] == 'discharged')
        bnd = [o for o in self.obs if o['status'] == 'bounded']
        ev_ = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                   coverage=dict(obligations=n - len(bnd), discharged=disc,
                                 checker_cmd='python3-vt props/%s.py (engine: sx.py obligations from LLVM IR of /repo; '
                                             'back ends %s)' % (self.pid, ', '.join(sorted(self.backend_s))),
                                 trusted_base=TRUSTED + sorted(self.trusted)[:40],
                                 functions_under_contract=sorted(self.functions)[:400],
                                 solver_seconds={k: round(v, 2) for k, v in self.backend_s.items()},
                                 bounded_standins=bnd,
                                 vacuity_guards=self.covers,
                                 executor_vs_native_runs=self.diff_runs,
                                 obligation_list=[o for o in self.obs if o['status'] != 'bounded']),
                   assumptions=self.assumptions,
                   wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.level == 'other':
            ev_['coverage']['explanation'] = (
                '%d obligations discharged by the deductive back end (they are proofs, for all inputs, of the parts listed in obligation_list); '
                'the rest of the property is decided by %d bounded stand-ins (%d runs of the real program, see bounded_standins for the bounds), '
                'which are not counted as proved' % (disc, len(bnd), sum(o.get('cases') or 0 for o in bnd)))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev_, f, indent=1)
        for x in self.notes[:20]:
            print('NOTE', x[:400])
        print('%s: %d obligations, %d discharged, %d bounded stand-ins, %d functions, %.1f s' % (
            self.pid, n - len(bnd), disc, len(bnd), len(self.functions), time.time() - self.t0))
        for name, d in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, d['what']))
        if self.violations:
            best = sorted(self.violations, key=lambda v: not v[2])
            for name, fn, conf in best:
                print('failed obligation: %s (%s)' % (name, fn))
            name, fn, conf = best[0]
            print('VIOLATION property=%s replay=%s%s' % (self.pid, fn, '' if conf else ' no-failing-input-found'))
            sys.exit(1)
        if (n == 0 or disc + len(bnd) == 0) and not self.unbuilt:
            print('ERROR no obligations')
            sys.exit(3)
        if self.hard_undecided:
            print('NOT PROVED: some obligations are undecided (see evidence), nothing was refuted')
        sys.exit(0)

    level = 'proof'
    unbuilt = False

    # ------------------------------------------------------------ helpers for proofs
    def selftest(self, run, n, hook=None, pre=(), nmax=5, min_ok=1, regs=None):
        """the executor's result agrees with the native code on n random
        inputs satisfying pre (also the vacuity witness for pre)"""
        run.exec()
        def go(note):
            ok, skip, tries = 0, 0, 0
            rng = random.Random(self.rng.random())
            while ok < n and tries < n * 60:
                tries += 1
                g = Gen(rng, hook, nmax)
                if regs:
                    g.reg.update(regs)
                try:
                    if not all(ev(p, g) for p in pre):
                        continue
                    note(g.vals)
                    d = run.selftest(g)
                except (t.EvalError, ZeroDivisionError, OverflowError):
                    continue
                if d == 'skip':
                    skip += 1
                    continue
                if d:
                    return ('bad', d, g.vals)
                ok += 1
            return ('ok', ok, skip, tries)
        r = isolated(go)
        if r[0] == 'ok':
            r = r[1]
            if r[0] == 'bad':
                return 'executor and native code disagree on %s: %s inputs %s' % (run.fname, r[1], str(r[2])[:600])
            self.diff_runs += r[1]
            if r[1] < min_ok:
                return 'no valid input found for %s (%s)' % (run.fname, r)
            return None
        return 'native self-test of %s: %s' % (run.fname, r)

    def require_selftest(self, run, n=20, **kw):
        self.absorb(run)
        e = self.selftest(run, n, **kw)
        if e:
            # the executor's reading of this function is not trustworthy
            raise sx.Unsupported('self-test: ' + e)

    def sample(self, run, judge, hook=None, pre=(), n=400, nmax=4, regs=None, guides=None, terms=(), timeout=120):
        """replays run natively on n inputs satisfying pre; judge(ret, bufs,
        gen) -> None or a description of the failure"""
        run.mention(*terms)
        run.mention(*pre)
        gd = guides() if callable(guides) else (guides or {})
        pool, fpool = run.pool(), run.fpool()

        def go(note):
            rng = random.Random(self.rng.random())
            good = 0
            for i in range(n * 20):
                if good >= n:
                    break
                g = Gen(rng, hook, nmax, None, pool, fpool if i % 2 else ())
                if gd and i % 2 == 0:
                    p = rng.choice([1.0, 1.0, .8, .5])
                    g.fixed = {k: v for k, v in gd.items() if rng.random() < p}
                if regs:
                    g.reg.update(regs)
                try:
                    if not all(ev(p, g) for p in pre):
                        continue
                    note(dict(g.vals))
                    r, b = run.call_native(g)
                    good += 1
                    d = judge(r, b, g)
                    if d is not None:
                        return dict(inputs=dict(g.vals), function=run.fname, failure=d)
                except (t.EvalError, ZeroDivisionError, OverflowError):
                    continue
            return good
        r = isolated(go, timeout)
        if r[0] == 'ok':
            if isinstance(r[1], dict):
                return r[1]
            if r[1] < 5:
                raise sx.Unsupported('search reached only %d inputs' % r[1])
            return None, r[1]
        if r[0] == 'died':
            return dict(inputs=r[2], observed='process died, status %s' % r[1], function=run.fname)
        if r[0] == 'timeout':
            return dict(inputs=r[1], observed='no result within the time limit', function=run.fname)
        raise sx.Unsupported('search: %s' % (r,))

    def reader(self, run, where):
        if where == 'ret':
            return (lambda r, b: r), (lambda: run.val)
        o, off, *ty = where
        ty = ty[0] if ty else ir.F64
        if o == 'global':
            def rdg(r, b):
                a = run.native.addr(off.lstrip('@'))
                if a is None:
                    raise sx.Unsupported('no native global ' + off)
                n = sortw(ty)
                raw = ctypes.string_at(a, n)
                return struct.unpack('<d', raw)[0] if ty[0] == 'f' else int.from_bytes(raw, 'little')

            def vg():
                run.exec()
                g = run.ex.gobj.get(off)
                v = sx.Ptr(g, 0) if g is not None else None
                return run.ex.load(run.st, v, ty) if v else t.sym('g:%s+0' % off[1:], sx.sort_of(ty))
            return rdg, vg
        o = run.w.objs[o] if isinstance(o, str) else o
        return (lambda r, b: b.read(o, off, ty)), (lambda: run.cell(o, off, ty))

    def search_terms(self, run, pairs, hook=None, pre=(), n=400, nmax=4, regs=None, rel=1e-7, scale=1e-5, guides=None):
        """pairs: [(read, term)]: the native observation equals the specified value"""
        def judge(r, b, g):
            for k, (read, spec) in enumerate(pairs):
                want = ev(spec, g)
                got = read(r, b)
                if isinstance(want, bool):
                    got = bool(got)
                sc = scale if isinstance(want, float) else 0.0
                if not close(got, want, rel, sc):
                    return dict(observed=got, specified=want, output=k)
            return None
        return self.sample(run, judge, hook, pre, n, nmax, regs, guides, [s for _, s in pairs])

    def confirm(self, a, b, pre=(), hook=None, regs=None, n=300, nmax=3, guides=None, tol=1e-11, cond=None):
        """an input satisfying pre on which the executor's (self-tested) reading
        of the code and the specification differ in high precision"""
        import mpmath
        rng = random.Random(self.rng.random())
        gd = guides() if callable(guides) else (guides or {})
        mpmath.mp.dps = 40
        good = 0
        t0 = time.time()
        try:
            for i in range(n * 10):
                if good >= n or time.time() - t0 > 20:
                    break
                g = Gen(rng, hook, nmax)
                if gd and i % 2 == 0:
                    p = rng.choice([1.0, 1.0, .8, .5])
                    g.fixed = {k: v for k, v in gd.items() if rng.random() < p}
                if regs:
                    g.reg.update(regs)
                try:
                    t.PREC = None
                    if not all(ev(p, g) for p in pre):
                        continue
                    t.PREC = mpmath
                    good += 1
                    if cond is not None:
                        if not ev(cond, g):
                            return dict(inputs=dict(g.vals), precise_evaluation='condition false')
                        continue
                    x, y = ev(a, g), ev(b, g)
                    if abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > 1e-25:
                        if near_tie(a, b, g):
                            continue
                        return dict(inputs=dict(g.vals), code_value=mpmath.nstr(x, 20), specified_value=mpmath.nstr(y, 20),
                                    note='evaluated in 40 digits from the obligation terms of the code')
                except (t.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError):
                    continue
        finally:
            t.PREC = None
        return None

    def tested(self, run, n=20, **kw):
        """self-test once per run"""
        if not hasattr(run, 'tested_'):
            try:
                run.exec()
                if n:
                    self.require_selftest(run, n, **kw)
                run.tested_ = True
            except sx.Unsupported as e:
                run.tested_ = e
        if run.tested_ is not True:
            raise run.tested_

    def equal_ob(self, name, run, where, spec, pre=(), hook=None, regs=None, ctx=None, n=300, nmax=4, rel=1e-7, scale=1e-5,
                 facts=(), n_self=20, adapt=None, abst=None):
        """obligation: output `where` of the run equals the specified term.
        pre: preconditions assumed by the proof and by the search;
        facts: further facts for the proof only"""
        read, val = self.reader(run, where)
        st = {}

        def proof():
            self.tested(run, n_self, hook=hook, pre=pre, regs=regs, nmax=nmax)
            c = ctx() if callable(ctx) else (ctx or real.Ctx())
            st['c'] = c
            v = val()
            if not isinstance(v, t.T):
                raise sx.Unsupported('output not a value')
            if adapt:
                v = adapt(v)
            if v.s != 'f':
                r = smt.valid(t.eq(v, spec), list(pre) + list(facts))
                if r is False:
                    st['bv'], st['exact'] = smt.refute(t.eq(v, spec), list(pre) + list(facts))
                return r
            a_, b_, fs = v, spec, list(pre) + list(facts)
            if abst:
                (a_, b_, *fs), more = abst([v, spec] + fs)
                fs = fs + more
            r = c.equal(a_, b_, fs)
            if r is False:
                w_ = c.why
                st['cex'] = self.confirm(v, spec, list(pre) + list(facts), hook, regs, nmax=nmax, guides=c.guide)
                c.why = w_
                return False, 'normal forms differ: %s' % (tuple(t.show(x, 4)[:400] if isinstance(x, t.T) else
                                                           [t.show(y, 3)[:120] for y in x] for x in c.why if x),)
            return r
        return self.ob(name, proof, lambda: with_cex(st, self.search_terms(
            run, [(read, spec)], hook, pre, n, nmax, regs, rel, scale,
            guides=lambda: st['bv'] if st.get('bv') and '*large' not in st['bv'] else st['c'].guide() if 'c' in st else {})))

    def ident_ob(self, name, run, wheres, sides, mag, pre=(), hook=None, regs=None, ctx=None, n=300, nmax=4, rel=1e-9, facts=(),
                 n_self=20):
        """obligation: the two terms sides(outputs...) are equal; mag(outputs...)
        gives the magnitude against which native rounding is judged"""
        rv = [self.reader(run, w_) for w_ in wheres]
        st = {}
        fs = list(pre) + list(facts)

        def proof():
            self.tested(run, n_self, hook=hook, pre=pre, regs=regs, nmax=nmax)
            vs = [v() for _, v in rv]
            if any(not isinstance(v, t.T) for v in vs):
                raise sx.Unsupported('output not a value')
            c = ctx() if callable(ctx) else (ctx or real.Ctx())
            st['c'] = c
            a, b = sides(*vs)
            r = c.equal(a, b, fs)
            if r is False:
                w_ = c.why
                st['cex'] = self.confirm(a, b, fs, hook, regs, nmax=nmax, guides=c.guide)
                return False, 'normal forms differ: %s' % (tuple(t.show(x, 4)[:400] if isinstance(x, t.T) else
                                                           [t.show(y, 3)[:120] for y in x] for x in w_ if x),)
            return r

        def judge(r, b, g):
            got = [rd(r, b) for rd, _ in rv]
            ks = [t.fc(x) for x in got]
            x, y = (ev(z, g) for z in sides(*ks))
            m = ev(mag(*ks), g)
            if not abs(x - y) <= rel * abs(m) + 1e-300:
                return dict(outputs=got, left=x, right=y)
            return None
        probe = [t.sym('#o%d' % i, 'f') for i in range(len(wheres))]
        return self.ob(name, proof, lambda: with_cex(st, self.sample(
            run, judge, hook, pre, n, nmax, regs, lambda: st['c'].guide() if 'c' in st else {}, list(sides(*probe)))))

    def valid_ob(self, name, run, wheres, cond, pre=(), hook=None, regs=None, ctx=None, n=300, nmax=4, facts=(), n_self=20,
                 timeout=60000, bits=False, slack=None, adapt=None, abst=None, direct=False):
        """obligation: cond(outputs...) holds.  slack: cond used natively
        (allows rounding)"""
        rv = [self.reader(run, w_) for w_ in wheres]
        st = {}

        def proof():
            self.tested(run, n_self, hook=hook, pre=pre, regs=regs, nmax=nmax)
            vs = [v() for _, v in rv]
            if any(not isinstance(v, t.T) for v in vs):
                raise sx.Unsupported('output not a value')
            if adapt:
                vs = [adapt(v) for v in vs]
            c_ = cond(*vs)
            if c_ is t.TRUE:
                return True
            fs = list(pre) + list(facts) + run.ex.inv_facts
            if bits:
                return smt.valid(c_, fs, timeout)
            if abst:
                (c_, *fs), more = abst([c_] + fs)
                fs = fs + more
            c = ctx() if callable(ctx) else (ctx or real.Ctx())
            st['c'] = c
            r = c.valid(c_, fs, timeout) if direct else c.valid_split(c_, fs, timeout)
            if r is False and direct:
                return False, 'not valid'
            if r is False:
                return False, 'not valid: %s under %s' % (t.show(c.why[0], 4)[:600], [t.show(y, 4) for y in c.why[2]] if os.environ.get('VERIF_TRACE') else '..')
            if r is None:
                return None, 'solver gave up'
            return r

        def judge(r, b, g):
            got = [rd(r, b) for rd, _ in rv]
            ks = []
            for x, (_, v) in zip(got, rv):
                ks.append(t.fc(x) if isinstance(x, float) else x)
            ws = [self.width(run, w_) for w_ in wheres]
            ks = [k if isinstance(k, t.T) else (t.TRUE if k & 1 else t.FALSE) if b_ == 'b' else t.bv(int(k), b_) for k, b_ in zip(ks, ws)]
            c_ = (slack or cond)(*ks)
            if not ev(c_, g):
                return dict(observed=got, violated=t.show((slack or cond)(*ks), 4)[:300])
            return None
        probe = [t.sym('#o%d' % i, 'f' if self.width(run, w_) == 'f' else self.width(run, w_)) for i, w_ in enumerate(wheres)]
        return self.ob(name, proof, lambda: self.sample(run, judge, hook, pre, n, nmax, regs,
                                                        lambda: st['c'].guide() if 'c' in st else {}, [cond(*probe)]),
                       backend='z3 bit-vectors' if bits else 'real-normal-form+z3')

    def width(self, run, where):
        ty = run.ret if where == 'ret' else (where[2] if len(where) > 2 else ir.F64)
        if ty[0] == 'f':
            return 'f'
        return 'b' if ty[1] == 1 else ty[1]


def with_cex(st, r):
    """the native failing input, else the high-precision one"""
    if isinstance(r, dict):
        return r
    if st.get('exact'):
        return dict(exact={k: v for k, v in sorted(st['bv'].items())[:40]})
    return st.get('cex') or r


def near_tie(a, b, g):
    """some deciding comparison is (almost) an equality at this input, so the
    piece chosen is a matter of rounding"""
    for y in t.walk(a, b):
        if y.op in ('flt', 'fle', 'feq'):
            try:
                p, q = ev(y.a[0], g), ev(y.a[1], g)
            except (t.EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError):
                continue
            if abs(p - q) <= 1e-12 * max(abs(p), abs(q), 1e-3):
                return True
    return False


def hash_(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


TRUSTED = [
    'clang++-18 -O1 lowering of the current /repo sources to LLVM IR (the verified text); g++ builds the native replay library from the same files',
    'engine/ir.py, sx.py, term.py (obligation generator), cross-checked on every run against native executions of the same functions',
    'engine/real.py rational normal form; z3 4.x',
]

_dm = {}


def demangle(n):
    n = n.lstrip('@')
    if n not in _dm:
        import subprocess
        try:
            _dm[n] = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
        except OSError:
            _dm[n] = n
    return _dm[n]


def main(pid, body, level='proof'):
    ck = Check(pid)
    ck.level = level
    try:
        body(ck)
    except SystemExit:
        raise
    except (sx.Unsupported, real.Unknown) as e:
        # outside the reach of the executor: what was not reached is not proved
        ck.notes.append('UNDECIDED from here on: %s' % e)
        ck.obs.append(dict(name='remaining obligations', s=0, backend='-', status='undecided', why=str(e)))
        ck.hard_undecided = True
    except build.BuildError as e:
        # the harness no longer fits the declarations of the code: nothing is claimed about what it would have reached
        print(str(e)[:3000])
        ck.notes.append('NOT PROVED: the harness does not compile against this tree: %s' % str(e)[:300])
        ck.obs.append(dict(name='remaining obligations', s=0, backend='-', status='undecided', why=str(e)[:600]))
        ck.hard_undecided = ck.unbuilt = True
    except BaseException as e:
        traceback.print_exc()
        print('ERROR %s: %s' % (pid, e))
        if ck.violations:
            ck.finish()
        sys.exit(2)
    ck.finish()
