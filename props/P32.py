"""parameter files"""
from hydrolib import *
import procs
from P30 import guarded

INT = {'int': 32, 'long': 64, 'short': 16}
NUM = dict(
    long='initial_iteration final_iteration pressure_updates_number nparticles lattice_nx',
    int='domain_type out_screen_every out_scalar_every out_h5data_every out_diagnostic_every wvt_cool_down relaxation_steps lattice_type',
    short='sodtest_num',
    double='initial_time final_time initial_dt timestep_cfl_factor sph_eta sph_smoothing_length sph_separation sph_sinc_index box_length box_width box_height '
           'sphere_radius lattice_mismatch_tolerance out_screen_dt out_scalar_dt out_h5data_dt wvt_mu wvt_ngb wvt_convergence_point wvt_radius poly_gamma '
           'poly_gamma2 ppt_density_thr sph_viscosity_alpha sph_viscosity_beta sph_viscosity_epsilon sph_viscosity_alpha_max sph_viscosity_l '
           'sph_viscosity_delta fmm_macangle relaxation_beta relaxation_gamma relaxation_repulsion_radius relaxation_repulsion_gamma '
           'zero_potential_poison_value extforce_wall_powerindex extforce_wall_steepness mesa_rim_width gravity_acceleration_constant '
           'gravitational_constant orbital_separation mass_neutron_star mass_white_dwarf rho_initial pressure_initial uint_initial sedov_blast_energy '
           'sedov_blast_radius noh_infall_velocity lattice_perturbation_amplitude flow_velocity density_ratio KH_A KH_lambda rt_perturbation_amplitude '
           'rt_perturbation_stripe_width rt_perturbation_mode airfoil_size airfoil_thickness airfoil_camber airfoil_anchor_x airfoil_anchor_y '
           'airfoil_attack_angle',
    bool='adaptive_timestep sph_update_uniform_h sph_variable_h do_boundaries stop_boundaries reflect_boundaries periodic_boundary_x periodic_boundary_y '
         'periodic_boundary_z modify_initial_data out_h5data_separate_iterations wvt_convergence_check wvt_h_ngb enable_fmm evolve_internal_energy '
         'thermokinetic_formulation equal_mass',
    text='initial_data_prefix output_h5data_prefix wvt_method wvt_boundary eos_tab_file_path external_force_type density_profile input_density_file')
KEYS = dict(sph_kernel=dict(cubic_spline=0, quintic_spline=1, wendland_c2=2, wendland_c4=3, wendland_c6=4, gaussian=5, super_gaussian=6, sinc_ker=7),
            eos_type=dict(ideal_fluid=0, polytropic=1, wd=2, white_dwarf=2, ppt=3, piecewise_polytropic=3, no_eos=4, none=4),
            sph_viscosity=dict(constant=0, cullen=1))
KIND = {n: k for k, v in NUM.items() for n in v.split()}
KIND.update({n: 'keyword' for n in KEYS})
YES = ['yes', "'yes'", '"yes"', 'true', "'true'", '"true"']


def run_set(ck, m):
    NAMES = sorted(KIND)
    nid = {n: i + 1 for i, n in enumerate(NAMES)}
    NAME = t.sym('NAME', 32, 2 ** 20)
    nlen, vlen = t.sym('namelen', 64, 2 ** 31 - 2), t.sym('valuelen', 64, 2 ** 31 - 2)
    w = World(m)
    nobj = w.obj('name-text', None, 4096, {})
    vobj = sx.Obj('value-text', None, 'input', elem=1, log=True, fields={0: ('i', 8)})
    names = sx.Obj('name', 32, 'input', ptrs={0: sx.Ptr(nobj, 0)})
    vals = sx.Obj('value', 32, 'input', ptrs={0: sx.Ptr(vobj, 0)})
    other = {}
    first = t.bv(ord('+'), 8)
    for i, c in enumerate('abz-.0129ABZ_~/'):
        first = t.ite(t.sym('first is ' + c, 'b'), t.bv(ord(c), 8), first)

    def const(ex, st, p, n):
        s = ''
        while not n.c or len(s) < n.d:
            c = ex.load(st, p.add(len(s)), ('i', 8))
            if not c.c:
                raise sx.Unsupported('text that is not constant')
            if not n.c and not c.d:
                break
            s += chr(c.d)
        return s

    def cmp(ex, st, args, ins):
        a, b, n = args
        for x, y in ((a, b), (b, a)):
            if isinstance(x, sx.Ptr) and x.o in (nobj, vobj):
                s = const(ex, st, y, n)
                if not n.c and smt.valid(t.eq(n, t.bv(len(s), 64)), [st.g], 5000) is not True:
                    raise sx.Unsupported('comparison of unknown length')
            if isinstance(x, sx.Ptr) and x.o is nobj:
                k = nid.get(s) or other.setdefault(s, 1000 + len(other))
                return t.ite(t.eq(NAME, t.bv(k, 32)), t.bv(0, 32), t.bv(1, 32))
            if isinstance(x, sx.Ptr) and x.o is vobj:
                return t.ite(t.sym('value is ' + s, 'b'), t.bv(0, 32), t.bv(1, 32))
        raise sx.Unsupported('comparison of other texts %r %r' % (a, b))

    def iequals(ex, st, args, ins):
        s = ''
        while True:
            c = ex.load(st, args[1].add(len(s)), ('i', 8))
            if not c.c:
                raise sx.Unsupported('text that is not constant')
            if not c.d:
                break
            s += chr(c.d)
        return t.sym('word is ' + s.lower(), 'b')

    def assign(ex, st, args, ins):
        ex.store(st, args[0], sx.Ptr(vobj, 0), ir.PTR)
        ex.store(st, args[0].add(8), vlen, ('i', 64))
        ex.store(st, sx.Ptr(vobj, 0), first, ('i', 8))
        return None

    def number(kind):
        def h(ex, st, args, ins):
            if kind == 'double':
                ex.store(st, args[1], t.sym('number', 'f'), ir.F64)
            else:
                ex.store(st, args[1], t.sym('number as ' + kind, INT[kind]), ('i', INT[kind]))
            return args[0]
        return h

    def copy(ex, st, args, ins):
        if not isinstance(args[1], sx.Ptr) or args[1].o is not vobj:
            raise sx.Unsupported('strcpy of another text')
        ex.store(st, args[0], t.sym('text', 64), ('i', 64))
        return args[0]

    def noop(ex, st, args, ins):
        return ex.opaque_value(ins, args)
    rx = re.compile
    out = sx.Obj('g:_ZSt4cout', 512, 'input')
    con = {rx(r'log_message_t6streamEv'): lambda *a: sx.Ptr(out, 0), '@bcmp': cmp, '@memcmp': cmp, '@strcpy': copy, rx(r'^@_ZN5boost9algorithm7iequals'): iequals,
           rx(r'basic_stringI.*4findE'): lambda *a: t.bv(2 ** 64 - 1, 64), rx(r'9_M_assignE'): assign,
           rx(r'_M_extractIdE'): number('double'), rx(r'_M_extractIlE'): number('long'), rx(r'_M_extractItE'): number('short'), rx(r'^@_ZNSirsERi$'): number('int'),
           rx(r'^@_ZNSirsERt$'): number('short'), rx(r'^@_ZNSirsERs$'): number('short'),
           rx(r'log_message|MPI_Comm|locale|istringstream|ios_base|ostream|_ZNSo|_ZSt4endl|_ZdlPv|ctype|^@_ZNSt7__cxx1112basic_stringIc.*10_M_disposeEv'): noop}
    r = Run(w, ck.nat(2), 'w_set', [names, vals], None, con, None)
    return r, nid, other, t.sym('name+8', 64), vlen


def leaves(x, c=t.TRUE):
    if x.op == 'ite':
        return leaves(x.a[1], t.and_(c, x.a[0])) + leaves(x.a[2], t.and_(c, t.not_(x.a[0])))
    return [(c, x)]


def assignment(ck, exe):
    ck.build([(2, 'params.cc', 2, ())])
    m, nat = ck.mod(2), ck.nat(2)
    ck.assume('contracts of the text library used: comparison, case-insensitive comparison, copy and number extraction are functions of the texts; '
              'the value has no comment and no quotes here (both in the generated files)')
    r, ids, other, nlen, vlen = run_set(ck, m)
    r.exec()
    ck.absorb(r)
    NAME = t.sym('NAME', 32, 2 ** 20)
    is_ = lambda n: t.eq(NAME, t.bv(ids[n], 32))
    val = lambda s: t.sym('value is ' + s, 'b')
    word = lambda s: t.sym('word is ' + s, 'b')
    facts = [t.implies(t.eq(NAME, t.bv(k, 32)), t.eq(nlen, t.bv(len(n), 64))) for n, k in list(ids.items()) + list(other.items())]
    texts = sorted({str(y.d)[9:] for g in [r.st.g] + [v for os_ in r.st.mem.values() for sz, v in os_.cells.values() if isinstance(v, t.T)]
                    for y in t.walk(g) if y.op == 'sym' and str(y.d).startswith('value is ')} | set(YES))
    for s in texts:
        facts.append(t.implies(val(s), t.eq(vlen, t.bv(len(s), 64))))
        if s[:1] in '\'"':
            facts.append(t.not_(val(s)))
        facts += [t.not_(t.and_(val(s), val(o))) for o in texts if o < s]
    g = r.st.g

    def valid(goal, pre):
        return smt.valid(goal, facts + list(pre), 20000)

    def replay(names, n=60):
        def f():
            k = 0
            for x in names:
                q = procs.run(exe, [ck.seed * 1000, n, x], 1, 60)
                if q[0] == 'fail':
                    return dict(run='paramrun %d %d %s' % (ck.seed * 1000, n, x), what=q[1])
                k += q[1] if q[0] == 'ok' else 0
            return None, k
        return f

    def new(n, k):
        """value the parameter gets, as a condition on a leaf"""
        if k in INT:
            return lambda v: v is t.sym('number as ' + k, INT[k])
        if k == 'double':
            return lambda v: v is t.sym('number', 'f')
        return lambda v: v is t.sym('text', 64)

    def old(y):
        return y.op == 'sym' and str(y.d).startswith('g:')

    def final(n, ty):
        nm = [x for x in r.ex.gobj if re.search(r'^@_ZN5paramL?%d_%sE$' % (len(n) + 1, n), x)]
        if not nm:
            return None
        return r.ex.load(r.st, sx.Ptr(r.ex.gobj[nm[0]], 0), ty)

    def proof(n, k):
        def f():
            ty = {'double': ir.F64, 'bool': ('i', 8), 'text': ('i', 64), 'keyword': ('i', 32)}.get(k) or ('i', INT[k])
            x = final(n, ty)
            if x is None:
                return False, 'the parameter is never written'
            here = is_(n)
            if k in ('bool', 'keyword'):
                ch = [(c, v) for c, v in leaves(x)]
                for c, v in ch:
                    if old(v):
                        if valid(t.not_(t.and_(c, here)), [g]) is not True:
                            return False, '%s keeps its value although it is assigned' % n
                    elif valid(here, [g, c]) is not True:
                        return False, '%s changes although another parameter is assigned' % n
                if k == 'bool':
                    want = t.or_(*[val(s) for s in YES])
                    for b in (0, 1):
                        if valid(t.eq(x, t.bv(b, 8)), [g, here, want if b else t.not_(want)]) is not True:
                            return False, '%s is not %d for its value' % (n, b)
                    return True
                ws = KEYS[n]
                for w_, e in ws.items():
                    if valid(t.eq(x, t.bv(e, 32)), [g, here, word(w_)] + [t.not_(word(o)) for o in ws if o != w_]) is not True:
                        return False, '%s = %s does not select %s' % (n, w_, w_)
                if valid(t.or_(*[word(o) for o in ws]), [g, here]) is not True:
                    return False, '%s accepts another word' % n
                return True
            isnew = new(n, k)
            for c, v in leaves(x):
                if isnew(v):
                    if valid(here, [g, c]) is not True:
                        return False, '%s changes although another parameter is assigned' % n
                elif old(v):
                    if valid(t.not_(t.and_(c, here)), [g]) is not True:
                        return False, '%s keeps its value although it is assigned' % n
                elif valid(t.not_(c), [g]) is not True:
                    return False, '%s gets %s' % (n, str(v)[:200])
            return True
        return f
    for n, k in KIND.items():
        ck.ob('%s: the value as written when it is assigned, unchanged otherwise' % n, proof(n, k), replay([n] + (['any'] if True else [])))
    known = t.or_(*[t.eq(NAME, t.bv(k, 32)) for k in list(ids.values()) + list(other.values())])

    def unknown():
        return valid(known, [g]) is True or (False, 'a name that is no parameter is accepted')

    def accepted():
        for n, k in KIND.items():
            pre = [is_(n)]
            for w_ in KEYS.get(n, [None]):
                pw = pre + ([word(o) if o == w_ else t.not_(word(o)) for o in KEYS[n]] if w_ else [])
                for b, why in r.ex.aborts + r.ex.asserts:
                    if valid(t.not_(b), pw) is not True:
                        return False, '%s is refused: %s' % (n, why)
        return True
    ck.ob('a name that is no parameter ends the program', unknown, replay(['bad'], 400))
    ck.ob('no parameter with a proper value ends the program', accepted, replay(['any'] + list(KEYS), 100))
    ck.cover('assignments return', smt.valid(t.FALSE, [g] + facts, 20000) is not True)


BOUND = ('generated parameter files: up to 40 assignments in any order and repeated, blanks and tabs, comments, quotes, key words in any case, '
         'lines before and after, 1 to 5 processes; malformed lines, unknown names and unknown key words')


def body(ck):
    ck.level = 'other'
    X = procs.exes({0: ('paramrun.cc', 2, ())})[0]
    guarded(ck, 'one assignment', lambda ck: assignment(ck, X))
    s0, k = ck.seed * 100000, 10 if ck.thorough else 1
    procs.sweep(ck, 'parameter files give the parameters on every process',
                [('%d processes' % np, X, [s0 + 1000 * np, 150 * k, 'any'], np) for np in (1, 2, 3, 5)] +
                [('malformed files', X, [s0, 1500 * k, 'bad'], 1)] +
                [('key words of ' + n, X, [s0 + 50000, 60 * k, n], 1) for n in KEYS], BOUND)


if __name__ == '__main__':
    main('P32', body)
