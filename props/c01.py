import ast
import os
import re
from sa.rules import *
from sa.program import REPO

ID = 'C01'
PROP = {
    'title': 'A model run is reproducible',
    'statement': 'Running the same model setup again, after a rewind or in a fresh process, gives the same trajectories and '
                 'weathering, because every random draw comes from a generator that a rewind resets to a fixed seed and no '
                 'step depends on the wall clock.',
    'quantifier': {'over': ['programs', 'histories', 'configurations'],
                   'text': 'every sequence of runs, rewinds and partial runs of every model configuration'},
    'why_tests_cant': 'A test compares two runs of one small model; an unseeded draw in a rarely used component, or on a path '
                      'the test does not take, stays unseen. The full model cannot even be imported in the test environment.',
    'anchors': {'files': ['py_gnome/gnome/model.py', 'py_gnome/gnome/utilities/rand.py', 'py_gnome/gnome/movers',
                          'py_gnome/gnome/spills', 'py_gnome/lib_gnome'],
                'mechanism': ['Model.rewind', 'gnome.utilities.rand.seed', 'cy_helpers.srand']},
}
TECHNIQUE = ('interprocedural effect analysis of the Python sources: must-call of the reseeding function with a constant '
             'on every path of the rewind, completeness of the reseeding function over the generator families the '
             'package draws from, and a scan of every call site for unseeded or wall-clock sources')
MIN = 40

NP_CTORS = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.SeedSequence',
            'numpy.random.PCG64', 'numpy.random.MT19937', 'numpy.random.Philox', 'numpy.random.SFC64',
            'random.Random', 'random.SystemRandom'}
ALWAYS_BAD = {'os.urandom', 'secrets.token_bytes', 'secrets.randbelow', 'secrets.choice', 'random.SystemRandom',
              'uuid.uuid4', 'secrets.SystemRandom', 'secrets.randbits'}
CLOCK = {'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'time.time', 'time.time_ns',
         'time.perf_counter', 'time.monotonic', 'datetime.date.today', 'time.clock', 'time.process_time', 'os.getpid',
         'time.localtime', 'time.gmtime', 'time.perf_counter_ns', 'time.monotonic_ns'}
RESEED = 'gnome.utilities.rand.seed'
STEP_PKGS = ('gnome.movers', 'gnome.weatherers', 'gnome.spills', 'gnome.maps', 'gnome.environment', 'gnome.ops',
             'gnome.spill_container', 'gnome.utilities.rand', 'gnome.utilities.distributions', 'gnome.utilities.geometry',
             'gnome.array_types', 'gnome.tamoc')
CTOR_LIKE = ('__init__',)


def fam(q):
    if q is None:
        return None
    if q.startswith('numpy.random.'):
        return 'numpy'
    if q.startswith('random.'):
        return 'python'
    if q.startswith('gnome.cy_gnome'):
        return 'native'
    return None


def r_rewind_reseeds(ctx):
    c = ctx.P.cls('gnome.model.Model')
    s = summary(ctx, c, 'rewind', opaque=(RESEED,))
    ev = [e for e in s.events if e.kind == 'call' and e.target == ('g', RESEED)]
    const = [e for e in ev if (e.args and e.args[0][0] == 'c' and isinstance(e.args[0][1], int))
             or ('seed' in (e.kw or {}) and e.kw['seed'][0] == 'c' and isinstance(e.kw['seed'][1], int))
             or (not e.args and not e.kw)]
    ctx.check(must(s, const), 'R1', 'gnome.model.Model.rewind:reseed',
              'rewinding the model does not reseed the random generators with a fixed seed on every path', s.events[0].loc())
    # the seed written last must be a constant
    if ev and ev[-1] not in const:
        ctx.bad('R1', 'gnome.model.Model.rewind:last-seed', 'the last reseed of a rewind uses a varying seed %s' %
                show(('tuple',) + ev[-1].args), ev[-1].loc())
    else:
        ctx.ok('R1', 'gnome.model.Model.rewind:last-seed')
    for meth, given in (('__iter__', None), ('full_run', 'rewind')):
        s = summary(ctx, c, meth, opaque=('gnome.model.Model.rewind', 'gnome.model.Model.step',
                                          'gnome.model.Model.post_model_run'))
        evs = calls(s, 'rewind', SELF)
        evs = [e for e in evs if not e.loops]
        g = truth(('p', given)) if given else 1
        ctx.check(must(s, evs, g), 'R1', 'gnome.model.Model.%s:rewinds' % meth,
                  'a fresh run can start without rewinding', s.events[0].loc())
        steps = calls(s, 'step', SELF)
        if steps and evs:
            ctx.check(min(e.seq for e in evs) < min(e.seq for e in steps), 'R1', 'gnome.model.Model.%s:rewind-first' % meth,
                      'the run is stepped before it is rewound', steps[0].loc())


def r_seed_complete(ctx):
    P = ctx.P
    f = P.func(RESEED)
    s = Summ(P).run(f)
    p0 = f.params[0]
    got = {}
    for e in s.events:
        if e.kind != 'call':
            continue
        q = e.target[1] if e.target[0] == 'g' else None
        arg = e.args[0] if e.args else None
        if q in ('numpy.random.seed', 'random.seed') and arg is not None:
            got.setdefault('numpy' if q.startswith('numpy') else 'python', []).append((e, arg))
        elif e.name in ('srand', 'set_random_seed', 'seed') and q and fam(q) == 'native':
            got.setdefault('native', []).append((e, arg))
    used = {}
    for fn in all_functions(P, ('gnome.scripting',)):
        if fn.qualname == RESEED:
            continue
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call):
                q = resolve_call_name(P, fn, n.func)
                k = fam(q)
                if k in ('numpy', 'python') and q not in NP_CTORS:
                    used.setdefault(k, []).append(fn)
                    ctx.count('random draw sites')
    used['native'] = [f]        # the compiled movers draw from the C library generator
    for k, fns in sorted(used.items()):
        evs = [e for e, a in got.get(k, []) if a == ('p', p0)]
        ctx.check(bool(evs) and must(s, evs), 'R2', 'gnome.utilities.rand.seed:' + k,
                  'the %s generator (drawn from in %d functions, e.g. %s) is not reset to the requested seed on every path'
                  % (k, len(fns), fns[0].qualname), f.module.rel)
    if len(used) < 3:
        raise AnalysisError('fewer than three generator families found')


def r_sites(ctx):
    P = ctx.P
    n_sites = 0
    for fn in all_functions(P, ('gnome.scripting', 'gnome.outputters', 'gnome.persist', 'gnome.multi_model_broadcast',
                                'gnome.utilities.remote_data')):
        deco = fn.node.args.defaults + [d for d in fn.node.args.kw_defaults if d]
        for n in ast.walk(fn.node):
            if not isinstance(n, ast.Call):
                continue
            q = resolve_call_name(P, fn, n.func)
            if q is None:
                continue
            loc = '%s:%d' % (fn.module.rel, n.lineno)
            cons = fn.qualname + ':' + q
            if q in ALWAYS_BAD:
                if fn.name in CTOR_LIKE or 'id' in fn.name.lower():
                    continue
                ctx.bad('R3', cons, 'draws from an unseedable source', loc)
            elif q in NP_CTORS:
                ctx.bad('R3', cons, 'creates a random generator that a rewind does not reset', loc)
            elif q in ('numpy.random.seed', 'random.seed') and fn.qualname != RESEED:
                ctx.bad('R3', cons, 'reseeds a generator outside the reseeding function', loc)
            elif fam(q) in ('numpy', 'python'):
                n_sites += 1
                ctx.ok('R3', cons + '@%d' % n_sites, loc)
    # module level generators
    for m in P.modules.values():
        if m.name.startswith('gnome.scripting'):
            continue
        for nm, v in list(m.assigns.items()) + [(c.name + '.' + a, x) for c in m.classes.values() for a, x in c.attrs.items()]:
            for n in ast.walk(v):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    if d:
                        r = P.lookup_in(m, d.split('.')[0])
                        q = (r[1] if r[0] == 'ext' else '?') + d[len(d.split('.')[0]):]
                        if q in NP_CTORS or q in ALWAYS_BAD:
                            ctx.bad('R3', m.name + '.' + nm + ':' + q, 'module or class level random generator that a rewind does not reset', m.rel)
    if n_sites < 10:
        raise AnalysisError('only %d random draw sites found' % n_sites)


def r_clock(ctx):
    """no wall clock value in code that runs inside a step"""
    P = ctx.P
    n = 0
    roots = []
    names = ('get_move', 'weather_elements', 'prepare_for_model_step', 'prepare_for_model_run', 'release_elements',
             'model_step_is_done', 'refloat_elements', 'beach_elements', 'initialize_LEs', 'initialize_data', 'rewind',
             'get_delta_uv', 'at', 'get_bulk_weatherables', 'aggregate', 'recalc_density', 'recalc_viscosity', 'initialize')
    for f in all_functions(P, ('gnome.scripting', 'gnome.outputters', 'gnome.persist', 'gnome.multi_model_broadcast')):
        if f.name in names:
            roots.append(f)
    seen = set()
    for f in roots:
        # same-class and same-module helpers
        st = [f]
        while st:
            g = st.pop()
            if g in seen or g.name in ('__init__',):
                continue
            seen.add(g)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call):
                    h = None
                    if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and g.cls:
                        h = P.method(g.cls, x.func.attr)
                    elif isinstance(x.func, ast.Name):
                        h = g.module.funcs.get(x.func.id)
                    if h is not None:
                        st.append(h)
    for f in sorted(seen, key=lambda f: f.qualname):
        bad = None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                q = resolve_call_name(P, f, x.func)
                if q in CLOCK:
                    bad = (q, x)
        n += 1
        if bad:
            ctx.bad('R4', f.qualname + ':' + bad[0], 'wall-clock value read in code that runs inside a model step',
                    '%s:%d' % (f.module.rel, bad[1].lineno))
        else:
            ctx.ok('R4', f.qualname)
    if n < 60:
        raise AnalysisError('only %d step functions found' % n)


TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', re.S)


def strip_cpp(t):
    return TOK.sub(lambda m: '""' if m.group(0)[0] in '"\'' else ' ' + '\n' * m.group(0).count('\n'), t)


def r_native(ctx):
    root = os.path.join(REPO, 'py_gnome', 'lib_gnome')
    nrand = 0
    for fn in sorted(os.listdir(root)):
        if not fn.lower().endswith(('.cpp', '.h', '.hpp', '.c')):
            continue
        with open(os.path.join(root, fn), errors='replace') as fh:
            t = strip_cpp(fh.read())
        nrand += len(re.findall(r'\brand\s*\(\s*\)', t))
        for m in re.finditer(r'\b(random_device|mt19937(?:_64)?|default_random_engine|minstd_rand0?|rand_r|drand48|lrand48|arc4random\w*|getrandom|srandom|random)\b\s*[({\s]', t):
            ln = t.count('\n', 0, m.start()) + 1
            ctx.bad('R5', 'lib_gnome/%s:%s' % (fn, m.group(1)), 'native code draws from a generator the reseed does not reset',
                    'py_gnome/lib_gnome/%s:%d' % (fn, ln))
        for m in re.finditer(r'\bsrand\s*\(([^;]*)\)\s*;', t):
            ln = t.count('\n', 0, m.start()) + 1
            arg = m.group(1)
            if re.search(r'\btime\b|clock|getpid|tick', arg, re.I):
                ctx.bad('R5', 'lib_gnome/%s:srand' % fn, 'native generator seeded from the clock',
                        'py_gnome/lib_gnome/%s:%d' % (fn, ln))
            else:
                ctx.ok('R5', 'lib_gnome/%s:srand' % fn)
    if nrand < 1:
        raise AnalysisError('no native draw found')
    # the wrapper passes the seed on
    with open(os.path.join(REPO, 'py_gnome', 'gnome', 'cy_gnome', 'cy_helpers.pyx')) as fh:
        t = fh.read()
    t = re.sub(r'#[^\n]*', '', re.sub(r"'''.*?'''|\"\"\".*?\"\"\"", '""', t, flags=re.S))
    m = re.search(r'def srand\(\s*(?:\w+\s+)?(\w+)\s*\)\s*:(.*?)(?=\n\S|\Z)', t, re.S)
    if not m:
        raise AnalysisError('cy_helpers.srand not found')
    p, body = m.group(1), m.group(2)
    cm = re.search(r'\bsrand\s*\(\s*(?:<[^>]*>\s*)?(\w+)\s*\)', body)
    ctx.check(bool(cm) and cm.group(1) == p if cm else (None if re.search(r'srand|seed', body) else False),
              'R5', 'cy_helpers.srand', 'the native reseed does not pass the requested seed to the C generator',
              'py_gnome/gnome/cy_gnome/cy_helpers.pyx')


RULES = [
    ('R1', 'rewinding reseeds the generators with a constant on every path, and fresh runs rewind first', r_rewind_reseeds),
    ('R2', 'the reseeding function resets every generator family the package draws from', r_seed_complete),
    ('R3', 'every draw site uses a generator that the reseed resets', r_sites),
    ('R4', 'no function that runs inside a step reads the wall clock', r_clock),
    ('R5', 'native code draws only from the C library generator, reseeded with the given value', r_native),
]
