"""Carry-over state analysis: per-run state of a component that survives into the next run."""
from .rules import *

STEP = ['prepare_for_model_step', 'get_move', 'weather_elements', 'model_step_is_done', 'write_output',
        'release_elements', 'initialize_LEs', 'initialize_data', 'refloat_elements', 'beach_elements',
        'save_timestep', 'post_model_run', 'initialize_elements_post_substance', 'initialize_elements']
RESET = ['rewind', 'prepare_for_model_run']
MUT = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'setdefault', 'sort', 'clear', 'popitem', 'appendleft'}


def root_attr(t):
    while t[0] in ('s', 'a'):
        if t[0] == 'a' and t[1] == SELF:
            return t[2]
        t = t[1]
    return None


def has(ctx, c, n):
    return ctx.P.method(c, n) is not None


def step_writes(ctx, c, names=STEP):
    w = {}
    for n in names:
        if not has(ctx, c, n):
            continue
        s = summary(ctx, c, n)
        for e in s.events:
            if e.kind in ('store', 'maybe_store', 'del') and e.target is not None:
                r = root_attr(e.target)
                if r:
                    w.setdefault(r, []).append((n, e))
            elif e.kind == 'call' and e.name in MUT and e.base and not e.resolved:
                r = root_attr(e.base)
                if r:
                    w.setdefault(r, []).append((n, e))
    return w


WHOLE = ('slice', NONE, NONE, NONE)


def _whole_store(e, attr):
    loc = ('a', SELF, attr)
    if e.kind == 'store' and e.target == loc:
        return True
    if e.kind in ('store', 'del') and e.target == ('s', loc, WHOLE):
        return True
    if e.kind == 'call' and e.name == 'clear' and e.base == loc:
        return True
    return False


def reset_events(ctx, c, attr, names=RESET):
    """[(method, [events])] of complete re-initialisations of attr that do not depend on its old value"""
    out = []
    for n in names:
        if not has(ctx, c, n):
            continue
        s = summary(ctx, c, n)
        loc = ('a', SELF, attr)
        evs = []
        for e in s.events:
            if _whole_store(e, attr) and not e.loops:
                if e.kind == 'store' and e.value is not None and contains(e.value, lambda x: x == loc):
                    continue
                evs.append(e)
        if evs:
            out.append((n, s, evs))
    return out


def sure_reset(ctx, c, attr, given=None):
    """attr certainly re-initialised by one of the reset methods (given: bdd assumption)"""
    best = False
    for n, s, evs in reset_events(ctx, c, attr):
        g = 1
        if given is not None:
            g = given
        if must(s, evs, g):
            best = True
    return best


def reset_const(ctx, c, attr):
    """constant the attribute holds when the first step starts, or None"""
    val = None
    for n, s, evs in reset_events(ctx, c, attr):
        if must(s, evs):
            v = evs[-1].value
            if v is not None and (v[0] == 'c' or v in (TRUE, FALSE)):
                val = v
    return val


def analyse(ctx, c):
    """-> (carry: {attr: [(method, event)]}, consts)"""
    sw = step_writes(ctx, c)
    consts = {}
    for a in sw:
        v = reset_const(ctx, c, a)
        if v is not None:
            consts[a] = v

    def first(at):
        if len(at) > 1 and isinstance(at[1], tuple) and at[1][0] == 'hphi':
            at = (at[0], at[1][1]) + at[2:]     # at the head of the first loop iteration of the first step
        if at[0] == 't' and at[1][0] == 'a' and at[1][1] == SELF and at[1][2] in consts:
            v = consts[at[1][2]]
            return bool(v[1])
        if at[0] == 'isnone' and at[1][0] == 'a' and at[1][1] == SELF and at[1][2] in consts:
            return consts[at[1][2]] == NONE
        return None
    killed = set()
    if has(ctx, c, 'prepare_for_model_step'):
        s = summary(ctx, c, 'prepare_for_model_step')
        nrm = B.restrict(drop_loops(normal(s)), first)
        for a in sw:
            evs = [e for e in s.events if e.kind == 'store' and e.target == ('a', SELF, a) and not e.loops
                   and not (e.value is not None and contains(e.value, lambda x: x == ('a', SELF, a)))]
            if evs and B.implies(nrm, B.restrict(drop_loops(union(evs)), first)):
                killed.add(a)
    exposed = set()
    for n in STEP:
        if not has(ctx, c, n):
            continue
        s = summary(ctx, c, n)
        for a, g, stk in s.reads:
            if a not in sw:
                continue
            if n == 'prepare_for_model_step':
                if B.restrict(g, first) != 0:
                    exposed.add(a)
            elif a not in killed:
                exposed.add(a)
    return {a: v for a, v in sw.items() if a in exposed}, consts
