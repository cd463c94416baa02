from sa.equiv import *

ID = 'C07'
PROP = {
    'title': 'A process that is off or outside its active range has no effect',
    'statement': 'A mover or weathering process is active in a time step exactly when it is on and its active range covers the middle of '
                 'the step; a clean-up is active when its window overlaps the step, and then operates only for the overlapping part. A '
                 'process that is not active changes no element, no mass balance entry and no position in that step, and a spill '
                 'that is off releases nothing.',
    'quantifier': {'over': ['configurations', 'inputs', 'histories'],
                   'text': 'every process, active range (finite or infinite), time step and direction, and every sequence of '
                           'switching a process on and off'},
    'why_tests_cant': 'Whether a step counts depends on how its start, middle and end lie relative to the range; tests pick a few '
                      'alignments and a few of the many processes.',
    'anchors': {'files': ['py_gnome/gnome/movers/movers.py', 'py_gnome/gnome/weatherers/cleanup.py',
                          'py_gnome/gnome/weatherers', 'py_gnome/gnome/movers'],
                'mechanism': ['Process.prepare_for_model_step', 'Process.active', 'RemoveMass.prepare_for_model_step',
                              'RemoveMass._set__timestep', 'weather_elements', 'get_move']},
}
TECHNIQUE = ('contract comparison of gated effect summaries for the activation rules, and an effect analysis of every weatherer and '
             'mover: each write to element data or the mass balance, and each call into a native mover, is guarded by the active flag')
MIN = 60

ACT = B.OR(atom(('t', A('_active'))), atom(('t', A('active'))))


def outside(t):
    """is this location element data / mass balance (anything reached through the spill container), not the process itself"""
    r = t
    while r[0] in ('a', 's', 'elt', 'upd', 'mutated', 'val', 'hphi'):
        r = r[1]
    if r[0] == 'mcall' and r[1] in ('itersubstancedata', 'substancefatedata'):
        return True
    return r == ('p', 'sc') or r == ('p', 'spill')


def r_weather(ctx):
    P = ctx.P
    base = P.cls('gnome.weatherers.core.Weatherer')
    for c in [base] + P.subclasses(base):
        f = P.method(c, 'weather_elements')
        if f is None:
            continue
        s = summary(ctx, c, 'weather_elements', opaque=('_set_efficiency', 'dissolve_oil', 'disperse_oil_DS', 'disperse_oil_Li', 'get_value'))
        loc = '%s:%d' % (f.module.rel, f.node.lineno)
        st = [e for e in s.events if e.kind in ('store', 'del') and e.target and outside(e.target)]
        st = [e for e in st if slot_of(e.target) != 'state']
        for e in st:
            ok = B.implies(drop_loops(noexc(e.guard)), ACT)
            ctx.check(ok, 'R3', '%s.weather_elements:%s' % (c.qualname, slot_of(e.target)),
                      'element data or a mass balance entry changes while the process is not active', e.loc())
        if not st:
            ctx.ok('R3', c.qualname + '.weather_elements:no effect', loc)


def r_move(ctx):
    P = ctx.P
    base = P.cls('gnome.movers.movers.Mover')
    for c in [base] + P.subclasses(base):
        f = P.method(c, 'get_move')
        if f is None or f.cls is base:
            continue
        s = summary(ctx, c, 'get_move')
        loc = '%s:%d' % (f.module.rel, f.node.lineno)
        for e in s.events:
            if e.kind == 'call' and e.name == 'get_move' and not e.inlined and e.base and root(e.base) == SELF:
                ctx.check(B.implies(drop_loops(noexc(e.guard)), ACT), 'R4', '%s.get_move:native move' % c.qualname,
                          'the native mover is asked for a move while the mover is not active', e.loc())
            elif e.kind == 'store' and e.target and outside(e.target):
                ctx.bad('R4', '%s.get_move:%s' % (c.qualname, slot_of(e.target)), 'get_move changes element data', e.loc())
        for pc, v, node, heap in s.returns:
            g = B.AND(noexc(pc), B.NOT(ACT))
            if g == 0:
                continue
            for gg, x in gnf(v):
                if B.AND(g, gg) == 0:
                    continue
                ctx.check(zero(x), 'R4', '%s.get_move:inactive move is zero' % c.qualname,
                          'the move of an inactive mover is %s' % show(x)[:200], loc)


ZEROS = {'zeros', 'zeros_like'}


def zero(x):
    """True: all zeros; False: certainly something else; None: not understood"""
    while True:
        if x[0] == 'mcall' and x[1] in ('view', 'reshape', 'copy', 'astype'):
            x = x[2]
        elif x[0] == 'np' and x[1] in ('reshape', 'copy', 'asarray', 'array'):
            x = x[2][0]
        elif x[0] == 'val':
            x = x[1]
        else:
            break
    if x[0] == 'np' and x[1] in ZEROS:
        return True
    if x[0] == 'call' and x[1][0] == 'g' and x[1][1].rsplit('.', 1)[-1] in ZEROS:
        return True
    if x == C(0):
        return True
    if x[0] == 'poly':
        return True if all(any(zero(b) for b, k in m if k > 0) for m, c in x[1]) else None
    if x[0] == 'upd':
        z = zero(x[1])
        w = x[3]
        wz = True if (w == C(0) or (w[0] == 'tuple' and all(y == C(0) for y in w[1:]))) else zero(w)
        return z if wz else (None if z is None or wz is None else False)
    if x[0] in ('a', 'p', 's', 'c'):
        return False
    return None


RULES = spec_rules('C07') + [
    ('R3', 'weather_elements of every process changes element data and the mass balance only while the process is active', r_weather),
    ('R4', 'get_move of every mover is zero and reaches no native code while the mover is not active', r_move)]
