from sa.equiv import *

ID = 'C05'
PROP = {
    'title': 'Weathering and clean-up conserve mass',
    'statement': 'Whatever a weathering or clean-up process takes from an element is added to exactly one entry of the mass balance '
                 '(evaporated, dissolved, naturally dispersed, sedimented, biodegraded, skimmed, burned, chemically dispersed, observed '
                 'beached), never more than the elements hold; after every process the mass of an element is the sum of its components. '
                 'Skimmers, burns, dispersants and observed beaching remove their stated amount, at their rate and efficiency, over the '
                 'part of the step in which they operate; elements are marked for a clean-up until the requested mass is covered. The '
                 'entries start at zero when a run begins, and the released, floating and non-weathering totals follow from the elements.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every substance, set of elements, combination of processes and sequence of time steps'},
    'why_tests_cant': 'Tests check sums for a few oils and settings with a tolerance; they cannot cover every combination of '
                      'processes, fates and exhausted elements, and the weathering tests do not run in this environment.',
    'anchors': {'files': ['py_gnome/gnome/weatherers/core.py', 'py_gnome/gnome/weatherers/cleanup.py',
                          'py_gnome/gnome/weatherers/evaporation.py', 'py_gnome/gnome/weatherers/natural_dispersion.py',
                          'py_gnome/gnome/weatherers/dissolution.py', 'py_gnome/gnome/weatherers/bio_degradation.py',
                          'py_gnome/gnome/weatherers/manual_beaching.py', 'py_gnome/gnome/ops/aggregated_data.py'],
                'mechanism': ['weather_elements of every Weatherer', 'prepare_for_model_run', 'aggregate']},
}
TECHNIQUE = ('contract comparison of gated effect summaries: for every weathering and clean-up process the final values of mass, '
             'components, balance entries and marks, as expressions of the inputs, are compared with the reference law under all '
             'path conditions; plus a scan that every process writing component masses also recomputes the element mass')
MIN = 60


def r_mass(ctx):
    """every weather_elements that changes mass_components leaves mass = mass_components.sum(1)"""
    P = ctx.P
    base = P.cls('gnome.weatherers.core.Weatherer')
    for c in P.subclasses(base):
        f = P.method(c, 'weather_elements')
        if f is None or f.cls is base:
            continue
        s = summary(ctx, c, 'weather_elements', opaque=('_set_efficiency', 'dissolve_oil', 'disperse_oil_DS', 'disperse_oil_Li', 'get_value'))
        cs = [e for e in s.events if e.kind == 'store' and e.target and is_slot(e.target, 'mass_components')]
        if not cs:
            ctx.ok('R2', c.qualname + ':no component change', '%s:%d' % (f.module.rel, f.node.lineno))
            continue
        ms = [e for e in s.events if e.kind == 'store' and e.target and is_slot(e.target, 'mass')]
        order = {id(e): i for i, e in enumerate(s.events)}
        for e in cs:
            later = [m for m in ms if order[id(m)] > order[id(e)]]
            ok = B.implies(drop_loops(noexc(e.guard)), drop_loops(noexc(union(later))))
            ctx.check(ok, 'R2', c.qualname + ':mass follows components',
                      'the component masses change without the element mass being recomputed', e.loc())


def is_slot(t, name):
    while t[0] == 's' and not (t[2][0] == 'c' and isinstance(t[2][1], str)):
        t = t[1]
    return t[0] == 's' and t[2] == C(name)


RULES = spec_rules('C05') + [('R2', 'every process that changes component masses recomputes the element mass', r_mass)]
