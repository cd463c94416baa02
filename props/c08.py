from sa.equiv import *
from sa import alias

ID = 'C08'
PROP = {
    'title': 'Movers displace only in-water elements, by their own transport law',
    'statement': 'In each step a mover returns one displacement per element: zero for every element that is not in the water and '
                 'zero while the mover is inactive; otherwise velocity (current, wind times windage, constant, rise velocity) times the '
                 'time step times the scale factor, integrated with the chosen numerical method (Euler, RK2, RK4) and converted from '
                 'metres to degrees at the position of the element. The native movers are given the same time, step, positions, status '
                 'codes and spill type as the model holds. Uncertain elements add the mover\'s own uncertainty, within its stated '
                 'scales, after its start delay and renewed after its duration; scale factors, tides, reference points and '
                 'diffusion coefficients set by the user reach the movement. Computing a displacement changes neither positions nor '
                 'status codes.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every mover, numerical method, step, set of elements and statuses, certain and uncertain'},
    'why_tests_cant': 'Tests compare a few movements of a few elements, mostly all in the water and active; mixed statuses, scale '
                      'factors together with uncertainty, step boundaries and renewal of uncertainty are not sampled.',
    'anchors': {'files': ['py_gnome/gnome/movers', 'py_gnome/gnome/utilities/rand.py'],
                'mechanism': ['get_move', 'prepare_for_model_step', 'model_step_is_done', 'get_delta_RK2', 'add_uncertainty',
                              'random_with_persistance']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of every mover against the reference transport law, plus an alias '
             'analysis for views used after the array they view was changed')
MIN = 100


def r_alias(ctx):
    P = ctx.P
    n = 0
    for f in all_functions(P):
        if not f.module.name.startswith('gnome.movers') and not f.module.name.startswith('gnome.utilities'):
            continue
        n += 1
        vs = alias.stale_views(f)
        for v in vs:
            ctx.bad('R6', '%s:%s' % (f.cls.qualname if f.cls else f.module.name, v[0]), 'view %r is read after line %d overwrote the array it views'
                    % (v[0], v[2].lineno), '%s:%d' % (f.module.rel, v[3].lineno))
        if not vs:
            ctx.ok('R6', f.qualname, '%s:%d' % (f.module.rel, f.node.lineno))
    ctx.count('functions searched for stale views', n)


RULES = spec_rules('C08') + [('R6', 'no view is read after the array it views was overwritten through another name', r_alias)]
