from sa.equiv import *

ID = 'C06'
PROP = {
    'title': 'Fate views are faithful and written back to the elements they came from',
    'statement': 'A weathering process sees exactly the elements that have its fate and positive mass, and whatever it changes '
                 'in that view is written back to those same elements and to no others, after it is done and under the same fate. '
                 'The fate of an element follows its status: on land or of a non-weathering substance it does not weather; in the '
                 'water it weathers at the surface or below it according to its depth, unless it is marked for a clean-up, a mark '
                 'that stays until the clean-up has used it. Removed elements leave every data array.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every set of elements and fates, every process that reads or changes weathering data'},
    'why_tests_cant': 'Tests use spill containers in which all elements share one fate, where the view is the container itself; '
                      'partial views, mixed fates and exhausted elements appear only in particular runs.',
    'anchors': {'files': ['py_gnome/gnome/spill_container.py', 'py_gnome/gnome/model.py', 'py_gnome/gnome/ops/density.py',
                          'py_gnome/gnome/weatherers'],
                'mechanism': ['FateDataView', 'itersubstancedata', 'update_from_fatedataview', 'Model._update_fate_status',
                              'SpillContainer.model_step_is_done']},
}
TECHNIQUE = ('contract comparison of gated effect summaries for the view machinery, and a typestate scan of every user of a view: '
             'a change to the view must be followed, on every path, by the write-back of the same fate')
MIN = 40

GET = ('itersubstancedata', 'substancefatedata')
DEFAULT = C('surface_weather')


def view_of(t):
    """the call that produced the view a store target lies in"""
    while t[0] in ('a', 's', 'elt', 'upd', 'mutated', 'val', 'hphi'):
        t = t[1]
    return t if t[0] == 'mcall' and t[1] in GET else None


def fate_of(call):
    kw = dict(call[4])
    if 'fate_status' in kw or 'fate' in kw:
        return kw.get('fate_status', kw.get('fate'))
    n = 1 if call[1] == 'itersubstancedata' else 2
    return call[3][n] if len(call[3]) > n else DEFAULT


def r_pairs(ctx):
    P = ctx.P
    users = {}
    for f in all_functions(P):
        if f.module.name == 'gnome.spill_container':
            continue
        if any(isinstance(n, ast.Attribute) and n.attr in GET + ('update_from_fatedataview',) for n in ast.walk(f.node)):
            users[f] = None
    ctx.count('functions that use a fate view', len(users))
    for f in users:
        s = Summ(P, cls=f.cls).run(f)
        loc = '%s:%d' % (f.module.rel, f.node.lineno)
        if s.truncated:
            ctx.unk('R3', f.qualname + ':view written back', 'summary truncated', loc)
            continue
        order = {id(e): i for i, e in enumerate(s.events)}
        ups = {}
        for e in s.events:
            if e.kind == 'call' and e.name == 'update_from_fatedataview':
                ft = (e.kw or {}).get('fate_status') or (e.args[0] if e.args else DEFAULT)
                ups.setdefault((e.base, ft), []).append(e)
        st = [(e, view_of(e.target)) for e in s.events if e.kind == 'store' and e.target]
        st = [(e, v) for e, v in st if v is not None]
        if not st and not ups:
            ctx.ok('R3', f.qualname + ':only reads the view', loc)
        for e, v in st:
            k = (v[2], fate_of(v))
            later = [u for u in ups.get(k, []) if order[id(u)] > order[id(e)]]
            ok = B.implies(drop_loops(noexc(e.guard)), drop_loops(union(later)))
            if not ok and not later and B.implies(drop_loops(noexc(e.guard)), drop_loops(normal(s))) is None:
                ok = None
            ctx.check(ok, 'R3', f.qualname + ':view %s' % show(k[1]),
                      'data of the %s view is changed and not written back under the same fate' % show(k[1]), e.loc())
        got = set()
        for e in s.events:
            if e.kind == 'call' and e.name in GET:
                got.add((e.base, fate_of(('mcall', e.name, e.base, tuple(e.args or ()), tuple((e.kw or {}).items())))))
        for k, us in ups.items():
            if not any((v[2], fate_of(v)) == k for e, v in st):
                ctx.check(True if k in got else (False if got else None), 'R3', f.qualname + ':write-back of %s' % show(k[1]),
                          'the %s view is written back but that view was never taken' % show(k[1]), us[0].loc())


RULES = spec_rules('C06') + [('R3', 'every process that changes a view writes the same view back afterwards on every path', r_pairs)]
