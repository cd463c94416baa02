from sa.runstate import *
from sa.equiv import contract

ID = 'C02'
PROP = {
    'title': 'Rewinding restores the initial state of every part of the model',
    'statement': 'After a rewind (and the preparation that starts the next run) no mover, weatherer, spill, release, element '
                 'container, cache or outputter carries values from an earlier run into the new one: time step counter, model '
                 'time, released amounts, element arrays, mass balance, uncertainty state and output cadence all start afresh.',
    'quantifier': {'over': ['histories', 'configurations'],
                   'text': 'every history of full or partial runs followed by a rewind, for every component class'},
    'why_tests_cant': 'Tests rewind a few models at the end of a run; state left over by a component that only some '
                      'configurations use, or after a partial run, is not sampled.',
    'anchors': {'files': ['py_gnome/gnome/model.py', 'py_gnome/gnome/spill_container.py', 'py_gnome/gnome/spills',
                          'py_gnome/gnome/movers', 'py_gnome/gnome/weatherers', 'py_gnome/gnome/outputters',
                          'py_gnome/gnome/utilities/cache.py'],
                'mechanism': ['rewind', 'prepare_for_model_run', 'Model.setup_model_run']},
}
TECHNIQUE = ('carry-over state analysis: for every component class the attributes that step methods write and that a later '
             'step reads before rewriting are computed by effect summaries, and each must be re-initialised on every path of '
             'rewind / prepare-for-run; plus contract comparison of the rewind and set-up delegation chain')
MIN = 120

BASES = ['gnome.movers.movers.Process', 'gnome.outputters.outputter.Outputter', 'gnome.spills.release.Release',
         'gnome.spills.spill.Spill', 'gnome.environment.environment.Environment', 'gnome.spill_container.SpillContainerData',
         'gnome.spill_container.SpillContainerPair', 'gnome.maps.map.GnomeMap', 'gnome.utilities.cache.ElementCache',
         'gnome.spills.substance.Substance', 'gnome.spills.initializers.InitBaseClass']

# (class name suffix or '*', attribute): why a missing or conditional reset cannot make a second run differ
WAIVE = {
    ('WindMover', 'sigma2'): 'read only with a non-empty uncertainty list, which the reset empties',
    ('WindMover', 'sigma_theta'): 'read only with a non-empty uncertainty list, which the reset empties',
    ('WindMover', 'uncertain_diffusion'): 'read only with a non-empty uncertainty list, which the reset empties',
    ('*', '_timestep'): 'recomputed by prepare_for_model_step whenever the process is active, read only then',
    ('Beaching', '_rate'): 'reset when on; prepare_for_model_run is only called when on',
    ('Burn', '_active_range'): 'the stop time of a burn is an output of the run; recomputed from start and thickness',
    ('Burn', '_state_list'): 'a report list, cleared by its owner',
    ('Burn', '_boomed_density'): 'overwritten when collection starts, before it is read',
    ('Skim', '_state_list'): 'a report list, cleared by its owner',
    ('Skim', '_ts_*'): 'per-step tallies zeroed at the start of each step of the active operation',
    ('*', 'cache'): 'the model always passes its cache; only the pointer is kept',
    ('*', 'fore_image'): 'drawing surface, cleared before each frame',
    ('*', 'map_canvas'): 'drawing surface, cleared before each frame',
    ('*', 'shapefile_builder_*'): 'built by prepare_for_model_run under the same switches as the writes',
    ('*', 'output_timesteps'): 'reset when the outputter is on; it is written only then',
    ('BinaryOutput', 'file_num'): 'reset when the outputter is on; it is written only then',
    ('KMZOutput', 'kml'): 'reset when the outputter is on; it is written only then',
    ('TamocSpill', '_num_released'): 'experimental class outside the supported model',
    ('RunningAverage', 'ossm'): 'pointer to the averaged series, rebuilt at preparation',
}
SKIP_CLASSES = {'gnome.weatherers.roc.Disperse': 'unfinished operation class (its own source says so)'}


def waived(c, a):
    for (cn, at), why in WAIVE.items():
        if (cn == '*' or any(k.name == cn for k in [c])) and (at == a or (at.endswith('*') and a.startswith(at[:-1]))):
            return why
    return None


def r_carry(ctx):
    P = ctx.P
    seen = set()
    n = 0
    for b in BASES:
        for c in P.subclasses(P.cls(b)):
            if c in seen or c.qualname in SKIP_CLASSES:
                continue
            seen.add(c)
            ctx.count('component classes')
            try:
                carry, consts = analyse(ctx, c)
            except AnalysisError as e:
                ctx.unk('R1', c.qualname, str(e))
                continue
            for a, evs in sorted(carry.items()):
                n += 1
                cons = '%s.%s' % (c.qualname, a)
                why = waived(c, a)
                if sure_reset(ctx, c, a):
                    ctx.ok('R1', cons, evs[0][1].loc())
                elif why:
                    ctx.count('reset obligations waived with a reason')
                else:
                    st = 'only on some paths of' if reset_events(ctx, c, a) else 'not by'
                    ctx.bad('R1', cons, 'run state written in %s is re-initialised %s rewind/prepare_for_model_run: a rewound '
                            'model starts with the value of the previous run' % (evs[0][0], st), evs[0][1].loc())
    if n < 40:
        raise AnalysisError('only %d carry-over attributes found' % n)


def r_consts(ctx):
    """a flag or counter restored by a reset gets the value the constructor gives it"""
    P = ctx.P
    seen = set()
    for b in BASES:
        for c in P.subclasses(P.cls(b)):
            if c in seen or c.qualname in SKIP_CLASSES:
                continue
            seen.add(c)
            if not has(ctx, c, '__init__'):
                continue
            try:
                si = summary(ctx, c, '__init__')
            except AnalysisError:
                continue
            carry, consts = analyse(ctx, c)
            for a in carry:
                for nme in ('rewind',):
                    if not has(ctx, c, nme):
                        continue
                    s = summary(ctx, c, nme)
                    ev = [e for e in s.events if e.kind == 'store' and e.target == ('a', SELF, a) and not e.loops]
                    iv = [e for e in si.events if e.kind == 'store' and e.target == ('a', SELF, a) and not e.loops]
                    if not ev or not iv or not must(s, ev[-1:]) or not must(si, iv[-1:]):
                        continue
                    v, w = ev[-1].value, iv[-1].value
                    isk = lambda x: x in (TRUE, FALSE) or (x[0] == 'c' and not isinstance(x[1], str) and x[1] is not None)
                    if isk(v) and isk(w):
                        ctx.check(v == w or (v[0] == 'c' and w[0] == 'c' and v[1] == w[1]), 'R2', '%s.%s' % (c.qualname, a),
                                  'rewind sets %s, construction sets %s' % (show(v), show(w)), ev[-1].loc())


def r_rewind(ctx):
    contract(ctx, 'R3', 'gnome.model.Model.rewind', '''
def rewind(self):
    self._current_time_step = -1
    self.model_time = self.start_time
    self.spills.rewind()
    self._cache.rewind()
    for o in self.outputters:
        o.rewind()
''', calls=('rewind',), opaque=('gnome.utilities.rand.seed',))
    contract(ctx, 'R3', 'gnome.spill_container.SpillContainerPair.rewind', '''
def rewind(self):
    self._spill_container.rewind()
    if self._uncertain:
        self._u_spill_container.rewind()
        if self._spill_container.spills != self._u_spill_container.spills:
            self._u_spill_container = self._spill_container.uncertain_copy()
''', calls=('rewind',))
    contract(ctx, 'R3', 'gnome.spill_container.SpillContainer.rewind', '''
def rewind(self):
    for spill in self.spills:
        spill.rewind()
    self.mass_balance = {}
''', calls=('rewind',), attrs=('mass_balance',), raises=False)
    s = summary(ctx, ctx.P.cls('gnome.spill_container.SpillContainer'), 'rewind')
    ev = [e for e in s.events if _whole(e, '_data_arrays')]
    ctx.check(must(s, ev), 'R3', 'gnome.spill_container.SpillContainer.rewind:data arrays',
              'rewinding does not discard the element arrays on every path', s.events[0].loc())
    for c in [ctx.P.cls('gnome.spills.spill.Spill')]:
        s = summary(ctx, c, 'rewind', opaque=('gnome.spills.release.Release.rewind',))
        ctx.check(must(s, calls(s, 'rewind', A('release'))), 'R3', c.qualname + '.rewind:release',
                  'rewinding a spill does not rewind its release', s.events[0].loc())


def _whole(e, attr):
    return (e.kind == 'store' and e.target in (('a', SELF, attr), ('s', ('a', SELF, attr), WHOLE))) or \
        (e.kind == 'call' and e.name == 'clear' and e.base == ('a', SELF, attr))


def r_setup(ctx):
    P = ctx.P
    contract(ctx, 'R4', 'gnome.model.Model.setup_model_run', '''
def setup_model_run(self):
    for sc in self.spills.items():
        sc.prepare_for_model_run(None, self.time_step)
    for mover in self.movers:
        if mover.on:
            mover.prepare_for_model_run()
    for w in self.weatherers:
        for sc in self.spills.items():
            if w.on and not sc.uncertain:
                w.prepare_for_model_run(sc)
    for environment in self.environment:
        environment.prepare_for_model_run(self.start_time)
    for outputter in self.outputters:
        outputter.prepare_for_model_run(model_start_time=self.start_time, cache=self._cache, uncertain=self.uncertain,
                                        spills=self.spills, model_time_step=self.time_step, map=self.map,
                                        model_name=self.name)
''', calls=('prepare_for_model_run',), attrs=(), returns=False, raises=False, argmap={'prepare_for_model_run': _hide}, fresh=('on', 'weatherers', '_time_step'))
    c = P.cls('gnome.spill_container.SpillContainer')
    contract(ctx, 'R4', 'gnome.spill_container.SpillContainer.prepare_for_model_run', '''
def prepare_for_model_run(self, array_types=None, time_step=300):
    for s in self.spills:
        if s.on:
            s.prepare_for_model_run(time_step)
    self.mass_balance['beached'] = 0.0
    self.mass_balance['off_maps'] = 0.0
    self.initialize_data_arrays()
''', calls=('prepare_for_model_run', 'initialize_data_arrays'), attrs=('beached', 'off_maps'), returns=False, raises=False)
    contract(ctx, 'R4', 'gnome.spills.spill.Spill.prepare_for_model_run', '''
def prepare_for_model_run(self, timestep):
    self.release.prepare_for_model_run(timestep)
''', calls=('prepare_for_model_run',))
    s = summary(ctx, c, 'prepare_for_model_run')
    for k in P.subclasses(P.cls('gnome.movers.movers.CyMover')):
        s = summary(ctx, k, 'prepare_for_model_run')
        ev = [e for e in s.events if e.kind == 'call' and e.name == 'prepare_for_model_run' and e.base == A('mover')]
        ctx.check(must(s, ev), 'R4', k.qualname + '.prepare_for_model_run:native',
                  'the native mover is not told that a new run starts, so it keeps the uncertainty state of the last run',
                  s.events[0].loc() if s.events else '')


def _hide(args, kw):
    # the array types passed to the containers are not part of this property
    return (args[1:] if len(args) == 2 else args), kw


RULES = [
    ('R1', 'every attribute carried from step to step is re-initialised on every path of rewind or prepare-for-run', r_carry),
    ('R2', 'a flag or counter is rewound to the constant it is constructed with', r_consts),
    ('R3', 'rewinding the model reaches every stateful part: containers, spills, releases, cache, outputters', r_rewind),
    ('R4', 'starting a run prepares every stateful part', r_setup),
]
