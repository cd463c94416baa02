from sa.equiv import *

ID = 'C04'
PROP = {
    'title': 'Every time step runs all phases, in order, on every element set and component',
    'statement': 'Each model step releases, prepares, moves, weathers, finishes and outputs exactly once and in that order, over '
                 'exactly its own time interval: the two half-step releases cover the step without gap or overlap, weathering '
                 'sub-steps cover it exactly, every mover contributes its displacement, elements are refloated before and beached '
                 'after moving and only then take their new position, and every active component gets its start-of-step, '
                 'end-of-step and end-of-run hook. When a step fails or the run ends, the end-of-run hooks still run and the '
                 'error is passed on.',
    'quantifier': {'over': ['histories', 'configurations', 'schedules', 'faults'],
                   'text': 'every combination of components, every step of every run (including a step that raises)'},
    'why_tests_cant': 'The full model cannot be imported in the test environment, and tests only look at the sum of the effects '
                      'of a step for a few set-ups.',
    'anchors': {'files': ['py_gnome/gnome/model.py', 'py_gnome/gnome/spill_container.py'],
                'mechanism': ['Model.step', 'Model.move_elements', 'Model.weather_elements', 'Model.step_is_done',
                              'Model.release_elements', 'Model.output_step', 'Model.post_model_run']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of the step driver: which calls happen, with which arguments, under '
             'which conditions, over which collections and in which order, including exception paths')
MIN = 40
M = 'gnome.model.Model.'


STEP = """
def step(self):
    isValid = True
    for sc in self.spills.items():
        sc.current_time_stamp = None
    if self.current_time_step == -1:
        self.setup_model_run()
        (msgs, isValid) = self.check_inputs()
        if not isValid:
            raise RuntimeError("Setup model run complete but model is invalid", msgs)
        self.current_time_step += 1
        model_time = self.model_time
        for sc in self.spills.items():
            sc.current_time_stamp = model_time
        self.release_elements(model_time, model_time)
        return self.output_step(isValid)
    elif self.current_time_step >= self._num_time_steps - 1:
        self.post_model_run()
        raise StopIteration("Run complete for {0}".format(self.name))
    else:
        try:
            half_step = timedelta(seconds=self.time_step / 2)
            self.release_elements(self.model_time, self.model_time + half_step)
            self.setup_time_step()
            self.move_elements()
            self.weather_elements()
            self.step_is_done()
            self.current_time_step += 1
            for sc in self.spills.items():
                sc.current_time_stamp = self.model_time
            self.release_elements(self.model_time - half_step, self.model_time)
            return self.output_step(isValid)
        except Exception as ex:
            self.post_model_run()
            raise
"""


def r_step(ctx):
    contract(ctx, 'R1', M + 'step', STEP, calls=('setup_model_run', 'check_inputs', 'release_elements', 'output_step', 'post_model_run', 'setup_time_step', 'move_elements',
            'weather_elements', 'step_is_done'),
             order=('setup_model_run', 'check_inputs', 'release_elements', 'setup_time_step', 'move_elements', 'weather_elements',
                    'step_is_done', 'output_step', 'store:_current_time_step', 'store:current_time_stamp', 'store:model_time'))
    contract(ctx, 'R1', M + 'step', STEP, construct=M + 'step[failing]', calls=('post_model_run',), attrs=(), returns=False,
             ignore_exc=False)


def r_phases(ctx):
    contract(ctx, 'R2', M + 'setup_time_step', """
def setup_time_step(self):
    for m in self.movers:
        for sc in self.spills.items():
            m.prepare_for_model_step(sc, self.time_step, self.model_time)
    for w in self.weatherers:
        for sc in self.spills.items():
            if not sc.uncertain:
                w.prepare_for_model_step(sc, self.time_step, self.model_time)
    for environment in self.environment:
        environment.prepare_for_model_step(self.model_time)
    for outputter in self.outputters:
        outputter.prepare_for_model_step(self.time_step, self.model_time)
""", calls=('prepare_for_model_step',))
    contract(ctx, 'R2', M + 'move_elements', """
def move_elements(self):
    for sc in self.spills.items():
        if sc.num_released > 0:
            self.map.refloat_elements(sc, self.time_step, self.model_time)
            (sc['next_positions'])[:] = sc['positions']
            for m in self.movers:
                delta = m.get_move(sc, self.time_step, self.model_time)
                sc['next_positions'] += delta
            self.map.beach_elements(sc, self.model_time)
            tbr_mask = sc['status_codes'] == oil_status.off_maps
            sc['status_codes'][tbr_mask] = oil_status.to_be_removed
            substances = sc.get_substances(False)
            if len(substances) > 0:
                self._update_fate_status(sc)
            (sc['positions'])[:] = sc['next_positions']
""", calls=('refloat_elements', 'get_move', 'beach_elements', '_update_fate_status'),
             order=('refloat_elements', 'get_move', 'beach_elements', '_update_fate_status', 'store:next_positions',
                    'store:positions', 'store:status_codes'))
    contract(ctx, 'R2', M + '_update_fate_status', """
def _update_fate_status(self, sc):
    if 'fate_status' in sc:
        on_land_mask = sc['status_codes'] == oil_status.on_land
        sc['fate_status'][on_land_mask] = fate.non_weather
        w_mask = ((sc['status_codes'] == oil_status.in_water)
                  & ~(sc['fate_status'] & fate.skim == fate.skim)
                  & ~(sc['fate_status'] & fate.burn == fate.burn)
                  & ~(sc['fate_status'] & fate.disperse == fate.disperse))
        surf_mask = np.logical_and(w_mask, sc['positions'][:, 2] == 0)
        subs_mask = np.logical_and(w_mask, sc['positions'][:, 2] > 0)
        sc['fate_status'][surf_mask] = fate.surface_weather
        sc['fate_status'][subs_mask] = fate.subsurf_weather
        for i, sp in enumerate(sc.spills):
            if isinstance(sp.substance, NonWeatheringSubstance):
                nw_mask = sc['spill_num'] == i
                sc['fate_status'][nw_mask] = fate.non_weather
""")
    contract(ctx, 'R2', M + 'weather_elements', """
def weather_elements(self):
    if len(self.weatherers) == 0:
        return
    if self._time_step < 0:
        return
    for sc in self.spills.items():
        sc.reset_fate_dataview()
        if not sc.uncertain:
            for w in self.weatherers:
                for model_time, time_step in self._split_into_substeps():
                    w.weather_elements(sc, time_step, model_time)
""", calls=('reset_fate_dataview', 'weather_elements'), order=('reset_fate_dataview', 'weather_elements'), returns=False)
    contract(ctx, 'R2', M + '_split_into_substeps', """
def _split_into_substeps(self):
    time_step = int(self._time_step)
    sub_step = time_step // self.weathering_substeps
    indexes = [idx for idx in range(0, time_step + 1, sub_step)]
    res = [(idx, next_idx - idx) for idx, next_idx in zip(indexes, indexes[1:])]
    if sum(res[-1]) < time_step:
        res.append((sum(res[-1]), time_step % sub_step))
    res = [(self.model_time + timedelta(seconds=idx), delta) for idx, delta in res]
    return res
""")
    contract(ctx, 'R2', M + 'step_is_done', """
def step_is_done(self):
    env = self.compile_env()
    for sc in self.spills.items():
        recalc_density(sc, env['water'])
        recalc_viscosity(sc, env['water'])
        aggregated_data.aggregate(sc)
    for mover in self.movers:
        for sc in self.spills.items():
            mover.model_step_is_done(sc)
    for w in self.weatherers:
        for sc in self.spills.items():
            w.model_step_is_done(sc)
    for outputter in self.outputters:
        outputter.model_step_is_done()
    for sc in self.spills.items():
        sc.model_step_is_done()
        sc['age'][:] = sc['age'][:] + abs(self.time_step)
""", calls=('recalc_density', 'recalc_viscosity', 'aggregate', 'model_step_is_done'),
             order=('recalc_density', 'recalc_viscosity', 'aggregate', 'model_step_is_done'),
             order_pairs=lambda e, f: (e.name == 'aggregate') != (f.name == 'aggregate') or
             (e.name == f.name == 'model_step_is_done' and bool(e.args) and not f.args and contains(f.base, lambda x: x == A('spills'))))
    contract(ctx, 'R2', M + 'release_elements', """
def release_elements(self, start_time, end_time):
    num_released = 0
    env = self.compile_env()
    for sc in self.spills.items():
        num_released = sc.release_elements(start_time, end_time, environment=env)
        if num_released > 0:
            on_land = self.map.on_land_points(sc['positions'][-num_released:])
            sc['status_codes'][-num_released:][on_land] = oil_status.on_land
            for item in self.weatherers:
                if item.on:
                    item.initialize_data(sc, num_released)
        aggregated_data.aggregate(sc, num_released)
    return num_released
""", calls=('release_elements', 'initialize_data', 'aggregate'), order=('release_elements', 'initialize_data', 'aggregate'))


def r_out(ctx):
    contract(ctx, 'R3', M + 'output_step', """
def output_step(self, isvalid):
    self._cache.save_timestep(self.current_time_step, self.spills)
    return self.write_output(isvalid)
""", calls=('save_timestep', 'write_output'), order=('save_timestep', 'write_output'))
    contract(ctx, 'R3', M + 'write_output', """
def write_output(self, valid, messages=None):
    output_info = {'step_num': self.current_time_step, 'step_time': self.model_time.isoformat(timespec='minutes')}
    for outputter in self.outputters:
        if self.current_time_step == self.num_time_steps - 1:
            output = outputter.write_output(self.current_time_step, islast_step=True)
        else:
            output = outputter.write_output(self.current_time_step)
        if output is not None:
            output_info[outputter.__class__.__name__] = output
    if len(output_info) > 1:
        output_info['valid'] = valid
    return output_info
""", calls=('write_output',), argmap={'write_output': lambda a, k: (a, k if k.get('islast_step') != FALSE else {})})
    contract(ctx, 'R3', M + 'post_model_run', """
def post_model_run(self):
    for env in self.environment:
        env.post_model_run()
    for mov in self.movers:
        if mov.on:
            mov.post_model_run()
    for out in self.outputters:
        if out.on:
            out.post_model_run()
    for wea in self.weatherers:
        if wea.on:
            wea.post_model_run()
""", calls=('post_model_run',))


def r_run(ctx):
    contract(ctx, 'R4', M + '__iter__', """
def __iter__(self):
    self.rewind()
    return self
""", calls=('rewind',))
    contract(ctx, 'R4', M + '__next__', """
def __next__(self):
    try:
        return self.step()
    except StopIteration:
        self.post_model_run()
        raise
""", calls=('step', 'post_model_run'), ignore_exc=False)
    contract(ctx, 'R4', M + 'full_run', """
def full_run(self, rewind=True):
    if rewind:
        self.rewind()
    output_data = []
    while True:
        try:
            results = self.step()
            output_data.append(results)
        except StopIteration:
            self.post_model_run()
            break
    return output_data
""", calls=('rewind', 'step', 'post_model_run', 'append'), ignore_exc=False)


RULES = [
    ('R1', 'a step runs its phases once each, in order, over its own time interval; failures run the end-of-run hooks and propagate', r_step),
    ('R2', 'each phase reaches every component and element set, with the step interval, in the stated order', r_phases),
    ('R3', 'each step is saved to the cache before every outputter writes it, the last step is announced, end-of-run hooks reach every active component', r_out),
    ('R4', 'iterating and full runs rewind first, run every step and finish with the end-of-run hooks', r_run),
]
