## R1 the model is built and configured as asked
@ gnome.model.Model.__init__
def __init__(self, name='Model', time_step=timedelta(minutes=15), start_time=round_time(datetime.now(), 3600), duration=timedelta(days=1), weathering_substeps=1, map=None, uncertain=False, cache_enabled=False, mode=None, make_default_refs=True, location=[], environment=[], outputters=[], movers=[], weatherers=[], spills=[], uncertain_spills=[], weathering_activated=False, run_backwards=False, timezone_offset=TZOffset(), **kwargs):
    super(Model, self).__init__(name=name, **kwargs)
    self.environment = OrderedCollection(dtype=Environment)
    self.movers = OrderedCollection(dtype=Mover)
    self.weatherers = OrderedCollection(dtype=Weatherer)
    self.outputters = OrderedCollection(dtype=Outputter)
    self.environment.add(environment)
    self.movers.add(movers)
    self.weatherers.add(weatherers)
    self.outputters.add(outputters)
    self.spills = SpillContainerPair(uncertain)
    if len(uncertain_spills) > 0:
        _spills = list(zip(spills, uncertain_spills))
    else:
        _spills = spills
    self.spills.add(_spills)
    self._cache = ElementCache()
    self._cache.enabled = cache_enabled
    self.start_time = start_time
    self._duration = duration
    self.timezone_offset = timezone_offset
    if weathering_substeps != 1:
        if weathering_substeps > 1:
            msg = 'Setting weathering_subteps > 1 has not been well tested. Use at your own risk: weathering_substeps = {0}'.format(weathering_substeps)
        else:
            raise ValueError()
    self.weathering_substeps = weathering_substeps
    if not map:
        map = GnomeMap()
    self._map = map
    if mode is not None:
        if mode in Model.modes:
            self.mode = mode
        else:
            raise ValueError()
    else:
        self.mode = 'gnome'
    self._current_time_step = -1
    self._time_step = None
    if time_step is not None:
        self.time_step = time_step
    self._reset_num_time_steps()
    self._run_backwards = run_backwards
    if self._run_backwards is True:
        if self.duration.total_seconds() > 0:
            self._duration = timedelta(seconds=-self._duration.total_seconds())
        if self.time_step is not None and self.time_step > 0:
            self.time_step = -self.time_step
    self.zipsave = True
    self.make_default_refs = make_default_refs
    self.location = location
    self._register_callbacks()
    self.weathering_activated = weathering_activated
    self.array_types.update({'age': gat('age')})

@ gnome.model.Model._register_callbacks
def _register_callbacks(self):
    self.movers.register_callback(self._callback_add_mover, ('add', 'replace'))
    self.weatherers.register_callback(self._callback_add_weatherer_env, ('add', 'replace'))
    self.environment.register_callback(self._callback_add_weatherer_env, ('add', 'replace'))
    self.outputters.register_callback(self._callback_add_outputter, ('add', 'replace'))
    self.movers.register_callback(self._callback_add_spill, ('add', 'replace', 'remove'))

@ gnome.model.Model.add_weathering
def add_weathering(self, which='standard'):
    try:
        which = standard_weatherering_sets[which]
    except (TypeError, KeyError):
        pass
    for wx_name in which:
        try:
            self.weatherers += weatherers_by_name[wx_name.lower()]()
        except KeyError:
            raise ValueError()

@ gnome.model.Model.reset
def reset(self, **kwargs):
    self.__init__(**kwargs)

@ gnome.model.Model.rewind
def rewind(self):
    self._current_time_step = -1
    self.model_time = self.start_time
    self.spills.rewind()
    gnome.utilities.rand.seed(1)
    self._cache.rewind()
    for outputter in self.outputters:
        outputter.rewind()

@ getter gnome.model.Model.uncertain
def uncertain(self):
    return self.spills.uncertain

@ setter gnome.model.Model.uncertain
def uncertain(self, uncertain_value):
    if self.spills.uncertain != uncertain_value:
        self.spills.uncertain = uncertain_value
        self.rewind()

@ getter gnome.model.Model.uncertain_spills
def uncertain_spills(self):
    return self.spills.to_dict().get('uncertain_spills', [])

@ getter gnome.model.Model.run_backwards
def run_backwards(self):
    return self._run_backwards

@ setter gnome.model.Model.run_backwards
def run_backwards(self, run_backwards):
    if self._run_backwards != run_backwards:
        self._run_backwards = run_backwards
        if self._run_backwards is True:
            if self.duration.total_seconds() > 0:
                self._duration = timedelta(seconds=-self._duration.total_seconds())
            if self.time_step is not None and self.time_step > 0:
                self.time_step = -self.time_step
        else:
            if self.duration.total_seconds() < 0:
                self._duration = timedelta(seconds=abs(self._duration.total_seconds()))
            if self.time_step is not None and self.time_step < 0:
                self.time_step = abs(self.time_step)
        self.rewind()

@ getter gnome.model.Model.cache_enabled
def cache_enabled(self):
    return self._cache.enabled

@ setter gnome.model.Model.cache_enabled
def cache_enabled(self, enabled):
    self._cache.enabled = enabled

@ getter gnome.model.Model.has_weathering_uncertainty
def has_weathering_uncertainty(self):
    return any([w.on for w in self.weatherers]) and len([o for o in self.outputters if isinstance(o, WeatheringOutput)]) > 0 and (any([s.amount_uncertainty_scale > 0.0 for s in self.spills]) or any([w.speed_uncertainty_scale > 0.0 for w in self.environment if isinstance(w, Wind)]))

@ getter gnome.model.Model.has_weathering
def has_weathering(self):
    return any([w.on for w in self.weatherers])

@ getter gnome.model.Model.start_time
def start_time(self):
    return self._start_time

@ setter gnome.model.Model.start_time
def start_time(self, start_time):
    self._start_time = asdatetime(start_time)
    self.rewind()

@ getter gnome.model.Model.time_step
def time_step(self):
    return self._time_step

@ setter gnome.model.Model.time_step
def time_step(self, time_step):
    try:
        self._time_step = time_step.total_seconds()
    except AttributeError:
        self._time_step = int(time_step)
    self._reset_num_time_steps()
    self.rewind()

@ getter gnome.model.Model.current_time_step
def current_time_step(self):
    return self._current_time_step

@ setter gnome.model.Model.current_time_step
def current_time_step(self, step):
    self.model_time = self.start_time + timedelta(seconds=step * self.time_step)
    self._current_time_step = step

@ getter gnome.model.Model.duration
def duration(self):
    return self._duration

@ setter gnome.model.Model.duration
def duration(self, duration):
    if duration < self._duration:
        self.rewind()
    self._duration = duration
    self._reset_num_time_steps()

@ getter gnome.model.Model.map
def map(self):
    return self._map

@ setter gnome.model.Model.map
def map(self, map_in):
    self._map = map_in
    self.rewind()

@ getter gnome.model.Model.num_time_steps
def num_time_steps(self):
    return self._num_time_steps

@ gnome.model.Model._reset_num_time_steps
def _reset_num_time_steps(self):
    if self.duration is not None and self.time_step is not None:
        initial_0th_step = 1
        self._num_time_steps = initial_0th_step + int(self.duration.total_seconds() // self.time_step)
    else:
        self._num_time_steps = None

@ gnome.model.Model.set_make_default_refs
def set_make_default_refs(self, value):
    for attr in ('weatherers', 'movers', 'environment'):
        oc = getattr(self, attr)
        for item in oc:
            item.make_default_refs = value

@ gnome.model.Model.add_env
def add_env(self, env, quash=False):
    for item in env:
        if not quash:
            self.environment.add(item)
        else:
            for o in self.environment:
                if o.__class__ == item.__class__:
                    idx = self.environment.index(o)
                    self.environment[idx] = item
                    break
            else:
                self.environment.add(item)

@ gnome.model.Model.merge
def merge(self, model):
    for attr in self.__dict__:
        if getattr(self, attr) is None and getattr(model, attr) is not None:
            setattr(self, attr, getattr(model, attr))
    for oc in self._oc_list:
        my_oc = getattr(self, oc)
        new_oc = getattr(model, oc)
        for item in new_oc:
            if item not in my_oc:
                my_oc += item
    for spill in model.spills:
        if spill not in self.spills:
            self.spills += spill
    self.rewind()

@ gnome.model.Model.load_savefile
def load_savefile(cls, filename):
    model = cls.load(filename)
    if not isinstance(model, cls):
        raise ValueError()
    else:
        return model

@ gnome.model.Model.load
def load(cls, saveloc='.', filename=None, refs=None):
    try:
        saveloc = os.fspath(saveloc)
        filename = os.fspath(filename)
    except TypeError:
        pass
    new_model = super(Model, cls).load(saveloc=saveloc, filename=filename, refs=refs)
    return new_model

@ gnome.model.Model.save
def save(self, saveloc='.', refs=None, overwrite=True):
    json_, saveloc, refs = super(Model, self).save(saveloc=saveloc, refs=refs, overwrite=overwrite)
    if self.current_time_step > -1:
        self._save_spill_data(saveloc, 'spills_data_arrays.nc')
    return (json_, saveloc, refs)

@ gnome.model.Model._save_spill_data
def _save_spill_data(self, saveloc, nc_filename):
    nc_out = NetCDFOutput(nc_filename, which_data='all', cache=self._cache)
    nc_out.prepare_for_model_run(model_start_time=self.start_time, uncertain=self.uncertain, spills=self.spills)
    nc_out.write_output(self.current_time_step)
    if isinstance(saveloc, zipfile.ZipFile):
        saveloc.write(nc_filename, nc_filename)
        if self.uncertain:
            u_file = nc_out.uncertain_filename
            saveloc.write(u_file, os.path.split(u_file)[1])
    elif zipfile.is_zipfile(saveloc):
        with zipfile.ZipFile(saveloc, 'a', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64) as z:
            z.write(nc_filename, nc_filename)
            if self.uncertain:
                u_file = nc_out.uncertain_filename
                z.write(u_file, os.path.split(u_file)[1])
    if self.uncertain:
        os.remove(u_file)
    os.remove(nc_filename)

@ const gnome.model.Model._schema
ModelSchema

@ const gnome.model.Model._oc_list
['movers', 'weatherers', 'environment', 'outputters']

@ const gnome.model.Model.modes
{'gnome', 'adios', 'roc'}

@ const gnome.model.Model.next
__next__

## R2 objects are found, referred to and added to the environment
@ gnome.model.Model.contains_object
def contains_object(self, obj_id):
    if self.map.id == obj_id:
        return True
    for collection in (self.environment, self.spills, self.movers, self.weatherers, self.outputters):
        for o in collection:
            if obj_id == o.id:
                return True
            if hasattr(o, 'contains_object') and o.contains_object(obj_id):
                return True
    return False

@ gnome.model.Model.find_by_class
def find_by_class(self, obj, collection, ret_all=False):
    all_objs = []
    for item in collection:
        if isinstance(item, obj):
            if not ret_all:
                return item
            else:
                all_objs.append(item)
    if len(all_objs) == 0:
        return None
    return all_objs

@ gnome.model.Model.find_by_attr
def find_by_attr(self, attr, value, collection, allitems=False):
    items = []
    for item in collection:
        try:
            if not isinstance(getattr(item, attr), str):
                if any([value == v for v in getattr(item, attr)]):
                    if allitems:
                        items.append(item)
                    else:
                        return item
            elif getattr(item, attr) == value:
                if allitems:
                    items.append(item)
                else:
                    return item
        except AttributeError:
            pass
    return None if items == [] else items

@ gnome.model.Model._order_weatherers
def _order_weatherers(self):
    s_weatherers = sorted(self.weatherers, key=weatherer_sort)
    if list(self.weatherers.values()) != s_weatherers:
        self.weatherers.clear()
        self.weatherers += s_weatherers

@ gnome.model.Model._attach_default_refs
def _attach_default_refs(self, ref_dict):
    super(Model, self)._attach_default_refs(ref_dict)
    self.gather_ref_as(self.environment, ref_dict)
    self.gather_ref_as(self.map, ref_dict)
    self.gather_ref_as(self.movers, ref_dict)
    self.gather_ref_as(self.weatherers, ref_dict)
    self.gather_ref_as(self.outputters, ref_dict)
    all_spills = [sp for sc in self.spills.items() for sp in sc.spills.values()]
    for coll in [self.environment, self.weatherers, self.movers, self.outputters, all_spills]:
        for item in coll:
            item._attach_default_refs(ref_dict)

@ gnome.model.Model._add_to_environ_collec
def _add_to_environ_collec(self, obj_added):
    if hasattr(obj_added, 'wind') and obj_added.wind is not None:
        if obj_added.wind not in self.environment:
            self.environment += obj_added.wind
    if hasattr(obj_added, 'tide') and obj_added.tide is not None:
        if obj_added.tide not in self.environment:
            self.environment += obj_added.tide
    if hasattr(obj_added, 'waves') and obj_added.waves is not None:
        if obj_added.waves not in self.environment:
            self.environment += obj_added.waves
    if hasattr(obj_added, 'water') and obj_added.water is not None:
        if obj_added.water not in self.environment:
            self.environment += obj_added.water
    if hasattr(obj_added, 'current') and obj_added.current is not None:
        if obj_added.current not in self.environment:
            self.environment += obj_added.current

@ gnome.model.Model._callback_add_mover
def _callback_add_mover(self, obj_added):
    self._add_to_environ_collec(obj_added)
    self.rewind()

@ gnome.model.Model._callback_add_outputter
def _callback_add_outputter(self, obj_added):
    obj_added.cache = self._cache

@ gnome.model.Model._callback_add_weatherer_env
def _callback_add_weatherer_env(self, obj_added):
    self._add_to_environ_collec(obj_added)
    self.rewind()

@ gnome.model.Model._callback_add_spill
def _callback_add_spill(self, obj_added):
    self.rewind()

@ gnome.model.Model.compile_env
def compile_env(self):
    env = {}
    water = self.find_by_attr('_ref_as', 'water', self.environment)
    if water:
        env['water'] = water
    else:
        env['water'] = None
    return env

@ gnome.gnomeobject.GnomeId.validate_refs
def validate_refs(self, refs=['wind', 'water', 'waves']):
    isvalid = True
    msgs = []
    prepend = self._warn_pre
    for attr in refs:
        if hasattr(self, attr) and getattr(self, attr) is None:
            msg = 'no {0} object defined'.format(attr)
            msgs.append(prepend + msg)
            if not self.make_default_refs:
                isvalid = False
    return (msgs, isvalid)

@ gnome.gnomeobject.GnomeId.validate
def validate(self):
    return self.validate_refs()

@ gnome.gnomeobject.GnomeId._attach_default_refs
def _attach_default_refs(self, ref_dict):
    if not hasattr(self, '_req_refs') or not self.make_default_refs:
        return
    else:
        for refname in self._req_refs:
            reflist = ref_dict.get(refname, [])
            if len(reflist) > 0 and getattr(self, refname) is None:
                setattr(self, refname, reflist[0])

@ gnome.gnomeobject.GnomeId.gather_ref_as
def gather_ref_as(self, src, refs):
    if isinstance(src, GnomeId):
        src = [src]
    for ob in src:
        if hasattr(ob, '_ref_as'):
            names = ob._ref_as
            if not isinstance(names, list):
                names = [names]
            for n in names:
                if n in refs:
                    if ob not in refs[n]:
                        refs[n].append(ob)
                else:
                    refs[n] = [ob]

## R3 every step of a run does the same things in the same order
@ gnome.model.Model.setup_model_run
def setup_model_run(self):
    weather_data = dict()
    spread = None
    langmuir = None
    for item in self.weatherers:
        if item.on:
            weather_data.update(item.array_types)
        try:
            if item._ref_as == 'spreading':
                item.on = False
                spread = item
            if item._ref_as == 'langmuir':
                item.on = False
                langmuir = item
        except AttributeError:
            pass
    if 'area' in weather_data:
        if spread is None:
            self.weatherers += FayGravityViscous()
        else:
            spread.on = True
        if langmuir is None:
            self.weatherers += Langmuir()
        else:
            langmuir.on = True
    for oc in [self.movers, self.weatherers, self.outputters, self.environment]:
        oc.remake()
    self._order_weatherers()
    array_types = dict()
    array_types.update(non_weathering_array_types)
    for sp in self.spills:
        if sp.substance and sp.substance.is_weatherable:
            array_types.update(weathering_array_types)
    for oc in [self.movers, self.outputters, self.environment, self.weatherers, self.spills]:
        for item in oc:
            if hasattr(item, 'array_types'):
                array_types.update(item.all_array_types)
    for sc in self.spills.items():
        sc.prepare_for_model_run(array_types, self.time_step)
    ref_dict = {}
    self._attach_default_refs(ref_dict)
    for sc in self.spills.items():
        sc.mass_balance.update({key: 0.0 for key in ('avg_density', 'floating', 'amount_released', 'non_weathering', 'avg_viscosity')})
    transport = False
    for mover in self.movers:
        if mover.on:
            mover.prepare_for_model_run()
            transport = True
    weathering = False
    for w in self.weatherers:
        for sc in self.spills.items():
            if w.on and (not sc.uncertain):
                w.prepare_for_model_run(sc)
                weathering = True
    for environment in self.environment:
        environment.prepare_for_model_run(self.start_time)
    if self.time_step is None:
        if transport:
            self._time_step = 900
        elif weathering and (not transport):
            self._time_step = 3600
        else:
            self._time_step = 900
        self._reset_num_time_steps()
    for outputter in self.outputters:
        outputter.prepare_for_model_run(model_start_time=self.start_time, cache=self._cache, uncertain=self.uncertain, spills=self.spills, model_time_step=self.time_step, map=self.map, model_name=self.name)

@ gnome.model.Model.post_model_run
def post_model_run(self):
    for env in self.environment:
        env.post_model_run()
    for mov in self.movers:
        if mov.on:
            mov.post_model_run()
    for out in self.outputters:
        if out.on:
            out.post_model_run()
    for wea in self.weatherers:
        if wea.on:
            wea.post_model_run()

@ gnome.model.Model.setup_time_step
def setup_time_step(self):
    for m in self.movers:
        for sc in self.spills.items():
            m.prepare_for_model_step(sc, self.time_step, self.model_time)
    for w in self.weatherers:
        for sc in self.spills.items():
            if not sc.uncertain:
                w.prepare_for_model_step(sc, self.time_step, self.model_time)
    for environment in self.environment:
        environment.prepare_for_model_step(self.model_time)
    for outputter in self.outputters:
        outputter.prepare_for_model_step(self.time_step, self.model_time)

@ gnome.model.Model.move_elements
def move_elements(self):
    for sc in self.spills.items():
        if sc.num_released > 0:
            self.map.refloat_elements(sc, self.time_step, self.model_time)
            sc['next_positions'][:] = sc['positions']
            for m in self.movers:
                delta = m.get_move(sc, self.time_step, self.model_time)
                sc['next_positions'] += delta
            self.map.beach_elements(sc, self.model_time)
            tbr_mask = sc['status_codes'] == oil_status.off_maps
            sc['status_codes'][tbr_mask] = oil_status.to_be_removed
            substances = sc.get_substances(False)
            if len(substances) > 0:
                self._update_fate_status(sc)
            sc['positions'][:] = sc['next_positions']

@ gnome.model.Model._update_fate_status
def _update_fate_status(self, sc):
    if 'fate_status' in sc:
        on_land_mask = sc['status_codes'] == oil_status.on_land
        sc['fate_status'][on_land_mask] = fate.non_weather
        w_mask = (sc['status_codes'] == oil_status.in_water) & ~(sc['fate_status'] & fate.skim == fate.skim) & ~(sc['fate_status'] & fate.burn == fate.burn) & ~(sc['fate_status'] & fate.disperse == fate.disperse)
        surf_mask = np.logical_and(w_mask, sc['positions'][:, 2] == 0)
        subs_mask = np.logical_and(w_mask, sc['positions'][:, 2] > 0)
        sc['fate_status'][surf_mask] = fate.surface_weather
        sc['fate_status'][subs_mask] = fate.subsurf_weather
        for i, sp in enumerate(sc.spills):
            if isinstance(sp.substance, NonWeatheringSubstance):
                nw_mask = sc['spill_num'] == i
                sc['fate_status'][nw_mask] = fate.non_weather

@ gnome.model.Model.weather_elements
def weather_elements(self):
    if len(self.weatherers) == 0:
        return
    if self._time_step < 0:
        return
    for sc in self.spills.items():
        sc.reset_fate_dataview()
        if not sc.uncertain:
            for w in self.weatherers:
                for model_time, time_step in self._split_into_substeps():
                    w.weather_elements(sc, time_step, model_time)

@ gnome.model.Model._split_into_substeps
def _split_into_substeps(self):
    time_step = int(self._time_step)
    sub_step = time_step // self.weathering_substeps
    indexes = [idx for idx in range(0, time_step + 1, sub_step)]
    res = [(idx, next_idx - idx) for idx, next_idx in zip(indexes, indexes[1:])]
    if sum(res[-1]) < time_step:
        res.append((sum(res[-1]), time_step % sub_step))
    res = [(self.model_time + timedelta(seconds=idx), delta) for idx, delta in res]
    return res

@ gnome.model.Model.step_is_done
def step_is_done(self):
    env = self.compile_env()
    for sc in self.spills.items():
        recalc_density(sc, env['water'])
        recalc_viscosity(sc, env['water'])
        aggregated_data.aggregate(sc)
    for mover in self.movers:
        for sc in self.spills.items():
            mover.model_step_is_done(sc)
    for w in self.weatherers:
        for sc in self.spills.items():
            w.model_step_is_done(sc)
    for outputter in self.outputters:
        outputter.model_step_is_done()
    for sc in self.spills.items():
        sc.model_step_is_done()
        sc['age'][:] = sc['age'][:] + abs(self.time_step)

@ gnome.model.Model.write_output
def write_output(self, valid, messages=None):
    output_info = {'step_num': self.current_time_step, 'step_time': self.model_time.isoformat(timespec='minutes')}
    for outputter in self.outputters:
        if self.current_time_step == self.num_time_steps - 1:
            output = outputter.write_output(self.current_time_step, islast_step=True)
        else:
            output = outputter.write_output(self.current_time_step)
        if output is not None:
            output_info[outputter.__class__.__name__] = output
    if len(output_info) > 1:
        output_info['valid'] = valid
    return output_info

@ gnome.model.Model.step
def step(self):
    isValid = True
    for sc in self.spills.items():
        sc.current_time_stamp = None
    if self.current_time_step == -1:
        self.setup_model_run()
        msgs, isValid = self.check_inputs()
        if not isValid:
            raise RuntimeError()
        self.current_time_step += 1
        model_time = self.model_time
        for sc in self.spills.items():
            sc.current_time_stamp = model_time
        self.release_elements(model_time, model_time)
        output_info = self.output_step(isValid)
        return output_info
    elif self.current_time_step >= self._num_time_steps - 1:
        self.post_model_run()
        raise StopIteration()
    else:
        try:
            half_step = timedelta(seconds=self.time_step / 2)
            self.release_elements(self.model_time, self.model_time + half_step)
            self.setup_time_step()
            self.move_elements()
            self.weather_elements()
            self.step_is_done()
            self.current_time_step += 1
            for sc in self.spills.items():
                sc.current_time_stamp = self.model_time
            self.release_elements(self.model_time - half_step, self.model_time)
            output_info = self.output_step(isValid)
            return output_info
        except Exception as ex:
            self.post_model_run()
            raise

@ gnome.model.Model.output_step
def output_step(self, isvalid):
    self._cache.save_timestep(self.current_time_step, self.spills)
    output_info = self.write_output(isvalid)
    return output_info

@ gnome.model.Model.release_elements
def release_elements(self, start_time, end_time):
    num_released = 0
    env = self.compile_env()
    for sc in self.spills.items():
        num_released = sc.release_elements(start_time, end_time, environment=env)
        if num_released > 0:
            on_land = self.map.on_land_points(sc['positions'][-num_released:])
            sc['status_codes'][-num_released:][on_land] = oil_status.on_land
            for item in self.weatherers:
                if item.on:
                    item.initialize_data(sc, num_released)
        aggregated_data.aggregate(sc, num_released)
    return num_released

@ gnome.model.Model.__iter__
def __iter__(self):
    self.rewind()
    return self

@ gnome.model.Model.__next__
def __next__(self):
    try:
        return self.step()
    except StopIteration:
        self.post_model_run()
        raise

@ gnome.model.Model.full_run
def full_run(self, rewind=True):
    if rewind:
        self.rewind()
    output_data = []
    while True:
        try:
            results = self.step()
            output_data.append(results)
        except StopIteration:
            self.post_model_run()
            break
    return output_data

## R4 invalid set-ups are rejected and suspicious ones warned about; queries give the elements asked for
@ gnome.model.Model.check_inputs
def check_inputs(self):
    msgs, isValid = self.validate()
    someSpillIntersectsModel = False
    isWeatherable = False
    num_spills = len(self.spills)
    if num_spills == 0:
        msg = '{0} contains no spills'.format(self.name)
        msgs.append(self._warn_pre + msg)
    num_spills_on = 0
    for spill in self.spills:
        msg = None
        if spill.on:
            num_spills_on += 1
            start_pos = copy.deepcopy(spill.start_position)
            if not start_pos[2] >= 0:
                msg = 'Depth of spill is negative, spill is above the surface: {0}'.format(start_pos)
                msgs.append(self._warn_pre + msg)
            if not np.all(self.map.on_map(start_pos)):
                msg = '{0} has start position outside of map bounds'.format(spill.name)
                msgs.append(self._warn_pre + msg)
            elif hasattr(spill, 'end_position') and (not np.all(spill.end_position == spill.start_position)):
                end_pos = copy.deepcopy(spill.end_position)
                if not np.all(self.map.on_map(end_pos)):
                    msg = '{0} has start position outside of map bounds'.format(spill.name)
                    msgs.append(self._warn_pre + msg)
            if np.any(self.map.on_land(start_pos)):
                msg = '{0} has start position on land'.format(spill.name)
                msgs.append(self._warn_pre + msg)
            elif hasattr(spill, 'end_position') and (not np.all(spill.end_position == spill.start_position)):
                end_pos = copy.deepcopy(spill.end_position)
                if np.any(self.map.on_land(end_pos)):
                    msg = '{0} has start position on land'.format(spill.name)
                    msgs.append(self._warn_pre + msg)
            if not self.run_backwards:
                if spill.release_time < self.start_time + self.duration:
                    someSpillIntersectsModel = True
            elif spill.release_time > self.start_time + self.duration:
                someSpillIntersectsModel = True
            if spill.release_time > self.start_time and self.time_step > 0 or (spill.release_time < self.start_time and self.time_step < 0):
                msg = '{0} has release time after model start time'.format(spill.name)
                msgs.append(self._warn_pre + msg)
            elif spill.release_time < self.start_time and self.time_step > 0 or (spill.release_time > self.start_time and self.time_step < 0):
                msg = '{0} has release time before model start time: rt = {1}, st = {2}'.format(spill.name, spill.release_time, self.start_time)
                msgs.append('error: {}: {}'.format(self.__class__.__name__, msg))
                isValid = False
            if spill.release_time != spill.end_release_time and self.time_step < 0:
                msg = 'Backwards run is not valid for continuous releases. Use an instantaneous release or run forwards.'
                isValid = False
                raise GnomeRuntimeError()
            if spill.substance.is_weatherable:
                isWeatherable = True
                pour_point = spill.substance.pour_point
                if spill.substance.water is not None:
                    water_temp = spill.substance.water.get('temperature')
                    if water_temp < pour_point:
                        msg = 'The water temperature, {0} K, is less than the minimum pour point of the selected oil, {1} K.  The results may be unreliable.'.format(water_temp, pour_point)
                        msgs.append(self._warn_pre + msg)
                    rho_h2o = spill.substance.water.get('density')
                    rho_oil = spill.substance.density_at_temp(water_temp)
                    if np.any(rho_h2o < rho_oil):
                        msg = 'Found particles with relative_buoyancy < 0. Oil is a sinker'
                        isValid = False
                        raise GnomeRuntimeError()
    if num_spills_on > 0 and (not someSpillIntersectsModel):
        if num_spills > 1:
            msg = 'All of the spills are released after the time interval being modeled.'
        else:
            msg = 'The spill is released after the time interval being modeled.'
        msgs.append('warning: ' + self.__class__.__name__ + ': ' + msg)
    map_bounding_box = self.map.get_map_bounding_box()
    for mover in self.movers:
        if not mover.on:
            continue
        bounds = mover.get_bounds()
        if bounds[1][0] < map_bounding_box[0][0] or bounds[0][0] > map_bounding_box[1][0] or bounds[1][1] < map_bounding_box[0][1] or (bounds[0][1] > map_bounding_box[1][1]):
            msg = 'One of the movers - {0} - does not overlap with the map bounds. Check that they are in the same longitude coordinate system'.format(mover.name)
            msgs.append('warning: ' + self.__class__.__name__ + ': ' + msg)
    if self.time_step < 0:
        if self.duration.total_seconds() > 0:
            msg = 'Time step and duration must have the same sign: time step = {0} duration = {1} To run backwards they must both be negative.'.format(self.time_step, self.duration.total_seconds())
            isValid = False
            raise GnomeRuntimeError()
        if self.duration.total_seconds() > 0:
            msg = 'Time step and duration must have the same sign: time step = {0} duration = {1} To run backwards they must both be negative.'.format(self.time_step, self.duration.total_seconds())
            isValid = False
        if self.has_weathering and isWeatherable:
            msg = 'Backwards run is not valid for weathering. Turn off weathering to model a backwards trajectory.'
            isValid = False
            raise GnomeRuntimeError()
    return (msgs, isValid)

@ gnome.model.Model.validate
def validate(self):
    env_req = set()
    msgs = []
    isvalid = True
    for oc in self._oc_list:
        for item in getattr(self, oc):
            if hasattr(item, 'on') and (not item.on):
                continue
            msg, i_isvalid = item.validate()
            if not i_isvalid:
                isvalid = i_isvalid
            msgs.extend(msg)
            if item.make_default_refs:
                for attr in ('wind', 'water', 'waves'):
                    if hasattr(item, attr):
                        env_req.update({attr})
    if len(env_req) > 0:
        ref_msgs, ref_isvalid = self._validate_env_coll(env_req)
        if not ref_isvalid:
            isvalid = ref_isvalid
        msgs.extend(ref_msgs)
    return (msgs, isvalid)

@ gnome.model.Model._validate_env_coll
def _validate_env_coll(self, refs, raise_exc=False):
    msgs = []
    isvalid = True
    if refs is None:
        raise NotImplementedError()
    for ref in refs:
        obj = self.find_by_attr('_ref_as', ref, self.environment)
        if obj is None:
            msg = '{0} not found in environment collection'.format(ref)
            if raise_exc:
                raise ReferencedObjectNotSet()
            else:
                msgs.append(self._warn_pre + msg)
                isvalid = False
    return (msgs, isvalid)

@ gnome.model.Model.list_spill_properties
def list_spill_properties(self):
    return list(self.spills.items())[0].data_arrays.keys()

@ gnome.model.Model.get_spill_property
def get_spill_property(self, prop_name, ucert=False):
    ucert = 1 if ucert else 0
    try:
        return self.spills.items()[ucert][prop_name]
    except KeyError:
        raise ValueError()

@ gnome.model.Model.get_spill_data
def get_spill_data(self, target_properties, conditions, ucert=0):
    if ucert == 'ucert':
        ucert = 1

    def elem_val(prop, index):
        val = list(self.spills.items())[ucert].data_arrays[prop][index]
        return val

    def test_phrase(phrase):
        for sub_cond in phrase:
            cond = sub_cond.rsplit()
            prop_val = elem_val(cond[0], i)
            op = cond[1]
            test_num = cond[2]
            if test(prop_val, op, test_num):
                return True
        return False

    def test(elem_value, op, test_val):
        if op in {'<', '<=', '>', '>=', '=='}:
            return eval(str(elem_value) + op + test_val)

    def num(s):
        try:
            return int(s)
        except ValueError:
            return float(s)
    conditions = conditions.rsplit('&&')
    conditions = [str(cond).rsplit('||') for cond in conditions]
    sc = list(self.spills.items())[ucert]
    result = {}
    for t in target_properties:
        result[t] = []
    for i in range(0, len(sc)):
        test_result = True
        for phrase in conditions:
            if not test_phrase(phrase):
                test_result = False
                break
        if test_result:
            for k in result.keys():
                n = elem_val(k, i)
                result[k].append(n)
    return result

@ gnome.model.Model.__eq__ | nosuper=True
def __eq__(self, other):
    check = super(Model, self).__eq__(other)
    if check:
        if not isinstance(self.spills, other.spills.__class__):
            return False
        if self.spills != other.spills:
            return False
    return check

@ gnome.model.Model.__ne__
def __ne__(self, other):
    return not self == other

@ func gnome.weatherers.weatherer_sort
def weatherer_sort(weatherer):
    return weatherers_idx.get(weatherer.__class__)

@ gnome.weatherers.core.Weatherer.check_time
def check_time(self, wind, model_time):
    new_model_time = model_time
    if wind is not None:
        if model_time is not None:
            timeval = date_to_sec(model_time)
            start_time = wind.get_start_time()
            end_time = wind.get_end_time()
            if end_time == start_time:
                return model_time
            if timeval < start_time:
                new_model_time = sec_to_datetime(start_time)
            if timeval > end_time:
                new_model_time = sec_to_datetime(end_time)
        else:
            return model_time
    return new_model_time

## R5 updating a model from a description changes what it names
@ gnome.model.Model.update_from_dict
def update_from_dict(self, dict_, refs=None):
    if refs is None:
        refs = Refs()
        self._schema.register_refs(self._schema(), self, refs)
    updatable = self._schema().get_nodes_by_attr('update')
    updated = False
    attrs = {k: v for k, v in dict_.items() if k in updatable}
    for name in updatable:
        node = self._schema().get(name)
        if name in attrs:
            if name != 'spills':
                attrs[name] = self._schema.process_subnode(node, self, getattr(self, name), name, attrs, attrs[name], refs)
                if attrs[name] is drop:
                    del attrs[name]
            else:
                oldspills = OrderedCollection(self.spills._spill_container.spills[:], dtype=self.spills._spill_container.spills.dtype)
                new_spills = ObjTypeSchema.process_subnode(node, self, self.spills._spill_container.spills, 'spills', attrs, attrs[name], refs)
                if not updated and self._attr_changed(oldspills, new_spills):
                    updated = True
                attrs.pop(name)
    for k in updatable:
        if hasattr(self, k) and k in attrs:
            if not updated and self._attr_changed(getattr(self, k), attrs[k]):
                updated = True
            try:
                setattr(self, k, attrs[k])
            except AttributeError:
                raise
            attrs.pop(k)
    for k, v in list(attrs.items()):
        if hasattr(self, k):
            if not updated and self._attr_changed(getattr(self, k), v):
                updated = True
            try:
                setattr(self, k, v)
            except AttributeError:
                raise
    return updated

@ gnome.model.Model.spills_update_from_dict
def spills_update_from_dict(self, value):
    return self.spills.update_from_dict({'spills': value})

## R6 ordered collections behave as lists of the objects added
@ gnome.utilities.orderedcollection.OrderedCollection.__init__
def __init__(self, elems=None, dtype=None):
    if elems and (not isinstance(elems, list)):
        raise TypeError()
    if not elems:
        elems = []
    if not dtype and len(elems) == 0:
        raise TypeError()
    elif not dtype:
        self.dtype = type(elems[0])
    else:
        self.dtype = dtype
    if not all([isinstance(e, self.dtype) for e in elems]):
        raise TypeError()
    self._elems = elems[:]
    self._d_index = {self._s_id(elem): idx for idx, elem in enumerate(self._elems)}
    self.callbacks = []

@ gnome.utilities.orderedcollection.OrderedCollection._s_id
def _s_id(self, elem):
    if hasattr(elem, 'id'):
        return str(elem.id)
    else:
        return str(id(elem))

@ gnome.utilities.orderedcollection.OrderedCollection.remake
def remake(self):
    if None in self._elems:
        self._elems = [elem for elem in self._elems if elem is not None]
        for ix, elem in enumerate(self._elems):
            self._d_index[self._s_id(elem)] = ix

@ gnome.utilities.orderedcollection.OrderedCollection.get
def get(self, ident):
    try:
        idx = sorted(self._d_index.values())[ident]
        return self._elems[idx]
    except TypeError:
        return self._elems[self._d_index[ident]]

@ gnome.utilities.orderedcollection.OrderedCollection.add
def add(self, elem):
    if isinstance(elem, self.dtype):
        l__id = self._s_id(elem)
        if l__id not in self._d_index.keys():
            self._d_index[l__id] = len(self._elems)
            self._elems.append(elem)
            self.fire_event('add', elem)
    else:
        try:
            for e in elem:
                if not isinstance(e, self.dtype):
                    raise TypeError()
                self.add(e)
        except TypeError:
            raise TypeError()

@ gnome.utilities.orderedcollection.OrderedCollection.append
def append(self, elem):
    self.add(elem)

@ gnome.utilities.orderedcollection.OrderedCollection.remove
def remove(self, ident):
    if ident in self._d_index:
        obj_id = ident
    else:
        obj_id = self._s_id(self[ident])
    item = self[obj_id]
    self._elems[self._d_index[obj_id]] = None
    del self._d_index[obj_id]
    self.fire_event('remove', item)

@ gnome.utilities.orderedcollection.OrderedCollection.replace
def replace(self, ident, new_elem):
    if not isinstance(new_elem, self.dtype):
        raise TypeError()
    if isinstance(ident, int):
        l__key = self._s_id(self[ident])
    elif ident in self._d_index:
        l__key = ident
    else:
        raise KeyError()
    idx = self._d_index[l__key]
    del self._d_index[l__key]
    self._elems[idx] = new_elem
    self._d_index[self._s_id(new_elem)] = idx
    self.fire_event('replace', new_elem)

@ gnome.utilities.orderedcollection.OrderedCollection.index
def index(self, elem):
    try:
        if hasattr(elem, 'id'):
            idx = self._s_id(elem)
            try:
                idx = self._d_index[idx]
            except KeyError:
                raise ValueError()
        else:
            idx = self._d_index[elem]
    except KeyError:
        ident = self._s_id(elem)
        try:
            idx = self._d_index[ident]
        except KeyError:
            raise ValueError()
    return sorted(self._d_index.values()).index(idx)

@ gnome.utilities.orderedcollection.OrderedCollection.__len__
def __len__(self):
    return len(list(self._d_index.keys()))

@ gnome.utilities.orderedcollection.OrderedCollection.__iter__
def __iter__(self):
    for i in sorted(self._d_index.values()):
        yield self._elems[i]

@ gnome.utilities.orderedcollection.OrderedCollection.__contains__
def __contains__(self, elem):
    id_ = self._s_id(elem)
    return id_ in self._d_index

@ gnome.utilities.orderedcollection.OrderedCollection.__getitem__
def __getitem__(self, ident):
    if isinstance(ident, slice):
        return [self.get(ix) for ix in range(*ident.indices(len(self)))]
    else:
        return self.get(ident)

@ gnome.utilities.orderedcollection.OrderedCollection.__setitem__
def __setitem__(self, ident, new_elem):
    self.replace(ident, new_elem)

@ gnome.utilities.orderedcollection.OrderedCollection.__delitem__
def __delitem__(self, ident):
    self.remove(ident)

@ gnome.utilities.orderedcollection.OrderedCollection.__iadd__
def __iadd__(self, rop):
    self.add(rop)
    return self

@ gnome.utilities.orderedcollection.OrderedCollection.__eq__
def __eq__(self, other):
    if not isinstance(other, OrderedCollection):
        return False
    if len(self) != len(other):
        return False
    for oc in zip(self, other):
        if oc[0] != oc[1]:
            return False
    return True

@ gnome.utilities.orderedcollection.OrderedCollection.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.utilities.orderedcollection.OrderedCollection.update
def update(self, cstruct, refs=None):
    if not isinstance(cstruct, list):
        raise ValueError()
    new_vals = []
    for elem in cstruct:
        if isinstance(elem, dict):
            id_ = elem.get('id', None)
            if id_ is None:
                raise ValueError()
            if id_ in self._d_index:
                obj = self.get(id_)
                obj.update(elem)
            else:
                raise ValueError()
            new_vals.append(obj)
        elif isinstance(elem, self.dtype):
            new_vals.append(elem)
        else:
            raise ValueError()
    self.clear()
    self.add(new_vals)
    return self

@ gnome.utilities.orderedcollection.OrderedCollection.to_dict
def to_dict(self):
    items = []
    for obj in self:
        try:
            obj_type = f'{obj.__module__}.{obj.__class__.__name__}'
        except AttributeError:
            obj_type = '{0.__class__.__name__}'.format(obj)
        item = {'obj_type': obj_type, 'id': self._s_id(obj)}
        items.append(item)
    return items

@ gnome.utilities.orderedcollection.OrderedCollection.register_callback
def register_callback(self, callback, events=('add', 'replace', 'remove')):
    if not isinstance(events, (list, tuple)):
        events = (events,)
    for event in events:
        if event not in ('add', 'remove', 'replace'):
            raise ValueError()
    self.callbacks.append((callback, events))

@ gnome.utilities.orderedcollection.OrderedCollection.fire_event
def fire_event(self, event, obj_):
    for callback, reg_event in self.callbacks:
        if event in reg_event:
            callback(obj_)

@ gnome.utilities.orderedcollection.OrderedCollection.clear
def clear(self):
    del self._elems[:]
    self._d_index.clear()

@ gnome.utilities.orderedcollection.OrderedCollection.values
def values(self):
    return [item for item in self._elems if item is not None]

