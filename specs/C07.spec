## R1 a process is active in a step exactly when it is on and its active range covers the middle of the step
@ gnome.movers.movers.Process.__init__
def __init__(self, on=True, make_default_refs=True, active_range=(InfDateTime('-inf'), InfDateTime('inf')), _automanaged=True, **kwargs):
    super(Process, self).__init__(**kwargs)
    self.on = on
    self._active = self.on
    self._check_active_startstop(*active_range)
    self._active_range = active_range
    self._automanaged = _automanaged
    self.make_default_refs = make_default_refs

@ gnome.movers.movers.Process._check_active_startstop
def _check_active_startstop(self, active_start, active_stop):
    if isinstance(active_start, datetime) and isinstance(active_stop, (InfTime, MinusInfTime)):
        if active_stop <= active_start:
            raise ValueError()
    elif active_start >= active_stop:
        raise ValueError()
    return True

@ getter gnome.movers.movers.Process.active
def active(self):
    return self._active

@ getter gnome.movers.movers.Process.active_range
def active_range(self):
    return self._active_range

@ setter gnome.movers.movers.Process.active_range
def active_range(self, value):
    self._check_active_startstop(*value)
    self._active_range = value

@ gnome.movers.movers.Process.prepare_for_model_run
def prepare_for_model_run(self):
    pass

@ gnome.movers.movers.Process.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    half_timestep = model_time_datetime + timedelta(seconds=time_step / 2)
    if self.active_range[0] <= half_timestep and self.active_range[1] >= half_timestep and self.on:
        self._active = True
    else:
        self._active = False

@ gnome.movers.movers.Process.model_step_is_done
def model_step_is_done(self, sc=None):
    pass

@ gnome.movers.movers.Process.post_model_run
def post_model_run(self):
    pass

## R2 a clean-up operates for the part of the step its window covers, and not otherwise
@ gnome.weatherers.cleanup.RemoveMass.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    if not self.on:
        self._active = False
        return
    if model_time + timedelta(seconds=time_step) > self.active_range[0] and self.active_range[1] > model_time:
        self._active = True
    else:
        self._active = False
    self._set__timestep(time_step, model_time)

@ gnome.weatherers.cleanup.RemoveMass._set__timestep
def _set__timestep(self, time_step, model_time):
    if not self.active:
        return
    self._timestep = time_step
    dt = timedelta(seconds=time_step)
    if model_time < self.active_range[0]:
        self._timestep = time_step - (self.active_range[0] - model_time).total_seconds()
    if self.active_range[1] < model_time + dt:
        self._timestep -= (model_time + dt - self.active_range[1]).total_seconds()
    self._timestep = max(self._timestep, 0)

@ gnome.weatherers.cleanup.Skimmer.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(Skimmer, self).prepare_for_model_step(sc, time_step, model_time)
    if not self.active:
        return
    if (sc['fate_status'] == bt_fate.skim).sum() == 0:
        substance = sc.substance
        total_mass_removed = self._get_mass(substance, self.amount, self.units) * self.efficiency
        self._update_LE_status_codes(sc, bt_fate.skim | bt_fate.surface_weather, substance, total_mass_removed)

@ gnome.weatherers.cleanup.Burn.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(Burn, self).prepare_for_model_step(sc, time_step, model_time)
    if not self.active:
        return
    if self._oilwater_thickness <= self._min_thickness:
        self._active = False
        return
    if (sc['fate_status'] == bt_fate.burn).sum() == 0:
        substance = sc.substance
        _si_area = uc.convert('Area', self.area_units, 'm^2', self.area)
        _si_thickness = uc.convert('Length', self.thickness_units, 'm', self.thickness)
        mass_to_remove = self.efficiency * self._get_mass(substance, _si_area * _si_thickness, 'm^3')
        self._update_LE_status_codes(sc, bt_fate.burn, substance, mass_to_remove)
        self._set_burn_params(sc, substance)
        self._set__timestep(time_step, model_time)

@ gnome.weatherers.cleanup.ChemicalDispersion.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(ChemicalDispersion, self).prepare_for_model_step(sc, time_step, model_time)
    if not self.active:
        return
    self._set__timestep(time_step, model_time)
    if (sc['fate_status'] == bt_fate.disperse).sum() == 0:
        substance = sc.substance
        mass = 0
        for spill in sc.spills:
            if spill.on:
                mass += spill.get_mass()
        rm_total_mass_si = mass * self.fraction_sprayed * self.efficiency
        self._update_LE_status_codes(sc, bt_fate.disperse, substance, rm_total_mass_si, oilwater_mix=False)
        self._rate = rm_total_mass_si / (self.active_range[1] - self.active_range[0]).total_seconds()

@ gnome.weatherers.core.Weatherer.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        for attr in ('wind', 'water', 'waves'):
            if hasattr(self, attr) and getattr(self, attr) is None:
                msg = attr + ' object not defined for ' + self.__class__.__name__
                raise ReferencedObjectNotSet()

@ gnome.weatherers.core.Weatherer.weather_elements
def weather_elements(self, sc, time_step, model_time):
    pass

@ gnome.weatherers.core.Weatherer.initialize_data
def initialize_data(self, sc, num_released):
    pass

