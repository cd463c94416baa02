## R1 every weathering and clean-up process removes, tallies and stores exactly the stated mass
@ gnome.weatherers.core.HalfLifeWeatherer.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active:
        return
    if sc.num_released == 0:
        return
    for _, data in sc.itersubstancedata(self.array_types):
        hl = self._halflife(data['mass_components'], self.half_lives, time_step)
        data['mass_components'][:] = hl
        data['mass'][:] = data['mass_components'].sum(1)
    sc.update_from_fatedataview()

@ gnome.weatherers.core.Weatherer._halflife
def _halflife(self, M_0, factors, time):
    half = np.float64(0.5)
    total_mass = M_0 * half ** (time / factors)
    return total_mass

@ gnome.weatherers.core.Weatherer._exp_decay
def _exp_decay(self, M_0, lambda_, time):
    mass_remain = M_0 * np.exp(lambda_ * time)
    return mass_remain

@ gnome.weatherers.cleanup.RemoveMass._get_mass
def _get_mass(self, substance, amount, units):
    if units in self.valid_mass_units:
        rm_mass = uc.convert('Mass', units, 'kg', amount)
    else:
        rm_vol = uc.convert('Volume', units, 'm^3', amount)
        rm_mass = substance.standard_density * rm_vol
    return rm_mass

@ gnome.weatherers.cleanup.CleanUpBase._update_LE_status_codes
def _update_LE_status_codes(self, sc, new_status, substance, mass_to_remove, oilwater_mix=True):
    arrays = {'fate_status', 'mass', 'frac_water'}
    for substance, data in sc.itersubstancedata(arrays, fate_status='surface_weather'):
        curr_mass = data['mass']
        if oilwater_mix:
            curr_mass = curr_mass / (1 - data['frac_water'])
        if mass_to_remove >= curr_mass.sum():
            data['fate_status'][:] = new_status
        else:
            ix = np.where(np.cumsum(curr_mass) >= mass_to_remove)[0][0]
            data['fate_status'][:ix + 1] = new_status
    sc.update_from_fatedataview(fate_status='surface_weather')

@ gnome.weatherers.cleanup.CleanUpBase._avg_frac_oil
def _avg_frac_oil(self, data):
    if data['mass'].sum() > 0:
        avg_frac_water = (data['mass'] * data['frac_water']).sum() / data['mass'].sum()
    else:
        avg_frac_water = 0
    return 1 - avg_frac_water

@ getter gnome.weatherers.cleanup.CleanUpBase.efficiency
def efficiency(self):
    return self._efficiency

@ setter gnome.weatherers.cleanup.CleanUpBase.efficiency
def efficiency(self, value):
    if value is None:
        self._efficiency = value
    else:
        valid = np.logical_and(value >= 0, value <= 1)
        self._efficiency = np.where(valid, value, self._efficiency).astype('float')

@ gnome.weatherers.cleanup.Skimmer.prepare_for_model_run
def prepare_for_model_run(self, sc):
    self._rate = self.amount / (self.active_range[1] - self.active_range[0]).total_seconds()
    if self.on:
        sc.mass_balance['skimmed'] = 0.0

@ gnome.weatherers.cleanup.Skimmer._mass_to_remove
def _mass_to_remove(self, substance):
    amount = self._rate * self._timestep
    rm_mass = self._get_mass(substance, amount, self.units)
    return rm_mass

@ gnome.weatherers.cleanup.Skimmer.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or len(sc) == 0 or (not sc.substance.is_weatherable):
        return
    self._set__timestep(time_step, model_time)
    for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
        if len(data['mass']) == 0:
            return
        rm_amount = self._rate * self._avg_frac_oil(data) * self._timestep
        rm_mass = self._get_mass(substance, rm_amount, self.units) * self.efficiency
        total_mass = data['mass'].sum()
        rm_mass_frac = min(rm_mass / total_mass, 1.0)
        rm_mass = rm_mass_frac * total_mass
        data['mass_components'] = (1 - rm_mass_frac) * data['mass_components']
        data['mass'] = data['mass_components'].sum(1)
        sc.mass_balance['skimmed'] += rm_mass
    sc.update_from_fatedataview(fate_status='skim')

@ getter gnome.weatherers.cleanup.Skimmer.units
def units(self):
    return self._units

@ setter gnome.weatherers.cleanup.Skimmer.units
def units(self, value):
    if self._validunits(value):
        self._units = value

@ gnome.weatherers.cleanup.Burn.prepare_for_model_run
def prepare_for_model_run(self, sc):
    self._init_rate_duration()
    if self.on:
        sc.mass_balance['burned'] = 0.0

@ gnome.weatherers.cleanup.Burn._init_rate_duration
def _init_rate_duration(self, avg_frac_oil=1):
    _si_area = uc.convert('Area', self.area_units, 'm^2', self.area)
    self._oilwater_thick_burnrate = self._burn_constant * avg_frac_oil
    self._oil_vol_burnrate = self._burn_constant * avg_frac_oil ** 2 * _si_area
    self._oilwater_thickness = uc.convert('Length', self.thickness_units, 'm', self.thickness)
    burn_duration = (self._oilwater_thickness - self._min_thickness) / self._oilwater_thick_burnrate
    self._active_range = (self.active_range[0], self.active_range[0] + timedelta(seconds=burn_duration))

@ gnome.weatherers.cleanup.Burn._set_burn_params
def _set_burn_params(self, sc, substance):
    data = sc.substancefatedata(substance, {'mass', 'frac_water'}, 'burn')
    avg_frac_oil = self._avg_frac_oil(data)
    self._init_rate_duration(avg_frac_oil)

@ gnome.weatherers.cleanup.Burn._set_efficiency
def _set_efficiency(self, points, model_time):
    if self.efficiency is None and self.wind is None:
        self.efficiency = 1.0
    if self.efficiency is None:
        ws = self.wind.get_value(points, model_time)
        self.efficiency = np.where(ws > 1.0 / 0.07, 0, 1 - 0.07 * ws)

@ gnome.weatherers.cleanup.Burn.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or len(sc) == 0 or (not sc.substance.is_weatherable):
        return
    self._set__timestep(time_step, model_time)
    for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
        if len(data['mass']) == 0:
            return
        points = sc['positions']
        self._set_efficiency(points, model_time)
        vol_oil_burned = self._oil_vol_burnrate * self.efficiency * self._timestep
        burn_mass = data['mass'].sum()
        rm_mass = self._get_mass(substance, vol_oil_burned, 'm^3')
        if rm_mass > burn_mass:
            rm_mass = burn_mass
        rm_mass_frac = rm_mass / burn_mass
        mc = data['mass_components'] * (1 - rm_mass_frac)
        data['mass_components'] = mc
        data['mass'] = mc.sum(1)
        sc.mass_balance['burned'] += rm_mass
    sc.update_from_fatedataview(fate_status='burn')

@ gnome.weatherers.cleanup.ChemicalDispersion.prepare_for_model_run
def prepare_for_model_run(self, sc):
    self._rate = None
    if self.on:
        sc.mass_balance['chem_dispersed'] = 0.0

@ gnome.weatherers.cleanup.ChemicalDispersion._set_efficiency
def _set_efficiency(self, points, model_time):
    if self.efficiency is None:
        w = 0.3 * self.waves.get_value(points, model_time)[0]
        efficiency = 0.241 + 0.587 * w - 0.191 * w ** 2 + 0.02616 * w ** 3 - 0.0016 * w ** 4 - 3.7e-05 * w ** 5
        np.clip(efficiency, 0, None)
        self.efficiency = efficiency

@ gnome.weatherers.cleanup.ChemicalDispersion.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or len(sc) == 0 or (not sc.substance.is_weatherable):
        return
    self._set__timestep(time_step, model_time)
    for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
        if len(data['mass']) == 0:
            continue
        points = sc['positions']
        self._set_efficiency(points, model_time)
        rm_mass = self._rate * self._timestep
        total_mass = data['mass'].sum()
        rm_mass_frac = min(rm_mass / total_mass, 1.0)
        rm_mass = rm_mass_frac * total_mass
        data['mass_components'] = (1 - rm_mass_frac) * data['mass_components']
        data['mass'] = data['mass_components'].sum(1)
        sc.mass_balance['chem_dispersed'] += rm_mass
    sc.update_from_fatedataview(fate_status='disperse')

@ gnome.weatherers.evaporation.Evaporation.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        super(Evaporation, self).prepare_for_model_run(sc)
        sc.mass_balance['evaporated'] = 0.0
        msg = "{0._pid} init 'evaporated' key to 0.0".format(self)

@ gnome.weatherers.evaporation.Evaporation.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or sc.num_released == 0 or (not sc.substance.is_weatherable):
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['mass']) == 0:
            continue
        points = data['positions']
        self._set_evap_decay_constant(points, model_time, data, substance, time_step)
        mass_remain = self._exp_decay(data['mass_components'], data['evap_decay_constant'], time_step)
        sc.mass_balance['evaporated'] += np.sum(data['mass_components'][:, :] - mass_remain[:, :])
        data['frac_evap'][:] += (data['mass_components'][:, :] - mass_remain[:, :]).sum(1) / data['init_mass']
        data['mass_components'][:] = mass_remain
        data['mass'][:] = data['mass_components'].sum(1)
        data['frac_lost'][:] = 1 - data['mass'] / data['init_mass']
    sc.update_from_fatedataview()

@ gnome.weatherers.natural_dispersion.NaturalDispersion.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        super(NaturalDispersion, self).prepare_for_model_run(sc)
        sc.mass_balance['natural_dispersion'] = 0.0
        sc.mass_balance['sedimentation'] = 0.0

@ gnome.weatherers.natural_dispersion.NaturalDispersion.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active:
        return
    if sc.num_released == 0:
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['mass']) == 0:
            continue
        points = data['positions']
        waves_values = self.waves.get_value(points, model_time)
        wave_height = waves_values[0]
        frac_breaking_waves = waves_values[2]
        disp_wave_energy = waves_values[3]
        visc_w = self.waves.water.kinematic_viscosity
        rho_w = self.waves.water.density
        sediment = self.waves.water.get('sediment', unit='kg/m^3')
        V_entrain = constants.volume_entrained
        ka = constants.ka
        disp = np.zeros(len(data['mass']), dtype=np.float64)
        sed = np.zeros(len(data['mass']), dtype=np.float64)
        droplet_avg_size = data['droplet_avg_size']
        if self.algorithm == 'D&S1988':
            dis_fun = self.disperse_oil_DS
        elif self.algorithm == 'Li2017':
            dis_fun = self.disperse_oil_Li
        else:
            raise ValueError()
        disp, droplet_avg_size, sed = dis_fun(time_step, data['frac_water'], data['mass'], data['viscosity'], data['density'], data['area'], disp, sed, droplet_avg_size, frac_breaking_waves, disp_wave_energy, wave_height, visc_w, rho_w, sediment, V_entrain, ka)
        sc.mass_balance['natural_dispersion'] += np.sum(disp[:])
        if data['mass'].sum() > 0:
            disp_mass_frac = np.sum(disp[:]) / data['mass'].sum()
            if disp_mass_frac > 1:
                disp_mass_frac = 1
        else:
            disp_mass_frac = 0
        data['mass_components'] = (1 - disp_mass_frac) * data['mass_components']
        data['mass'] = data['mass_components'].sum(1)
        sc.mass_balance['sedimentation'] += np.sum(sed[:])
        if data['mass'].sum() > 0:
            sed_mass_frac = np.sum(sed[:]) / data['mass'].sum()
            if sed_mass_frac > 1:
                sed_mass_frac = 1
        else:
            sed_mass_frac = 0
        data['mass_components'] = (1 - sed_mass_frac) * data['mass_components']
        data['mass'] = data['mass_components'].sum(1)
    sc.update_from_fatedataview()

@ gnome.weatherers.dissolution.Dissolution.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        super(Dissolution, self).prepare_for_model_run(sc)
        sc.mass_balance['dissolution'] = 0.0

@ gnome.weatherers.dissolution.Dissolution.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or sc.num_released == 0 or (not sc.substance.is_weatherable):
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['mass']) == 0:
            return
        diss = self.dissolve_oil(model_time=model_time, time_step=time_step, data=data, substance=substance)
        data['mass_components'] -= diss
        sc.mass_balance['dissolution'] += diss.sum()
        data['mass'] = data['mass_components'].sum(1)
    sc.update_from_fatedataview()

@ gnome.weatherers.bio_degradation.Biodegradation.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        super(Biodegradation, self).prepare_for_model_run(sc)
        sc.mass_balance['bio_degradation'] = 0.0
        self.prev_yield_factor = 0.0

@ gnome.weatherers.bio_degradation.Biodegradation.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active:
        return
    if sc.num_released == 0:
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['mass']) == 0:
            continue
        if not hasattr(substance, 'boiling_point'):
            raise ValueError()
        K_comp_rates = np.asarray([self.get_K_comp_rates(tbp) for tbp in zip(substance.sara_type, substance.boiling_point)])
        K_comp_rates = K_comp_rates / (60 * 60 * 24) * time_step
        self.previous_yield_factor = data['yield_factor']
        if np.any(data['droplet_avg_size']):
            data['yield_factor'] = 1.0 / (data['droplet_avg_size'] * data['density'])
        else:
            data['yield_factor'] = 0.0
        bio_deg = self.bio_degradate_oil(K_comp_rates, data, data['yield_factor'])
        sc.mass_balance['bio_degradation'] += data['mass'].sum() - bio_deg.sum()
        data['mass_components'] = bio_deg
        data['mass'] = data['mass_components'].sum(1)
    sc.update_from_fatedataview()

@ gnome.weatherers.emulsification.Emulsification.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        super(Emulsification, self).prepare_for_model_run(sc)
        sc.mass_balance['water_content'] = 0.0
        self._bw = 0

@ gnome.weatherers.emulsification.Emulsification.weather_elements_adios2
def weather_elements_adios2(self, sc, time_step, model_time):
    if not self.active or sc.num_released == 0 or (not sc.substance.is_weatherable):
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['age']) == 0:
            return
        points = data['positions']
        k_emul = self._water_uptake_coeff(points, model_time, substance)
        emul_time = substance.bullwinkle_time
        emul_constant = substance.bullwinkle_fraction
        Y_max = substance.get('emulsion_water_fraction_max')
        if Y_max <= 0:
            return
        S_max = 6.0 / constants.drop_min * (Y_max / (1.0 - Y_max))
        emulsify_oil(time_step, data['frac_water'], data['interfacial_area'], data['frac_evap'], data['age'], data['bulltime'], k_emul, emul_time, emul_constant, S_max, Y_max, constants.drop_max)
        if data['mass'].sum() > 0:
            sc.mass_balance['water_content'] = np.sum(data['mass'] / data['mass'].sum() * data['frac_water'])
    sc.update_from_fatedataview()

@ gnome.weatherers.emulsification.Emulsification.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or sc.num_released == 0 or (not sc.substance.is_weatherable):
        return
    use_new_algorithm = False
    self.weather_elements_adios2(sc, time_step, model_time)

@ gnome.weatherers.manual_beaching.Beaching.prepare_for_model_run
def prepare_for_model_run(self, sc):
    if self.on:
        sc.mass_balance['observed_beached'] = 0.0
        self._rate = None

@ gnome.weatherers.manual_beaching.Beaching._remove_mass
def _remove_mass(self, time_step, model_time, substance):
    if self._rate is None:
        dt = np.diff(self._timeseries['time']).astype(np.float64)
        dv = self.timeseries['value']
        try:
            dm = uc.convert('mass', self.units, 'kg', dv)
        except uc.InvalidUnitError:
            volume = uc.convert('volume', self.units, 'm^3', dv)
            dm = volume * substance.standard_density
        except uc.InvalidUnitError:
            raise ValueError()
        self._rate = dm / dt
    t_int = np.where(np.datetime64(model_time) >= self._timeseries['time'])[0][-1]
    time_remain = time_step
    start_time = model_time
    rm_mass = 0.0
    while time_remain > 0:
        dt_for_curr_rate = (self._timeseries['time'][t_int + 1].astype(datetime) - start_time).total_seconds()
        dt = min(time_remain, dt_for_curr_rate)
        rm_mass += self._rate[t_int] * dt
        time_remain -= dt
        t_int += 1
        start_time = self._timeseries['time'][t_int].astype(datetime)
    return rm_mass

@ gnome.weatherers.manual_beaching.Beaching.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or len(sc) == 0:
        return
    self._set__timestep(time_step, model_time)
    if self._timestep == 0:
        return
    start_time = max(model_time, self.active_range[0])
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['mass']) == 0:
            continue
        rm_mass = self._remove_mass(self._timestep, start_time, substance)
        rm_mass_frac = rm_mass / data['mass'].sum()
        if rm_mass_frac > 1.0:
            rm_mass_frac = 1.0
            rm_mass = data['mass'].sum()
            msg = 'Beaching() removing more mass than available at {0}'.format(model_time)
        data['mass_components'] = (1 - rm_mass_frac) * data['mass_components']
        data['mass'] = data['mass_components'].sum(1)
        sc.mass_balance['observed_beached'] += rm_mass
    sc.update_from_fatedataview()


@ func gnome.ops.aggregated_data.aggregate
def aggregate(sc, new_LEs=0):
    if sc['mass'].sum() > 0.0:
        sc.mass_balance['avg_density'] = np.sum(sc['mass'] / sc['mass'].sum() * sc['density'])
        sc.mass_balance['avg_viscosity'] = np.sum(sc['mass'] / sc['mass'].sum() * sc['viscosity'])
    on_surface = (sc['status_codes'] == oil_status.in_water) & (sc['positions'][:, 2] == 0.0)
    sc.mass_balance['floating'] = sc['mass'][on_surface].sum()
    sc.mass_balance['non_weathering'] = sc['mass'][sc['fate_status'] == fate.non_weather].sum()
    if new_LEs > 0:
        amount_released = np.sum(sc['mass'][-new_LEs:])
        if 'amount_released' in sc.mass_balance:
            sc.mass_balance['amount_released'] += amount_released
        else:
            sc.mass_balance['amount_released'] = amount_released

