## R1 oil properties: density and viscosity at a temperature, vapour pressure, components
@ func gnome.spills.gnome_oil.density_at_temp
def density_at_temp(ref_density, ref_temp_k, temp_k, k_rho_t=0.0008):
    return ref_density / (1.0 - k_rho_t * (ref_temp_k - temp_k))

@ func gnome.spills.gnome_oil.vol_expansion_coeff
def vol_expansion_coeff(rho_0, t_0, rho_1, t_1):
    if t_0 == t_1:
        k_rho_t = 0.0
    else:
        k_rho_t = (rho_0 - rho_1) / (rho_0 * (t_1 - t_0))
    return k_rho_t

@ gnome.spills.gnome_oil.Density.__init__
def __init__(self, kg_m_3, ref_temp_k, weathering=0):
    self.kg_m_3 = kg_m_3
    self.ref_temp_k = ref_temp_k
    self.weathering = weathering

@ gnome.spills.gnome_oil.GnomeOil.__init__ | ignore_exc=False
def __init__(self, oil_name=None, filename=None, water=None, **kwargs):
    try:
        super_kwargs = self._init_from_json(**kwargs)
    except TypeError:
        if oil_name is not None:
            if oil_name in _sample_oils:
                oil_dict = _sample_oils[oil_name]
                kwargs.update(oil_dict)
            else:
                raise ValueError()
        elif filename:
            self.from_adiosdb_file(filename, kwargs)
        super_kwargs = self._init_from_json(**kwargs)
    super(GnomeOil, self).__init__(**super_kwargs)
    self.filename = filename
    self.oil_name = oil_name
    self.water = water
    self._set_up_array_types()

@ gnome.spills.gnome_oil.GnomeOil._set_up_array_types
def _set_up_array_types(self):
    self.array_types.update({'density': gat('density'), 'viscosity': gat('viscosity'), 'mass_components': gat('mass_components')})
    self.array_types['mass_components'].shape = (self.num_components,)
    self.array_types['mass_components'].initial_value = (self.mass_fraction,)

@ gnome.spills.gnome_oil.GnomeOil._init_from_json
def _init_from_json(self, *, api, pour_point, solubility, bullwinkle_fraction, original_bullwinkle_fraction=None, bullwinkle_time=None, original_bullwinkle_time=None, emulsion_water_fraction_max, original_emulsion_water_fraction_max=None, densities, density_ref_temps, density_weathering, kvis, kvis_ref_temps, kvis_weathering, mass_fraction, boiling_point, molecular_weight, component_density, sara_type=None, adios_oil_id=None, k0y=None, num_components=None, **kwargs):
    self.num_components = num_components if num_components else len(mass_fraction)
    self.api = api
    self.adios_oil_id = adios_oil_id
    self.densities = densities
    self.density_ref_temps = density_ref_temps
    self.density_weathering = density_weathering
    self.kvis = kvis
    self.kvis_ref_temps = kvis_ref_temps
    self.kvis_weathering = kvis_weathering
    self.bullwinkle_fraction = bullwinkle_fraction
    self.original_bullwinkle_fraction = bullwinkle_fraction if original_bullwinkle_fraction is None else original_bullwinkle_fraction
    self.bullwinkle_time = bullwinkle_time
    if self.bullwinkle_time is None:
        self.bullwinkle_time = -999.0
    self.original_bullwinkle_time = self.bullwinkle_time if original_bullwinkle_time is None else original_bullwinkle_time
    self.emulsion_water_fraction_max = emulsion_water_fraction_max
    self.original_emulsion_water_fraction_max = emulsion_water_fraction_max if original_emulsion_water_fraction_max is None else original_emulsion_water_fraction_max
    self.pour_point = pour_point
    self.solubility = solubility
    self._k_v2 = None
    self._set_pc_values('mass_fraction', mass_fraction)
    self._set_pc_values('molecular_weight', molecular_weight)
    self._set_pc_values('boiling_point', boiling_point)
    self._set_pc_values('component_density', component_density)
    self._k_v2 = None
    self._visc_A = None
    self.k0y = k0y
    return kwargs

@ gnome.spills.gnome_oil.GnomeOil.initialize_elements
def initialize_elements(self, to_rel, arrs, environment=None):
    water = self._pick_water(environment)
    init_viscosity(arrs, to_rel, water=water, aggregate=False)
    sl = slice(-to_rel, None, 1)
    fates = np.logical_and(arrs['positions'][sl, 2] == 0, arrs['status_codes'][sl] == oil_status.in_water)
    if 'fate_status' in arrs:
        arrs['fate_status'][sl] = np.choose(fates, [fate.subsurf_weather, fate.surface_weather])
    arrs['mass_components'][sl] = np.asarray(self.mass_fraction, dtype=np.float64) * arrs['mass'][sl].reshape(len(arrs['mass'][sl]), -1)
    super(GnomeOil, self).initialize_elements(to_rel, arrs, environment=environment)

@ gnome.spills.gnome_oil.GnomeOil._set_pc_values
def _set_pc_values(self, prop, values):
    if len(values) != self.num_components:
        raise ValueError()
    setattr(self, prop, np.array(values, dtype=np.float64))

@ gnome.spills.gnome_oil.GnomeOil.vapor_pressure
def vapor_pressure(self, temp, atmos_pressure=101325.0):
    D_Zb = 0.97
    R_cal = 1.987
    D_S = 8.75 + R_cal * np.log(self.boiling_point)
    C_2i = 0.19 * self.boiling_point - 18
    var = 1.0 / (self.boiling_point - C_2i) - 1.0 / (temp - C_2i)
    ln_Pi_Po = D_S * (self.boiling_point - C_2i) ** 2 / (D_Zb * R_cal * self.boiling_point) * var
    Pi = np.exp(ln_Pi_Po) * atmos_pressure
    return Pi

@ gnome.spills.gnome_oil.GnomeOil.bounding_temperatures
def bounding_temperatures(cls, obj_list, temperature):
    temperature = np.array(temperature).reshape(-1, 1)
    if len(obj_list) <= 1:
        obj_list *= 2
    geq_temps = temperature >= [obj.ref_temp_k for obj in obj_list]
    high_and_oob = np.all(geq_temps, axis=1)
    low_and_oob = np.all(geq_temps ^ True, axis=1)
    rho_idxs0 = np.argmin(geq_temps, axis=1)
    rho_idxs0[rho_idxs0 > 0] -= 1
    rho_idxs0[high_and_oob] = len(obj_list) - 1
    rho_idxs1 = (rho_idxs0 + 1).clip(0, len(obj_list) - 1)
    rho_idxs1[low_and_oob] = 0
    return list(zip([obj_list[i] for i in rho_idxs0], [obj_list[i] for i in rho_idxs1]))

@ gnome.spills.gnome_oil.GnomeOil.get_densities
def get_densities(self):
    densities = [d for d in self.densities]
    density_ref_temps = [d for d in self.density_ref_temps]
    weathering = [d for d in self.density_weathering]
    new_densities = []
    for x in range(0, len(densities)):
        if weathering[x] == 0:
            new_densities.append(Density(kg_m_3=densities[x], ref_temp_k=density_ref_temps[x], weathering=0.0))
    return sorted(new_densities, key=lambda d: d.ref_temp_k)

@ gnome.spills.gnome_oil.GnomeOil.density_at_temp
def density_at_temp(self, temperature=288.15):
    shape = None
    densities = [d for d in self.get_densities() if np.isclose(d.weathering, 0.0)]
    min_temp = np.min([d.ref_temp_k for d in densities] + [self.pour_point])
    if hasattr(temperature, '__iter__'):
        temperature = np.clip(temperature, min_temp, 1000.0)
        shape = temperature.shape
        temperature = temperature.reshape(-1)
    else:
        temperature = min_temp if temperature < min_temp else temperature
    ref_density, ref_temp_k = self._get_reference_densities(densities, temperature)
    k_rho_t = self._vol_expansion_coeff(densities, temperature)
    rho_t = density_at_temp(ref_density, ref_temp_k, temperature, k_rho_t)
    if len(rho_t) == 1:
        return rho_t[0]
    elif shape is not None:
        return rho_t.reshape(shape)
    else:
        return rho_t

@ getter gnome.spills.gnome_oil.GnomeOil.standard_density
def standard_density(self):
    return float(self.density_at_temp(temperature=288.15))

@ gnome.spills.gnome_oil.GnomeOil._get_reference_densities | ignore_exc=False
def _get_reference_densities(self, densities, temperature):
    closest_densities = self.bounding_temperatures(densities, temperature)
    try:
        density_values = np.array([[d.kg_m_3 for d in r] for r in closest_densities])
        ref_temp_values = np.array([[d.ref_temp_k for d in r] for r in closest_densities])
        greater_than = np.all((temperature > ref_temp_values.T).T, axis=1)
        density_values[greater_than, 0] = density_values[greater_than, 1]
        ref_temp_values[greater_than, 0] = ref_temp_values[greater_than, 1]
        return (density_values[:, 0], ref_temp_values[:, 0])
    except TypeError:
        density_values = np.array([d.kg_m_3 for d in closest_densities])
        ref_temp_values = np.array([d.ref_temp_k for d in closest_densities])
        if np.all(temperature > ref_temp_values):
            return (density_values[1], ref_temp_values[1])
        else:
            return (density_values[0], ref_temp_values[0])

@ gnome.spills.gnome_oil.GnomeOil._vol_expansion_coeff
def _vol_expansion_coeff(self, densities, temperature):
    closest_densities = self.bounding_temperatures(densities, temperature)
    temperature = np.array(temperature)
    closest_values = np.array([[(d.kg_m_3, d.ref_temp_k) for d in r] for r in closest_densities])
    args_list = [[t for d in v for t in d] for v in closest_values]
    k_rho_t = np.array([vol_expansion_coeff(*args) for args in args_list])
    greater_than = np.all((temperature > closest_values[:, :, 1].T).T, axis=1)
    less_than = np.all((temperature < closest_values[:, :, 1].T).T, axis=1)
    if self.api > 30:
        k_rho_default = 0.0009
    else:
        k_rho_default = 0.0008
    k_rho_t[greater_than | less_than] = k_rho_default
    if k_rho_t.shape[0] == 1:
        return k_rho_t[0]
    else:
        return k_rho_t

@ gnome.spills.gnome_oil.GnomeOil.closest_to_temperature
def closest_to_temperature(cls, obj_list, temperature, num=1):
    if hasattr(temperature, '__iter__'):
        temperature = np.array(temperature)
    if num >= len(obj_list):
        num = len(obj_list) - 1
    temp_diffs = np.array([abs(obj.ref_temp_k - temperature) for obj in obj_list]).T
    if len(obj_list) <= 1:
        return obj_list
    else:
        try:
            closest_idx = np.argpartition(temp_diffs, num)[:, :num]
        except IndexError:
            closest_idx = np.argpartition(temp_diffs, num)[:num]
        try:
            closest = [sorted([obj_list[i] for i in r], key=lambda x: x.ref_temp_k) for r in closest_idx]
        except TypeError:
            closest = sorted([obj_list[i] for i in closest_idx], key=lambda x: x.ref_temp_k)
        return closest

@ gnome.spills.gnome_oil.GnomeOil.kvis_at_temp
def kvis_at_temp(self, temp_k=288.15, weathering=0.0):
    if weathering != 0.0:
        raise NotImplementedError()
    temp_k = np.asarray(temp_k)
    if self._k_v2 is None or self._visc_A is None:
        self.determine_visc_constants()
    return self._visc_A * np.exp(self._k_v2 / temp_k)

@ gnome.spills.gnome_oil.GnomeOil.determine_visc_constants
def determine_visc_constants(self):
    self._k_v2 = None
    self._visc_A = None
    kvis = [k for k, w in zip(self.kvis, self.kvis_weathering) if w == 0.0]
    kvis_ref_temps = [t for t, w in zip(self.kvis_ref_temps, self.kvis_weathering) if w == 0.0]
    if len(kvis) == 1:
        self._k_v2 = 2100.0
        self._visc_A = kvis[0] * np.exp(-self._k_v2 / kvis_ref_temps[0])
    else:
        b = np.log(kvis)
        A = np.c_[np.ones_like(b), 1.0 / np.array(kvis_ref_temps)]
        x, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
        self._k_v2 = x[1]
        self._visc_A = np.exp(x[0])
    return

@ gnome.spills.gnome_oil.GnomeOil.get
def get(self, prop):
    val = None
    try:
        val = getattr(self, prop)
    except AttributeError:
        try:
            val = getattr(self, prop)
        except Exception:
            pass
    return val

## R2 density and viscosity of elements follow temperature, evaporation and water content
@ func gnome.ops.density.init_density
def init_density(sc, num_released, water=None, substance=None, aggregate=True):
    substance = sc.substance if substance is None else substance
    water_temp = water_density = None
    if water is None:
        water_temp = default_constants.default_water_temperature
        water_density = default_constants.default_water_density
    else:
        water_temp = water.get('temperature', 'K')
        water_density = water.get('density')
    sl = slice(-num_released, None, 1)
    density = substance.density_at_temp(water_temp)
    if density > water_density:
        msg = '{0} will sink at given water temperature: {1:.1f} {2}. Setting density to water density'.format(substance.name, water_temp, 'K')
        sc['density'][sl] = water_density
    else:
        sc['density'][sl] = density
    if aggregate:
        agg_func(sc, num_released)

@ func gnome.ops.density.recalc_density
def recalc_density(sc, water=None, aggregate=True):
    substance = sc.substance
    water_temp = water_rho = None
    if substance.is_weatherable:
        for substance, data in sc.itersubstancedata(sc.array_types, fate_status='all'):
            if len(data['mass']) == 0:
                continue
            if water is None:
                water_temp = default_constants.default_water_temperature
                water_rho = default_constants.default_water_density
            else:
                water_temp = water.get('temperature', 'K')
                water_rho = water.get('density')
            if not substance.is_weatherable or len(data['density']) == 0:
                if aggregate:
                    agg_func(data, 0)
                return
            k_rho = _get_k_rho_weathering_dens_update(substance, water_temp)
            mass_frac = data['mass_components'][:, :substance.num_components] / data['mass'].reshape(len(data['mass']), -1)
            oil_rho = k_rho * (substance.component_density * mass_frac).sum(1)
            new_rho = data['frac_water'] * water_rho + (1 - data['frac_water']) * oil_rho
            if np.any(new_rho > water_rho):
                new_rho[new_rho > water_rho] = water_rho
            data['density'] = new_rho
            data['oil_density'] = oil_rho
    sc.update_from_fatedataview(fate_status='all')
    if aggregate:
        agg_func(sc, 0)

@ func gnome.ops.density._get_k_rho_weathering_dens_update
def _get_k_rho_weathering_dens_update(substance, temp_in_k):
    rho0 = substance.density_at_temp(temp_in_k)
    k_rho = rho0 / (substance.component_density * substance.mass_fraction).sum()
    return k_rho

@ func gnome.ops.viscosity.init_viscosity
def init_viscosity(sc, num_released, water=None, aggregate=True):
    substance = sc.substance
    water_temp = water_density = None
    if substance.is_weatherable:
        if water is None:
            water_temp = default_constants.default_water_temperature
            water_density = default_constants.default_water_density
        else:
            water_temp = water.get('temperature', 'K')
            water_density = water.get('density')
        sl = slice(-num_released, None, 1)
        sc['viscosity'][sl] = substance.kvis_at_temp(water_temp)
    if aggregate:
        agg_func(sc, num_released)

@ func gnome.ops.viscosity.recalc_viscosity
def recalc_viscosity(sc, water=None, aggregate=True):
    substance = sc.substance
    water_temp = water_rho = None
    if substance.is_weatherable:
        if water is None:
            water_temp = default_constants.default_water_temperature
            water_rho = default_constants.default_water_density
        else:
            water_temp = water.get('temperature', 'K')
            water_rho = water.get('density')
        if not substance.is_weatherable or len(sc['density']) == 0:
            if aggregate:
                agg_func(sc, 0)
            return
        v0 = substance.kvis_at_temp(water_temp)
        if v0 is not None:
            kv1 = _get_kv1_weathering_visc_update(v0, default_constants.visc_curvfit_param)
            fw_d_fref = sc['frac_water'] / default_constants.visc_f_ref
            sc['viscosity'] = v0 * np.exp(kv1 * sc['frac_evap']) * (1 + fw_d_fref / (1.187 - fw_d_fref)) ** 2.49
            sc['oil_viscosity'] = v0 * np.exp(kv1 * sc['frac_evap'])
    if aggregate:
        agg_func(sc, 0)

@ func gnome.ops.viscosity._get_kv1_weathering_visc_update
def _get_kv1_weathering_visc_update(v0, visc_curvfit_param):
    kv1 = np.sqrt(v0) * visc_curvfit_param
    if kv1 < 1:
        kv1 = 1
    elif kv1 > 10:
        kv1 = 10
    return kv1

@ const gnome.ops.default_constants.default_salinity
1.1

@ const gnome.ops.default_constants.default_water_density
1025

@ const gnome.ops.default_constants.default_water_temperature
288.15

@ const gnome.ops.default_constants.minimum_wind
0.01

@ const gnome.ops.default_constants.visc_curvfit_param
1500.0

@ const gnome.ops.default_constants.visc_f_ref
0.84

@ const gnome.ops.weathering_array_types
{'fate_status': gat('fate_status'), 'positions': gat('positions'), 'status_codes': gat('status_codes'), 'density': gat('density'), 'viscosity': gat('viscosity'), 'mass_components': gat('mass_components'), 'mass': gat('mass'), 'oil_density': gat('oil_density'), 'oil_viscosity': gat('oil_viscosity'), 'init_mass': gat('init_mass'), 'frac_water': gat('frac_water'), 'frac_lost': gat('frac_lost'), 'frac_evap': gat('frac_evap'), 'age': gat('age')}

@ const gnome.ops.non_weathering_array_types
{'fate_status': gat('fate_status'), 'positions': gat('positions'), 'status_codes': gat('status_codes'), 'density': gat('density'), 'mass': gat('mass'), 'init_mass': gat('init_mass'), 'age': gat('age')}

