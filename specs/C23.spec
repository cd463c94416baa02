## R1 evaporation: the decay constants follow from the wind, the area, the composition and the water content of each element
@ gnome.weatherers.evaporation.Evaporation._mass_transport_coeff
def _mass_transport_coeff(self, points, model_time):
    wind_speed = self.get_wind_speed(points, model_time, min_val=1, fill_value=1.0)
    c_evap = 0.0048
    return c_evap * wind_speed ** 0.78

@ gnome.weatherers.evaporation.Evaporation._set_evap_decay_constant
def _set_evap_decay_constant(self, points, model_time, data, substance, time_step):
    K = self._mass_transport_coeff(points, model_time)
    water_temp = self.water.get('temperature', 'K')
    f_diff = 1.0
    if 'frac_water' in data:
        f_diff = 1.0 - data['frac_water']
    vp = substance.vapor_pressure(water_temp)
    mw = substance.molecular_weight / 1000.0
    sum_mi_mw = (data['mass_components'][:, :len(vp)] / mw).sum(axis=1)
    Schmidt_term = 1.380277 * (0.018 / mw) ** (1.0 / 3.0)
    puddle_diameter = 2.0 * np.sqrt(data['area'] / data['vol_frac_le_st']) / np.sqrt(np.pi)
    puddle_diameter = np.clip(puddle_diameter, a_min=1.0, a_max=None)
    puddle_diameter = puddle_diameter ** (-1.0 / 9.0)
    edc = (-data['area'] * f_diff * K * puddle_diameter / (constants.gas_constant * water_temp * sum_mi_mw)).reshape(-1, 1) * vp * Schmidt_term
    data['evap_decay_constant'][:, :len(vp)] = edc
    if np.any(data['evap_decay_constant'] > 0.0):
        raise ValueError()
    if np.any(np.isnan(data['evap_decay_constant'])):
        raise ValueError()

@ gnome.weatherers.evaporation.Evaporation.__init__
def __init__(self, water=None, wind=None, **kwargs):
    self.water = water
    self.wind = wind
    if water is not None and wind is not None:
        make_default_refs = False
    else:
        make_default_refs = True
    super(Evaporation, self).__init__(make_default_refs=make_default_refs, **kwargs)
    self.array_types.update({'positions': gat('positions'), 'area': gat('area'), 'vol_frac_le_st': gat('vol_frac_le_st'), 'evap_decay_constant': gat('evap_decay_constant'), 'frac_water': gat('frac_water'), 'frac_lost': gat('frac_lost'), 'frac_evap': gat('frac_evap'), 'init_mass': gat('init_mass')})

@ gnome.weatherers.core.Weatherer.get_wind_speed
def get_wind_speed(self, points, model_time, min_val=0, coord_sys='r', fill_value=1.0):
    if hasattr(self.wind, 'ice_concentration'):
        retval = self.wind.at(points, model_time, min_val=min_val, coord_sys=coord_sys).reshape(-1)
    else:
        retval = self.wind.at(points, model_time, coord_sys=coord_sys).reshape(-1)
        retval[retval < min_val] = min_val
    if isinstance(retval, np.ma.MaskedArray):
        return retval.filled(fill_value)
    else:
        return retval

@ gnome.weatherers.core.Weatherer.__init__
def __init__(self, **kwargs):
    super(Weatherer, self).__init__(**kwargs)
    self.array_types.update({'mass_components': gat('mass_components'), 'fate_status': gat('fate_status'), 'mass': gat('mass'), 'init_mass': gat('init_mass')})

## R2 natural dispersion and sedimentation: the stated rates, never more than the mass of the element
@ gnome.weatherers.natural_dispersion.NaturalDispersion.__init__
def __init__(self, waves=None, water=None, algorithm='D&S1988', **kwargs):
    self.waves = waves
    self.water = water
    if algorithm not in self._algorithms_opts:
        raise ValueError()
    self.algorithm = algorithm
    super(NaturalDispersion, self).__init__(**kwargs)
    self.array_types.update({'viscosity': gat('viscosity'), 'mass': gat('mass'), 'density': gat('density'), 'positions': gat('positions'), 'area': gat('area'), 'frac_water': gat('frac_water'), 'droplet_avg_size': gat('droplet_avg_size')})

@ gnome.weatherers.natural_dispersion.NaturalDispersion.disperse_oil_Li
def disperse_oil_Li(self, time_step, frac_water, mass, viscosity, density, area, disp_out, sed_out, droplet_avg_size, frac_breaking_waves, disp_wave_energy, wave_height, visc_w, rho_w, sediment, V_entrain, ka):
    sigma_o_w = 0.035
    H0 = wave_height / 0.707
    d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density)))
    dynamic_visc = viscosity * density
    a = 4.604e-10
    b = 1.805
    c = -1.023
    r = 1.791
    p = 0.46
    q = -0.518
    factor = 0.11
    Weber = rho_w * constants.gravity * H0 * d_oil / sigma_o_w
    Ohnesorge = dynamic_visc / np.sqrt(density * sigma_o_w * d_oil)
    Q_oil = a * Weber ** b * Ohnesorge ** c
    s_mask = area > 0
    Vemul = mass[s_mask] / density[s_mask] / (1.0 - frac_water[s_mask])
    thickness = np.zeros_like(area)
    thickness[s_mask] = Vemul / area[s_mask]
    Q_disp = density[s_mask] * thickness[s_mask] * frac_breaking_waves[s_mask] * Q_oil[s_mask] * (1.0 - frac_water[s_mask]) * area[s_mask]
    disp_out[s_mask] = factor * Q_disp * time_step
    droplet_avg_size[s_mask] = d_oil[s_mask] * r * Ohnesorge[s_mask] ** p * Weber[s_mask] ** q
    droplet = 0.613 * thickness
    speed = droplet * droplet * constants.gravity * (1.0 - density / rho_w) / (18.0 * visc_w)
    V_refloat = 0.588 * (np.power(thickness, 1.7) - 5e-08)
    V_refloat[V_refloat < 0.0] = 0.0
    C_disp = disp_wave_energy ** 0.57 * frac_breaking_waves
    C_Roy = 2400.0 * np.exp(-73.682 * np.sqrt(viscosity))
    q_refloat = C_Roy * C_disp * V_refloat * area
    C_oil = q_refloat * time_step / (speed * time_step + 1.5 * wave_height)
    Q_sed = 1.6 * ka * np.sqrt(wave_height * disp_wave_energy * frac_breaking_waves / (rho_w * visc_w)) * C_oil * sediment
    s_mask = np.logical_and(sediment > 0.0, thickness >= 0.0001)
    sed_out[s_mask] = (1.0 - frac_water[s_mask]) * Q_sed[s_mask] * time_step
    s_mask = disp_out + sed_out > mass
    disp_out[s_mask] = disp_out[s_mask] / (disp_out[s_mask] + sed_out[s_mask]) * mass[s_mask]
    sed_out[s_mask] = mass[s_mask] - disp_out[s_mask]
    return (disp_out, droplet_avg_size, sed_out)

@ gnome.weatherers.natural_dispersion.NaturalDispersion.disperse_oil_DS
def disperse_oil_DS(self, time_step, frac_water, mass, viscosity, density, area, disp_out, sed_out, droplet_avg_size, frac_breaking_waves, disp_wave_energy, wave_height, visc_w, rho_w, sediment, V_entrain, ka):
    D_e = disp_wave_energy
    f_bw = frac_breaking_waves
    H_rms = wave_height
    C_disp = D_e ** 0.57 * f_bw
    C_Roy = 2400.0 * np.exp(-73.682 * np.sqrt(viscosity))
    for i, (rho, mass_elem, visc, Y, A) in enumerate(zip(density, mass, viscosity, frac_water, area)):
        if Y >= 1:
            disp_out[i] = 0.0
            sed_out[i] = 0.0
            droplet_avg_size[i] = 0.0
            continue
        if A > 0:
            Vemul = mass_elem / rho / (1.0 - Y)
            thickness = Vemul / A
        else:
            thickness = 0.0
        Q_disp = C_Roy[i] * C_disp[i] * V_entrain * (1.0 - Y) * A
        d_disp_out = Q_disp * time_step
        droplet = 0.613 * thickness
        if sediment > 0.0 and thickness >= 0.0001:
            speed = droplet * droplet * constants.gravity * (1.0 - rho / rho_w) / (18.0 * visc_w)
            V_refloat = 0.588 * (np.power(thickness, 1.7) - 5e-08)
            if V_refloat < 0.0:
                V_refloat = 0.0
            q_refloat = C_Roy[i] * C_disp[i] * V_refloat * A
            C_oil = q_refloat * time_step / (speed * time_step + 1.5 * H_rms[i])
            Q_sed = 1.6 * ka * np.sqrt(H_rms[i] * D_e[i] * f_bw[i] / (rho_w * visc_w)) * C_oil * sediment
            d_sed_out = (1.0 - Y) * Q_sed * time_step
        else:
            d_sed_out = 0.0
        if d_disp_out + d_sed_out > mass_elem:
            ratio = d_disp_out / (d_disp_out + d_sed_out)
            d_disp_out = ratio * mass_elem
            d_sed_out = mass_elem - d_disp_out
        disp_out[i] = d_disp_out
        sed_out[i] = d_sed_out
        droplet_avg_size[i] = droplet
    return (disp_out, droplet_avg_size, sed_out)

@ gnome.weatherers.natural_dispersion.NaturalDispersion.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(NaturalDispersion, self).prepare_for_model_step(sc, time_step, model_time)

@ const gnome.weatherers.natural_dispersion.NaturalDispersion._schema
NaturalDispersionSchema

@ const gnome.weatherers.natural_dispersion.NaturalDispersion._ref_as
'dispersion'

@ const gnome.weatherers.natural_dispersion.NaturalDispersion._req_refs
['waves', 'water']

@ const gnome.weatherers.natural_dispersion.NaturalDispersion._algorithms_opts
{'D&S1988', 'Li2017'}

## R3 spreading: areas follow Fay's law from the blob each element belongs to, up to the limiting thickness, and Langmuir coverage reduces them
@ gnome.weatherers.spreading.FayGravityViscous.__init__
def __init__(self, water=None, thickness_limit=None, **kwargs):
    super(FayGravityViscous, self).__init__(**kwargs)
    self.spreading_const = (1.53, 1.21, 1.45)
    self.water = water
    self.array_types.update({'fay_area': gat('fay_area'), 'area': gat('area'), 'bulk_init_volume': gat('bulk_init_volume'), 'age': gat('age'), 'density': gat('density'), 'frac_coverage': gat('frac_coverage'), 'spill_num': gat('spill_num'), 'max_area_le': gat('max_area_le'), 'release_rate': gat('release_rate'), 'vol_frac_le_st': gat('vol_frac_le_st')})
    self._init_relative_buoyancy = None
    self.thickness_limit = thickness_limit
    self.use_langmuir_correction = True

@ gnome.weatherers.spreading.FayGravityViscous._gravity_spreading_t0
def _gravity_spreading_t0(water_viscosity, relative_buoyancy, blob_init_vol, spreading_const):
    t0 = (spreading_const[1] / spreading_const[0]) ** 4.0 * (blob_init_vol / (water_viscosity * constants.gravity * relative_buoyancy)) ** (1.0 / 3.0)
    return t0

@ gnome.weatherers.spreading.FayGravityViscous._time_to_reach_max_area
def _time_to_reach_max_area(self, water_viscosity, rel_buoy, blob_init_vol):
    max_area = blob_init_vol / self.thickness_limit
    time = (max_area / (PI * self.spreading_const[2] ** 2) * (np.sqrt(water_viscosity) / (blob_init_vol ** 2 * constants.gravity * rel_buoy)) ** (1.0 / 3)) ** 2
    return time

@ gnome.weatherers.spreading.FayGravityViscous.init_area
def init_area(self, water_viscosity, relative_buoyancy, blob_init_vol):
    a0 = PI * (self.spreading_const[1] ** 4 / self.spreading_const[0] ** 2) * (blob_init_vol ** 5 * gravity * relative_buoyancy / water_viscosity ** 2) ** (1.0 / 6.0)
    max_area = blob_init_vol / self.thickness_limit
    a0 = min(a0, max_area)
    if a0 == max_area:
        msg = 'max_area is achieved during init_area()'
    return a0

@ gnome.weatherers.spreading.FayGravityViscous.update_area
def update_area(self, water_viscosity, relative_buoyancy, blob_init_vol, area, max_area_le, time_step, vol_frac_le_st, age):
    if np.any(age == 0):
        msg = 'use init_area for age == 0'
        raise ValueError()
    t0 = self._gravity_spreading_t0(water_viscosity, relative_buoyancy, blob_init_vol[0], self.spreading_const)
    mask = np.logical_and(age > t0, area < max_area_le)
    s_mask = np.logical_and(mask, area > 0.0)
    if len(area[s_mask]) > 0:
        C = PI * self.spreading_const[2] ** 2 * (blob_init_vol[s_mask] ** 2 * constants.gravity * relative_buoyancy / np.sqrt(water_viscosity)) ** (1.0 / 3.0)
        K = 4 * PI * 2 * 0.033
        blob_area_fgv = 0.5 * (C ** 2 / (area[s_mask] / vol_frac_le_st[s_mask])) * time_step
        blob_area_diffusion = 7.0 / 6.0 * K * (area[s_mask] / vol_frac_le_st[s_mask] / K) ** (1.0 / 7.0) * time_step
        new_le_area = area[s_mask] + vol_frac_le_st[s_mask] * (blob_area_fgv + blob_area_diffusion)
        area[s_mask] = np.minimum(new_le_area, max_area_le[s_mask])
    return area

@ gnome.weatherers.spreading.FayGravityViscous.get_thickness_limit
def get_thickness_limit(vo):
    if vo >= 0.0001:
        thickness_limit = 0.0001
    elif 0.0001 > vo and vo >= 1e-06:
        thickness_limit = 1e-05 + 0.9091 * (vo - 1e-06)
    elif vo < 1e-06:
        thickness_limit = 1e-05
    return thickness_limit

@ gnome.weatherers.spreading.FayGravityViscous._set_thickness_limit
def _set_thickness_limit(self, vo):
    self.thickness_limit = self.get_thickness_limit(vo)

@ gnome.weatherers.spreading.FayGravityViscous.prepare_for_model_run
def prepare_for_model_run(self, sc):
    subs = sc.get_substances(False)
    if len(subs) > 0 and subs[0].is_weatherable:
        if self.water is None:
            vo = subs[0].kvis_at_temp(default_constants.default_water_temperature)
        else:
            vo = subs[0].kvis_at_temp(self.water.get('temperature'))
        self._set_thickness_limit(vo)
    self._init_relative_buoyancy = None

@ gnome.weatherers.spreading.FayGravityViscous._set_init_relative_buoyancy
def _set_init_relative_buoyancy(self, substance):
    if self.water is None:
        rho_h2o = default_constants.default_water_density
        rho_oil = substance.standard_density
    else:
        rho_h2o = self.water.get('density')
        rho_oil = substance.standard_density
    if np.any(rho_h2o < rho_oil):
        msg = 'Found particles with relative_buoyancy < 0. Oil is a sinker'
        raise GnomeRuntimeError()
    self._init_relative_buoyancy = (rho_h2o - rho_oil) / rho_h2o

@ gnome.weatherers.spreading.FayGravityViscous.initialize_data
def initialize_data(self, sc, num_released):
    if not self.on or not sc.substance.is_weatherable:
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if self._init_relative_buoyancy is None:
            self._set_init_relative_buoyancy(substance)
        if len(data['fay_area']) == 0:
            continue
    sc.update_from_fatedataview()

@ gnome.weatherers.spreading.FayGravityViscous.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or not sc.substance.is_weatherable:
        return
    for substance, data in sc.itersubstancedata(self.array_types):
        if len(data['fay_area']) == 0:
            continue
        for s_num in np.unique(data['spill_num']):
            s_mask = data['spill_num'] == s_num
            data['max_area_le'][s_mask] = data['init_mass'][s_mask] / data['density'][s_mask] / self.thickness_limit
            data['fay_area'][s_mask] = self.update_area(water_kvis, self._init_relative_buoyancy, data['bulk_init_volume'][s_mask], data['fay_area'][s_mask], data['max_area_le'][s_mask], time_step, data['vol_frac_le_st'][s_mask], data['age'][s_mask] + time_step)
            data['area'][s_mask] = data['fay_area'][s_mask]
    sc.update_from_fatedataview()

@ gnome.weatherers.spreading.ConstantArea.__init__
def __init__(self, area, **kwargs):
    self.area = area
    super(ConstantArea, self).__init__(**kwargs)
    self.array_types.update({'area': gat('area'), 'fay_area': gat('fay_area')})

@ gnome.weatherers.spreading.ConstantArea.initialize_data
def initialize_data(self, sc, num_released):
    if not self.on:
        return
    for _, data in sc.itersubstancedata(self.array_types):
        if len(data['fay_area']) == 0:
            continue
        mask = data['fay_area'] == 0
        data['fay_area'][mask] = self.area
        data['area'][mask] = self.area
    sc.update_from_fatedataview()

@ gnome.weatherers.spreading.ConstantArea.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active:
        return
    for _, data in sc.itersubstancedata(self.array_types):
        if len(data['fay_area']) == 0:
            continue
        data['fay_area'][:] = self.area
        data['area'][:] = self.area
    sc.update_from_fatedataview()

@ gnome.weatherers.spreading.Langmuir.__init__
def __init__(self, water=None, wind=None, **kwargs):
    self.wind = wind
    self.water = water
    super(Langmuir, self).__init__(**kwargs)
    self.array_types.update({'fay_area': gat('fay_area'), 'area': gat('area'), 'bulk_init_volume': gat('bulk_init_volume'), 'age': gat('age'), 'positions': gat('positions'), 'spill_num': gat('spill_num'), 'frac_coverage': gat('frac_coverage'), 'density': gat('density')})

@ gnome.weatherers.spreading.Langmuir._get_frac_coverage
def _get_frac_coverage(self, points, model_time, rel_buoy, thickness):
    v_max = np.max(self.get_wind_speed(points, model_time) * 0.005)
    with np.errstate(divide='ignore'):
        frac_cov = (v_max ** 2 * PISQUARED / (4 * thickness * rel_buoy * gravity)) ** (-0.3333333333333333)
    frac_cov[np.isnan(frac_cov)] = 0.1
    np.clip(frac_cov, 0.1, 1.0, out=frac_cov)
    return frac_cov

@ gnome.weatherers.spreading.Langmuir._wind_speed_bound
def _wind_speed_bound(self, rel_buoy, thickness):
    v_min = np.sqrt(4.0 * thickness * rel_buoy * gravity / PISQUARED) / 0.005
    v_max = np.sqrt((1.0 / 0.1) ** 3 * 4 * thickness * rel_buoy * gravity / PISQUARED) / 0.005
    return (v_min, v_max)

@ gnome.weatherers.spreading.Langmuir.weather_elements
def weather_elements(self, sc, time_step, model_time):
    if not self.active or sc.num_released == 0:
        return
    rho_h2o = self.water.get('density', 'kg/m^3')
    for _, data in sc.itersubstancedata(self.array_types):
        if len(data['fay_area']) == 0:
            continue
        points = data['positions']
        for s_num in np.unique(data['spill_num']):
            s_mask = data['spill_num'] == s_num
            with np.errstate(divide='ignore'):
                thickness = data['bulk_init_volume'][s_mask][0] / data['fay_area'][s_mask].sum()
            rel_buoy = (rho_h2o - data['density'][s_mask]) / rho_h2o
            data['frac_coverage'][s_mask] = self._get_frac_coverage(points, model_time, rel_buoy, thickness)
        data['area'][:] = data['fay_area'] * data['frac_coverage']
    sc.update_from_fatedataview()

@ const gnome.weatherers.spreading.PI
np.pi

@ const gnome.weatherers.spreading.PISQUARED
np.pi ** 2

@ const gnome.weatherers.spreading.FayGravityViscousSchema.thickness_limit
SchemaNode(Float(), missing=drop, save=True, update=True)

@ const gnome.weatherers.spreading.FayGravityViscousSchema.water
WaterSchema(save=True, update=True)

@ const gnome.weatherers.spreading.FayGravityViscous._schema
FayGravityViscousSchema

@ const gnome.weatherers.spreading.FayGravityViscous._ref_as
'spreading'

@ const gnome.weatherers.spreading.FayGravityViscous._req_refs
['water']

@ const gnome.weatherers.spreading.ConstantArea._ref_as
'spreading'

@ const gnome.weatherers.spreading.LangmuirSchema.wind
GeneralGnomeObjectSchema(acceptable_schemas=[WindSchema, VectorVariableSchema], save=True, update=True, save_reference=True)

@ const gnome.weatherers.spreading.LangmuirSchema.water
WaterSchema(save=True, update=True, save_reference=True)

@ const gnome.weatherers.spreading.Langmuir._schema
LangmuirSchema

@ const gnome.weatherers.spreading.Langmuir._ref_as
'langmuir'

@ const gnome.weatherers.spreading.Langmuir._req_refs
['water', 'wind']

## R4 emulsification: water is taken up at the rate set by wind and oil
@ gnome.weatherers.emulsification.Emulsification.__init__
def __init__(self, waves=None, **kwargs):
    self.waves = waves
    self._bw = 0
    if waves is not None:
        kwargs['make_default_refs'] = kwargs.pop('make_default_refs', False)
    super(Emulsification, self).__init__(**kwargs)
    self.array_types.update({'age': gat('age'), 'bulltime': gat('bulltime'), 'frac_water': gat('frac_water'), 'density': gat('density'), 'viscosity': gat('viscosity'), 'positions': gat('positions'), 'oil_density': gat('oil_density'), 'oil_viscosity': gat('oil_viscosity'), 'mass': gat('mass'), 'interfacial_area': gat('interfacial_area'), 'frac_evap': gat('frac_evap')})

@ gnome.weatherers.emulsification.Emulsification._water_uptake_coeff
def _water_uptake_coeff(self, points, model_time, substance):
    wind_speed = self.waves.get_emulsification_wind(points, model_time).reshape(-1)
    K0Y = 2.02e-06
    k_emul = 6.0 * K0Y * wind_speed * wind_speed / constants.drop_max
    return k_emul

@ gnome.weatherers.emulsification.Emulsification.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(Emulsification, self).prepare_for_model_step(sc, time_step, model_time)
    if not self.active:
        return

@ gnome.weatherers.emulsification.Emulsification._H_log
def _H_log(self, k, x):
    H_log = 1 / (1 + np.exp(-1 * k * x))
    return H_log

@ gnome.weatherers.emulsification.Emulsification._H_4
def _H_4(self, k, x):
    H_4 = 1 / (1 + x ** (2 * k))
    return H_4

## R5 dissolution: the dissolved mass follows from droplet and slick transfer rates and never exceeds what is there
@ gnome.weatherers.dissolution.Dissolution.__init__
def __init__(self, waves=None, wind=None, **kwargs):
    self.waves = waves
    self.wind = wind
    if waves is not None and wind is not None:
        make_default_refs = False
    else:
        make_default_refs = True
    super(Dissolution, self).__init__(make_default_refs=make_default_refs, **kwargs)
    self.array_types.update({'area': gat('area'), 'mass': gat('mass'), 'density': gat('density'), 'positions': gat('positions'), 'viscosity': gat('viscosity'), 'partition_coeff': gat('partition_coeff'), 'droplet_avg_size': gat('droplet_avg_size')})

@ gnome.weatherers.dissolution.Dissolution.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time):
    super(Dissolution, self).prepare_for_model_step(sc, time_step, model_time)
    if not self.active:
        return

@ gnome.weatherers.dissolution.Dissolution.initialize_data
def initialize_data(self, sc, num_released):
    if not self.on:
        return
    self._initialize_k_ow(sc, num_released)

@ gnome.weatherers.dissolution.Dissolution._initialize_k_ow
def _initialize_k_ow(self, sc, num_released):
    pass

@ gnome.weatherers.dissolution.Dissolution.dissolve_oil
def dissolve_oil(self, data, substance, **kwargs):
    model_time = kwargs.get('model_time')
    time_step = kwargs.get('time_step')
    fmasses = data['mass_components']
    droplet_avg_sizes = data['droplet_avg_size']
    areas = data['area']
    points = data['positions']
    sara = np.asarray(substance.sara_type)
    arom_mask = sara == 'Aromatics'
    mol_wt = substance.molecular_weight
    rho = substance.component_density
    assert mol_wt.shape == rho.shape
    K_ow_comp = arom_mask * BanerjeeHuibers.partition_coeff(mol_wt, rho)
    data['partition_coeff'] = (fmasses * K_ow_comp / mol_wt).sum(axis=1) / (fmasses / mol_wt).sum(axis=1)
    avg_rhos = self.oil_avg_density(fmasses, rho)
    water_rhos = np.zeros(avg_rhos.shape) + self.waves.water.get('density')
    k_w_i = Stokes.water_phase_xfer_velocity(water_rhos - avg_rhos, droplet_avg_sizes)
    k_diffusion = 0.134
    total_volumes = self.oil_total_volume(fmasses, rho)
    f_wc_i = self.water_column_time_fraction(points, model_time, k_w_i)
    T_wc_i = f_wc_i * time_step
    T_calm_i = self.calm_between_wave_breaks(points, model_time, time_step, T_wc_i)
    assert np.all(T_calm_i <= float(time_step))
    assert np.all(T_wc_i <= float(time_step))
    assert np.all(T_wc_i + T_calm_i <= float(time_step))
    oil_concentrations = self.oil_concentration(fmasses, rho)
    N_drop_i = self.droplet_subsurface_mass_xfer_rate(droplet_avg_sizes, k_w_i + k_diffusion, oil_concentrations, K_ow_comp, arom_mask, total_volumes)
    mass_dissolved_in_wc = (N_drop_i.T * T_wc_i).T
    N_s_i = self.slick_subsurface_mass_xfer_rate(points, model_time, oil_concentrations, K_ow_comp, areas, arom_mask)
    mass_dissolved_in_slick = (N_s_i.T * T_calm_i).T
    mass_dissolved_in_wc = np.vstack(mass_dissolved_in_wc)
    mass_dissolved_in_slick = np.vstack(mass_dissolved_in_slick)
    total_mass_dissolved = mass_dissolved_in_wc + mass_dissolved_in_slick
    total_mass_dissolved += np.clip(fmasses - total_mass_dissolved, -np.inf, 0.0)
    return total_mass_dissolved

@ gnome.weatherers.dissolution.Dissolution.oil_avg_density
def oil_avg_density(self, masses, densities):
    assert masses.shape[-1] == densities.shape[-1]
    assert len(densities.shape) == 1
    if len(masses.shape) == 1:
        avg_rho = (masses / masses.sum() * densities).sum()
    else:
        avg_rho = ((masses.T / masses.sum(axis=1).T).T * densities).sum(axis=1)
    return np.nan_to_num(avg_rho)

@ gnome.weatherers.dissolution.Dissolution.oil_total_volume
def oil_total_volume(self, masses, densities):
    assert masses.shape[-1] == densities.shape[-1]
    assert len(densities.shape) == 1
    if len(masses.shape) == 1:
        return (masses / densities).sum()
    else:
        return (masses / densities).sum(axis=1)

@ gnome.weatherers.dissolution.Dissolution.state_variable
def state_variable(self, masses, densities, arom_mask):
    assert masses.shape[-1] == densities.shape[-1]
    assert len(densities.shape) == 1
    assert len(arom_mask.shape) == 1
    not_arom_mask = arom_mask ^ True
    if len(masses.shape) == 1:
        aromatic_volume = (masses / densities * arom_mask).sum()
        S_RA_volume = (masses / densities * not_arom_mask).sum()
        return (aromatic_volume / S_RA_volume, S_RA_volume)
    else:
        aromatic_volume = (masses / densities * arom_mask).sum(axis=1)
        S_RA_volume = (masses / densities * not_arom_mask).sum(axis=1)
        return (aromatic_volume / S_RA_volume, S_RA_volume)

@ gnome.weatherers.dissolution.Dissolution.beta_coeff
def beta_coeff(self, k_w, K_ow, v_inert):
    return 4.84 * k_w / K_ow * v_inert ** (2.0 / 3.0)

@ gnome.weatherers.dissolution.Dissolution.water_column_time_fraction
def water_column_time_fraction(self, points, model_time, water_phase_xfer_velocity):
    wave_height = self.waves.get_value(points, model_time)[0]
    wind_speed = np.clip(self.get_wind_speed(points, model_time), 0.01, None)
    wave_period = PiersonMoskowitz.peak_wave_period(wind_speed)
    f_bw = DelvigneSweeney.breaking_waves_frac(wind_speed, wave_period)
    return DingFarmer.water_column_time_fraction(f_bw, wave_period, wave_height, water_phase_xfer_velocity)

@ gnome.weatherers.dissolution.Dissolution.calm_between_wave_breaks
def calm_between_wave_breaks(self, points, model_time, time_step, time_spent_in_wc=0.0):
    wind_speed = np.clip(self.get_wind_speed(points, model_time), 0.01, None)
    wave_period = PiersonMoskowitz.peak_wave_period(wind_speed)
    f_bw = DelvigneSweeney.breaking_waves_frac(wind_speed, wave_period)
    T_calm = DingFarmer.calm_between_wave_breaks(f_bw, wave_period)
    return np.clip(T_calm, 0.0, float(time_step) - time_spent_in_wc)

@ gnome.weatherers.dissolution.Dissolution.oil_concentration
def oil_concentration(self, masses, densities):
    assert masses.shape[-1] == densities.shape[-1]
    assert len(densities.shape) == 1
    if len(masses.shape) == 1:
        mass_fractions = masses / masses.sum()
        aggregate_rho = (mass_fractions * densities).sum()
        return mass_fractions * aggregate_rho
    else:
        mass_fractions = (masses.T / masses.sum(axis=1)).T
        aggregate_rho = (mass_fractions * densities).sum(axis=1)
        return (mass_fractions.T * aggregate_rho).T

@ gnome.weatherers.dissolution.Dissolution.droplet_subsurface_mass_xfer_rate
def droplet_subsurface_mass_xfer_rate(self, droplet_avg_size, k_w, oil_concentrations, partition_coeffs, arom_mask, total_volumes):
    K_ow = partition_coeffs
    C_dis = oil_concentrations * arom_mask
    N_drop_a = ((C_dis / K_ow).T * (k_w / 3600.0)).T
    A_drop = 4 * np.pi * (droplet_avg_size / 2.0) ** 2.0
    V_drop = 4.0 / 3.0 * np.pi * (droplet_avg_size / 2.0) ** 3.0
    num_droplets = total_volumes / V_drop
    total_surface_area = A_drop * num_droplets
    N_drop = (N_drop_a.T * total_surface_area).T
    return np.nan_to_num(N_drop)

@ gnome.weatherers.dissolution.Dissolution.slick_subsurface_mass_xfer_rate
def slick_subsurface_mass_xfer_rate(self, points, model_time, oil_concentration, partition_coeff, slick_area, arom_mask):
    assert oil_concentration.shape[-1] == partition_coeff.shape[-1]
    assert len(partition_coeff.shape) == 1
    U_10 = np.clip(self.get_wind_speed(points, model_time), 0.01, None).reshape(-1, 1)
    c_oil = oil_concentration
    k_ow = partition_coeff
    if len(c_oil.shape) == 1:
        N_s_a = 0.01 * (U_10 / 3600.0) * (c_oil / k_ow)
        N_s = N_s_a * slick_area
    else:
        N_s_a = 0.01 * (U_10 / 3600.0) * (c_oil / k_ow)
        N_s = (N_s_a.T * slick_area).T
    return np.nan_to_num(N_s * arom_mask)

## R6 biodegradation: component rates by type and boiling point
@ gnome.weatherers.bio_degradation.Biodegradation.__init__
def __init__(self, waves=None, **kwargs):
    if 'arctic' not in kwargs:
        self.arctic = False
    else:
        self.arctic = kwargs.pop('arctic')
    self.waves = waves
    super(Biodegradation, self).__init__(**kwargs)
    self.array_types.update({'mass': gat('mass'), 'mass_components': gat('mass_components'), 'droplet_avg_size': gat('droplet_avg_size'), 'positions': gat('positions'), 'yield_factor': gat('yield_factor')})
    self.prev_yield_factor = None

@ gnome.weatherers.bio_degradation.Biodegradation.bio_degradate_oil
def bio_degradate_oil(self, K, data, yield_factor):
    mass_biodegradated = data['mass_components'] * np.exp(np.outer(self.prev_yield_factor - yield_factor, 6.0 * K))
    return mass_biodegradated

@ gnome.weatherers.bio_degradation.Biodegradation.get_K_comp_rates
def get_K_comp_rates(self, type_and_bp):
    if type_and_bp[0] == 'Saturates':
        if type_and_bp[1] < 722.85:
            return 0.000128807242 if self.arctic else 0.000941386396
        else:
            return 0.0
    elif type_and_bp[0] == 'Aromatics':
        if type_and_bp[1] < 630.0:
            return 0.000126982603 if self.arctic else 0.000575541103
        else:
            return 2.1054707e-05 if self.arctic else 8.4840485e-05
    else:
        return 0.0

@ gnome.weatherers.bio_degradation.Biodegradation.initialize_data
def initialize_data(self, sc, num_released):
    if not self.on:
        return

## R7 the published relations used by the processes
@ gnome.utilities.weathering.adios2.Adios2.wave_height
def wave_height(U, fetch):
    ws = np.where(U < 4.433049525859078, 0.71 * U ** 1.23, U)
    if fetch is None:
        H = 0.243 * ws * ws / g
    else:
        H = np.where(fetch < 2268 * ws ** 2, 0.0016 * np.sqrt(fetch / g) * ws, 0.243 * ws * ws / g)
    Hrms = 0.707 * H
    return np.clip(Hrms, None, 30.0)

@ gnome.utilities.weathering.adios2.Adios2.wind_speed_from_height
def wind_speed_from_height(H):
    U_h = np.sqrt(g * H / 0.243)
    U_h = np.where(U_h < 4.433049525859078, (U_h / 0.71) ** 0.813008, U_h)
    return U_h

@ gnome.utilities.weathering.adios2.Adios2.mean_wave_period
def mean_wave_period(U, wave_height, fetch):
    if wave_height is None:
        ws = U * 0.71 * U ** 1.23
        if fetch is None:
            T = 0.83 * ws
        else:
            T = np.where(fetch >= 2268 * ws ** 2, 0.83 * ws, 0.06238 * (fetch * ws) ** 0.333333333)
    else:
        T = 7.508 * np.sqrt(wave_height)
    return T

@ gnome.utilities.weathering.adios2.Adios2.dissipative_wave_energy
def dissipative_wave_energy(water_density, H):
    return 0.0034 * water_density * g * H ** 2

@ gnome.utilities.weathering.banerjee_huibers.BanerjeeHuibers.partition_coeff
def partition_coeff(cls, mol_wt, density):
    return 1.8 * np.exp(0.059 * 1000.0 * mol_wt / density)

@ gnome.utilities.weathering.delvigne_sweeney.DelvigneSweeney.breaking_waves_frac
def breaking_waves_frac(wind_speed, peak_wave_period):
    F_wc = 0.032 * (wind_speed - 5.0) / peak_wave_period
    return np.clip(F_wc, 0.01, 1.0)

@ gnome.utilities.weathering.ding_farmer.DingFarmer.calm_between_wave_breaks
def calm_between_wave_breaks(cls, breaking_waves_frac, peak_wave_period):
    return (1.0 / breaking_waves_frac - 0.5) * peak_wave_period

@ gnome.utilities.weathering.ding_farmer.DingFarmer.refloat_time
def refloat_time(cls, significant_wave_height, water_phase_xfer_velocity):
    return 0.75 * significant_wave_height / water_phase_xfer_velocity

@ gnome.utilities.weathering.ding_farmer.DingFarmer.water_column_time_fraction
def water_column_time_fraction(cls, breaking_waves_frac, peak_wave_period, significant_wave_height, water_phase_xfer_velocity):
    f_wc = cls.refloat_time(significant_wave_height, water_phase_xfer_velocity) / cls.calm_between_wave_breaks(breaking_waves_frac, peak_wave_period)
    return np.clip(f_wc, 0.0, 1.0)

@ gnome.utilities.weathering.huibers_lehr.HuibersLehr.partition_coeff
def partition_coeff(cls, mol_wt, density):
    S_w = 18.6 * 10 ** (-38 * mol_wt / density)
    K_ow = 10 * (10 * S_w) ** (-0.89)
    return K_ow

@ gnome.utilities.weathering.lee_huibers.LeeHuibers.partition_coeff
def partition_coeff(cls, mol_wt, density):
    return cls.A * density / (np.exp(-0.087 * mol_wt / density) * mol_wt)

@ const gnome.utilities.weathering.lee_huibers.LeeHuibers.A
Toluene.k_ow * np.exp(-0.087 * Toluene.mol_wt / Toluene.density) * Toluene.mol_wt / Toluene.density

@ const gnome.utilities.weathering.lee_huibers.Toluene.mol_wt
92.1

@ const gnome.utilities.weathering.lee_huibers.Toluene.density
866.0

@ const gnome.utilities.weathering.lee_huibers.Toluene.k_ow
1000.0

@ gnome.utilities.weathering.lehr_simecek.LehrSimecek.whitecap_fraction
def whitecap_fraction(U, salinity):
    Tm = Monahan.whitecap_decay_constant(salinity)
    fw = np.where(U < 4.0, 0.0125 * U / Tm, (0.01 * U + 0.01) / Tm)
    fw *= 0.5
    return np.clip(fw, None, 1.0)

@ gnome.utilities.weathering.monahan.Monahan.whitecap_decay_constant
def whitecap_decay_constant(salinity):
    return 0.03742857 * salinity + 2.54

@ gnome.utilities.weathering.overstreet.Overstreet.roys_constant
def roys_constant(cls, emulsion_kvis):
    return 2400.0 * np.exp(-73.682 * np.sqrt(emulsion_kvis))

@ gnome.utilities.weathering.pierson_moskowitz.PiersonMoskowitz.significant_wave_height
def significant_wave_height(cls, wind_speed):
    return wind_speed ** 2.0 * 0.22 / g

@ gnome.utilities.weathering.pierson_moskowitz.PiersonMoskowitz.peak_wave_period
def peak_wave_period(cls, wind_speed):
    return wind_speed * 3.0 / 4.0

@ gnome.utilities.weathering.pierson_moskowitz.PiersonMoskowitz.peak_wave_speed
def peak_wave_speed(cls, wind_speed):
    return wind_speed * 1.17

@ gnome.utilities.weathering.pierson_moskowitz.PiersonMoskowitz.peak_angular_frequency
def peak_angular_frequency(cls, wind_speed):
    return np.where(wind_speed > 0, 0.86 * g / wind_speed, 0.86 * g)

@ gnome.utilities.weathering.riazi.Riazi.mol_wt
def mol_wt(cls, temp):
    return 350.0 * (6.98 - np.log(1070.0 - temp)) ** (3.0 / 2.0)

@ gnome.utilities.weathering.riazi.Riazi.density
def density(cls, temp):
    return 100.0 * temp ** (1.0 / 3.0)

@ gnome.utilities.weathering.riazi.Riazi.molar_volume
def molar_volume(cls, temp):
    return cls.mol_wt(temp) / cls.density(temp)

@ gnome.utilities.weathering.stokes.Stokes.water_phase_xfer_velocity
def water_phase_xfer_velocity(oil_water_rho_delta, diameter):
    return 544.814 * oil_water_rho_delta * diameter ** 2

@ gnome.utilities.weathering.zhao_toba.ZhaoToba.percent_whitecap_coverage
def percent_whitecap_coverage(cls, wind_speed):
    if wind_speed == 0:
        return 0
    if wind_speed > 2.4:
        C_D = 0.0008 + 6.5e-05 * wind_speed
    else:
        C_D = (0.0008 + 2.4 * 6.5e-05) * wind_speed / 2.4
    visc_air = 1.5 * 10 ** (-5)
    peak_ang_freq = PiersonMoskowitz.peak_angular_frequency(wind_speed)
    R_Bw = C_D * wind_speed ** 2 / (visc_air * peak_ang_freq)
    Wc = 3.88 * 10 ** (-5) * R_Bw ** 1.09
    return Wc

@ func gnome.utilities.weathering.spill_area.hull_area
def hull_area(particles):
    hull = ConvexHull(particles[:, 0:2])
    pts = hull.points[hull.vertices]
    p = pyproj.Proj(proj='cea', ellps='WGS84', errcheck=True)
    proj_pts = np.array(p(pts[:, 0], pts[:, 1]))
    x = proj_pts[0]
    y = proj_pts[1]
    return 0.5 * np.abs(np.dot(x, np.roll(y, 1)) - np.dot(y, np.roll(x, 1)))

@ const gnome.constants.gas_constant
8.314

@ const gnome.constants.atmos_pressure
101325.0

@ const gnome.constants.drop_min
1e-06

@ const gnome.constants.drop_max
1e-05

@ const gnome.constants.volume_entrained
3.9e-08

@ const gnome.constants.ka
0.0001

@ const gnome.constants.gravity
9.80665

@ const gnome.constants.water_kinematic_viscosity
1e-06

@ const gnome.constants.units
{'gas_constant': 'J/(K mol)', 'pressure': 'Pa', 'min emul drop diameter': 'm', 'max emul drop diameter': 'm', 'volume of oil entrained': 'm^3', 'oil sticking term': 'm^3/kg', 'acceleration': 'm/s^2'}


## R8 the Cython layer hands every array of the elements to the native formulas
@ func gnome.cy_gnome.cy_weatherers.emulsify_oil
def emulsify_oil(step_len, frac_water, le_interfacial_area, le_frac_evap, le_age, le_bulltime, k_emul, emul_time, emul_C, S_max, Y_max, drop_max):
    N = len(le_age)
    emul_err = emulsify(N, step_len, addr(frac_water[0]), addr(le_interfacial_area[0]), addr(le_frac_evap[0]), addr(le_age[0]), addr(le_bulltime[0]), addr(k_emul[0]), emul_time, emul_C, S_max, Y_max, drop_max)
    if emul_err != 0:
        raise ValueError()

@ func gnome.cy_gnome.cy_weatherers.disperse_oil
def disperse_oil(step_len, frac_water, le_mass, le_viscosity, le_density, fay_area, d_disp, d_sed, droplet_avg_size, frac_breaking_waves, disp_wave_energy, wave_height, visc_w, rho_w, C_sed, V_entrain, ka):
    N = len(le_mass)
    disp_err = adios2_disperse(N, step_len, addr(frac_water[0]), addr(le_mass[0]), addr(le_viscosity[0]), addr(le_density[0]), addr(fay_area[0]), addr(d_disp[0]), addr(d_sed[0]), addr(droplet_avg_size[0]), addr(frac_breaking_waves[0]), addr(disp_wave_energy[0]), addr(wave_height[0]), visc_w, rho_w, C_sed, V_entrain, ka)
    if disp_err != 0:
        raise ValueError()


## R9 the native weathering kernels compute what their references compute
@ func gnome.lib.Weatherers_c.adios2_disperse
def adios2_disperse(n, step_len, frac_water, le_mass, le_viscosity, le_density, fay_area, d_disp, d_sed, droplet_avg_size, frac_breaking_waves, disp_wave_energy, wave_height, visc_w, rho_w, C_sed, V_entrain, ka):
    err = 0
    g = 9.80665
    for i in range(0, n):
        rho = le_density[i]
        mass = le_mass[i]
        visc = le_viscosity[i]
        Y = frac_water[i]
        A = fay_area[i]
        d_disp_out = 0
        d_sed_out = 0
        De = disp_wave_energy[i]
        fbw = frac_breaking_waves[i]
        Hrms = wave_height[i]
        C_disp = math.pow(disp_wave_energy[i], 0.57) * fbw
        if Y >= 1:
            d_disp[i] = 0
            d_sed[i] = 0
            droplet_avg_size[i] = 0
            continue
        C_Roy = 2400 * math.exp(-73.682 * math.sqrt(visc))
        thickness = 0
        if A > 0:
            Vemul = mass / rho / (1 - Y)
            thickness = Vemul / A
        Q_disp = C_Roy * C_disp * V_entrain * (1 - Y) * A / rho
        Q_sed = 0
        droplet = 0.613 * thickness
        droplet_avg_size[i] = droplet
        if C_sed > 0 and thickness >= 0.0001:
            speed = droplet * droplet * g * (1 - rho / rho_w) / (18 * visc_w)
            V_refloat = 0.588 * (math.pow(thickness, 1.7) - 5e-08)
            if V_refloat < 0:
                V_refloat = 0
            q_refloat = C_Roy * C_disp * V_refloat * A
            C_oil = q_refloat * step_len / (speed * step_len + 1.5 * Hrms)
            Q_sed = 1.6 * ka * math.sqrt(Hrms * De * fbw / (rho_w * visc_w)) * C_oil * C_sed / rho
        else:
            droplet_2 = 0.613 * thickness
            droplet_avg_size[i] = droplet_2
        d_disp_out = Q_disp * step_len
        d_sed_out = (1 - Y) * Q_sed * step_len
        d_disp_out = d_disp_out * rho
        d_sed_out = d_sed_out * rho
        if d_disp_out + d_sed_out > mass:
            ratio = d_disp_out / (d_disp_out + d_sed_out)
            d_disp_out = ratio * mass
            d_sed_out = mass - d_disp_out
        d_disp[i] = d_disp_out
        d_sed[i] = d_sed_out
    return err

@ func gnome.lib.Weatherers_c.emulsify
def emulsify(n, step_len, frac_water, interfacial_area, frac_evap, age, bulltime, k_emul, emul_time, emul_C, S_max, Y_max, drop_max):
    err = 0
    Y = '?Y'
    S = '?S'
    start = '?start'
    le_age = '?le_age'
    if emul_time > 0:
        emul_time = emul_time * 3600
    for i in range(0, n):
        S = interfacial_area[i]
        le_age = age[i]
        if le_age >= emul_time and emul_time >= 0 or ((frac_evap[i] >= emul_C and emul_C >= 0) and emul_time < 0):
            if emul_time > 0:
                start = emul_time
            elif bulltime[i] < 0:
                start = le_age
                bulltime[i] = le_age
            else:
                start = bulltime[i]
            S = S + k_emul[i] * step_len * math.exp(-k_emul[i] / S_max * (le_age - start))
            if S > S_max:
                S = S_max
        else:
            S = 0
        if S < 6 / drop_max * (Y_max / (1 - Y_max)):
            Y = S * drop_max / (6 + S * drop_max)
        else:
            Y = Y_max
        if Y < 0:
            err = -1
            return err
        frac_water[i] = Y
        interfacial_area[i] = S
    return err

