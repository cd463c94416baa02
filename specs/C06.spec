## R1 the views hand out exactly the elements of a fate and write their changes back to the same elements
@ gnome.spill_container.FateDataView.__init__
def __init__(self):
    self.reset()

@ gnome.spill_container.FateDataView.reset
def reset(self):
    for fate_type in self._dicts_:
        setattr(self, fate_type, {})
    self.all = {}

@ gnome.spill_container.FateDataView._get_fate_mask
def _get_fate_mask(self, sc, fate):
    if fate == 'all':
        w_mask = np.asarray([True] * len(sc))
    else:
        w_mask = sc['fate_status'] & getattr(bt_fate, fate) == getattr(bt_fate, fate)
    w_mask = np.logical_and(w_mask, sc['mass'] > 0.0)
    return w_mask

@ gnome.spill_container.FateDataView._set_data
def _set_data(self, sc, array_types, fate_mask, fate_status):
    if np.all(fate_mask):
        setattr(self, fate_status, sc._data_arrays)
    else:
        dict_to_update = getattr(self, fate_status)
        for at in array_types:
            array = sc._array_name(at)
            dict_to_update[array] = sc[array][fate_mask]
        setattr(self, fate_status, dict_to_update)

@ gnome.spill_container.FateDataView.get_data
def get_data(self, sc, array_types, fate_status='surface_weather'):
    self._set_data(sc, array_types, self._get_fate_mask(sc, fate_status), fate_status)
    return getattr(self, fate_status)

@ gnome.spill_container.FateDataView.update_sc
def update_sc(self, sc, fate_status='surface_weather'):
    d_to_sync = getattr(self, fate_status)
    if d_to_sync is sc._data_arrays:
        self.reset()
        return
    w_mask = self._get_fate_mask(sc, fate_status)
    reset_view = False
    if 'fate_status' in d_to_sync and np.any(sc['fate_status'][w_mask] != d_to_sync['fate_status']):
        reset_view = True
    elif 'mass' in d_to_sync and np.any(np.isclose(d_to_sync['mass'], 0)):
        reset_view = True
    for key, val in d_to_sync.items():
        sc[key][w_mask] = val
    if reset_view:
        self.reset()

@ gnome.spill_container.FateDataView._reset_fatedata
def _reset_fatedata(self, sc, ix):
    for fate in self._dicts_:
        data = getattr(self, fate)
        if len(data) > 0:
            idx = np.where(data['id'] == ix)[0]
            if len(idx) > 0:
                self._set_data(sc, data.keys(), self._get_fate_mask(sc, fate), fate)

@ gnome.spill_container.SpillContainer.substancefatedata
def substancefatedata(self, substance, array_types, fate='surface_weather'):
    view = self._get_fatedataview()
    return view.get_data(self, array_types, fate)

@ gnome.spill_container.SpillContainer.itersubstancedata
def itersubstancedata(self, array_types, fate_status='surface_weather'):
    if self.substance is None:
        return []
    else:
        data = self._fate_data_view.get_data(self, array_types, fate_status)
        return [(self.substance, data)]

@ gnome.spill_container.SpillContainer.update_from_fatedataview
def update_from_fatedataview(self, fate_status='surface_weather'):
    self._fate_data_view.update_sc(self, fate_status)

@ gnome.spill_container.SpillContainer.reset_fate_dataview
def reset_fate_dataview(self):
    self._fate_data_view.reset()

@ gnome.spill_container.SpillContainer._get_fate_mask
def _get_fate_mask(self, fate):
    if fate == 'all':
        w_mask = np.asarray([True] * len(self))
    else:
        w_mask = self['fate_status'] & getattr(bt_fate, fate) == getattr(bt_fate, fate)
    w_mask = np.logical_and(w_mask, self['mass'] > 0.0)
    return w_mask

@ gnome.spill_container.SpillContainer._reset__fate_data_view
def _reset__fate_data_view(self):
    self._fate_data_view = FateDataView()

@ gnome.spill_container.SpillContainer._set_fate_data
def _set_fate_data(self):
    self._fate_data_view = FateDataView()

@ gnome.spill_container.SpillContainer._get_fatedataview
def _get_fatedataview(self):
    return self._fate_data_view

@ gnome.spill_container.SpillContainer._array_name
def _array_name(self, at):
    if isinstance(at, str):
        return at
    else:
        return at.name

@ gnome.model.Model._update_fate_status
def _update_fate_status(self, sc):
    if 'fate_status' in sc:
        on_land_mask = sc['status_codes'] == oil_status.on_land
        sc['fate_status'][on_land_mask] = fate.non_weather
        w_mask = (sc['status_codes'] == oil_status.in_water) & ~(sc['fate_status'] & fate.skim == fate.skim) & ~(sc['fate_status'] & fate.burn == fate.burn) & ~(sc['fate_status'] & fate.disperse == fate.disperse)
        surf_mask = np.logical_and(w_mask, sc['positions'][:, 2] == 0)
        subs_mask = np.logical_and(w_mask, sc['positions'][:, 2] > 0)
        sc['fate_status'][surf_mask] = fate.surface_weather
        sc['fate_status'][subs_mask] = fate.subsurf_weather
        for i, sp in enumerate(sc.spills):
            if isinstance(sp.substance, NonWeatheringSubstance):
                nw_mask = sc['spill_num'] == i
                sc['fate_status'][nw_mask] = fate.non_weather

@ gnome.spill_container.SpillContainer.model_step_is_done
def model_step_is_done(self):
    if len(self._data_arrays) == 0:
        return
    to_be_removed = np.where(self['status_codes'] == oil_status.to_be_removed)[0]
    if len(to_be_removed) > 0:
        for key in self._array_types:
            self._data_arrays[key] = np.delete(self[key], to_be_removed, axis=0)
        self._fate_data_view.reset()

## R2 the density of every element is recomputed from its components and written back to the same elements
@ func gnome.ops.density.recalc_density
def recalc_density(sc, water=None, aggregate=True):
    substance = sc.substance
    water_temp = water_rho = None
    if substance.is_weatherable:
        for substance, data in sc.itersubstancedata(sc.array_types, fate_status='all'):
            if len(data['mass']) == 0:
                continue
            if water is None:
                water_temp = default_constants.default_water_temperature
                water_rho = default_constants.default_water_density
            else:
                water_temp = water.get('temperature', 'K')
                water_rho = water.get('density')
            if not substance.is_weatherable or len(data['density']) == 0:
                if aggregate:
                    agg_func(data, 0)
                return
            k_rho = _get_k_rho_weathering_dens_update(substance, water_temp)
            mass_frac = data['mass_components'][:, :substance.num_components] / data['mass'].reshape(len(data['mass']), -1)
            oil_rho = k_rho * (substance.component_density * mass_frac).sum(1)
            new_rho = data['frac_water'] * water_rho + (1 - data['frac_water']) * oil_rho
            if np.any(new_rho > water_rho):
                new_rho[new_rho > water_rho] = water_rho
            data['density'] = new_rho
            data['oil_density'] = oil_rho
    sc.update_from_fatedataview(fate_status='all')
    if aggregate:
        agg_func(sc, 0)

