## R1 a step is written exactly when the outputter is on and the zero-step, last-step, single-step, start-time and cadence settings ask for it, forwards and backwards
@ gnome.outputters.outputter.Outputter.__init__
def __init__(self, cache=None, on=True, output_timestep=None, output_zero_step=True, output_last_step=True, output_single_step=False, output_start_time=None, output_dir=None, surface_conc=None, *args, **kwargs):
    self._middle_of_run = False
    super(Outputter, self).__init__(*args, **kwargs)
    self.cache = cache
    self.on = on
    self.output_zero_step = output_zero_step
    self.output_last_step = output_last_step
    self.output_single_step = output_single_step
    self.output_timestep = output_timestep
    if output_start_time:
        self.output_start_time = output_start_time
    else:
        self.output_start_time = None
    self.sc_pair = None
    if output_dir is not None:
        try:
            os.mkdir(output_dir)
        except OSError:
            pass
    self.output_dir = output_dir
    self.surface_conc = surface_conc
    self.array_types = dict()
    self.rewind()

@ getter gnome.outputters.outputter.Outputter.output_timestep
def output_timestep(self):
    if self._output_timestep is not None:
        return timedelta(seconds=self._output_timestep)
    else:
        return None

@ setter gnome.outputters.outputter.Outputter.output_timestep
def output_timestep(self, value):
    if value is None:
        self._output_timestep = None
    else:
        if value <= timedelta(0):
            raise ValueError()
        self._output_timestep = int(value.total_seconds())

@ gnome.outputters.outputter.Outputter.prepare_for_model_run
def prepare_for_model_run(self, model_start_time=None, spills=None, model_time_step=None, map=None, model_name=None, **kwargs):
    if model_start_time is None:
        raise TypeError()
    if hasattr(self, 'filename'):
        self._check_filename(self.filename)
    self.clean_output_files()
    self._model_start_time = model_start_time
    self.model_timestep = model_time_step
    self.sc_pair = spills
    if self._output_timestep is not None:
        if abs(self._output_timestep) < abs(model_time_step):
            pass
    cache = kwargs.pop('cache', None)
    if cache is not None:
        self.cache = cache
    self.map = map
    self.model_name = model_name
    if self.output_timestep is None:
        self._write_step = True
    self._dt_since_lastoutput = 0
    self._middle_of_run = True
    if self.output_single_step and (self.output_start_time == model_start_time or self.output_start_time is None):
        self._single_output_at_start = True
    else:
        self._single_output_at_start = False

@ gnome.outputters.outputter.Outputter.prepare_for_model_step
def prepare_for_model_step(self, time_step, model_time):
    if not self.on:
        return
    self._surf_conc_computed = False
    d = timedelta(seconds=time_step)
    if self.output_start_time is not None:
        if self.output_start_time != self._model_start_time:
            if model_time + d < self.output_start_time and time_step > 0 or (model_time + d > self.output_start_time and time_step < 0):
                self._write_step = False
                return
            if model_time + d == self.output_start_time:
                self._write_step = True
                self._is_first_output = False
                return
            if model_time + d > self.output_start_time and time_step > 0 or (model_time + d < self.output_start_time and time_step < 0):
                if self._is_first_output:
                    self._write_step = True
                    self._is_first_output = False
                    return
    if self.output_single_step:
        self._write_step = False
        return
    if self._output_timestep is None:
        self._write_step = True
    else:
        self._write_step = False
        self._dt_since_lastoutput += time_step
        if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
            self._write_step = True
            self._dt_since_lastoutput = math.fmod(self._dt_since_lastoutput, self._output_timestep)

@ gnome.outputters.outputter.Outputter.model_step_is_done
def model_step_is_done(self):
    pass

@ gnome.outputters.outputter.Outputter.post_model_run
def post_model_run(self):
    pass

@ gnome.outputters.outputter.Outputter.write_output
def write_output(self, step_num, islast_step=False):
    if not self.on:
        self._write_step = False
        return
    if step_num == 0:
        if self.output_zero_step or self._single_output_at_start:
            self._write_step = True
        else:
            self._write_step = False
    if islast_step and self.output_last_step:
        self._write_step = True
    if self._write_step and self.cache is None:
        raise ValueError()
    if self._write_step and self.surface_conc is not None and (not self._surf_conc_computed):
        try:
            sc = self.cache.recent[step_num][0]
        except KeyError:
            pass
        else:
            compute_surface_concentration(sc, self.surface_conc)
            self._surf_conc_computed = True

@ gnome.outputters.outputter.Outputter.clean_output_files
def clean_output_files(self):
    pass

@ gnome.outputters.outputter.Outputter.rewind
def rewind(self):
    self._model_start_time = None
    self._dt_since_lastoutput = None
    self._write_step = True
    self._is_first_output = True
    self._surf_conc_computed = True
    self._middle_of_run = False
    self.cleaned_up = False
    if self.surface_conc:
        self.array_types['surface_concentration'] = gat('surface_concentration')

@ gnome.outputters.outputter.Outputter.write_output_post_run
def write_output_post_run(self, *, model_start_time, model_time_step, num_time_steps, **kwargs):
    self.prepare_for_model_run(model_start_time=model_start_time, model_time_step=model_time_step, **kwargs)
    model_time = model_start_time
    last_step = False
    for step_num in range(num_time_steps):
        if step_num > 0:
            next_ts = self.cache.load_timestep(step_num).items()[0].current_time_stamp
            ts = next_ts - model_time
            self.prepare_for_model_step(ts.total_seconds(), model_time)
        if step_num == num_time_steps - 1:
            last_step = True
        self.write_output(step_num, last_step)
        model_time = self.cache.load_timestep(step_num).items()[0].current_time_stamp

@ getter gnome.outputters.outputter.Outputter.middle_of_run
def middle_of_run(self):
    return self._middle_of_run

@ gnome.outputters.outputter.Outputter._check_filename
def _check_filename(self, filename):
    if not os.path.exists(os.path.realpath(os.path.dirname(filename))):
        raise ValueError()

@ gnome.outputters.outputter.Outputter._check_is_dir
def _check_is_dir(self, filename):
    if os.path.isdir(filename):
        raise ValueError()

@ gnome.outputters.outputter.Outputter._file_exists_error
def _file_exists_error(self, file_):
    if os.path.exists(file_):
        raise ValueError()

@ gnome.outputters.outputter.OutputterFilenameMixin.__init__
def __init__(self, filename, *args, **kwargs):
    super(OutputterFilenameMixin, self).__init__(**kwargs)
    self.filename = filename

@ getter gnome.outputters.outputter.OutputterFilenameMixin.filename
def filename(self):
    return self._filename

@ setter gnome.outputters.outputter.OutputterFilenameMixin.filename
def filename(self, new_name):
    if self.middle_of_run:
        raise AttributeError()
    else:
        self._filename = new_name

@ gnome.outputters.outputter.OutputterFilenameMixin.clean_output_files
def clean_output_files(self):
    try:
        os.remove(self.filename)
    except OSError:
        pass

## R2 text and JSON outputters write the data of that step, forecast and uncertain apart, and nothing when no output is due
@ gnome.outputters.weathering.BaseMassBalanceOutputter.gather_mass_balance_data
def gather_mass_balance_data(self, step_num):
    sc = self.cache.load_timestep(step_num).items()[0]
    output_info = {'model_time': sc.current_time_stamp}
    output_info.update(sc.mass_balance)
    for name, val in output_info.items():
        msg = '\t{0}: {1}'.format(name, val)
    return output_info

@ gnome.outputters.weathering.WeatheringOutput.__init__
def __init__(self, output_dir=None, **kwargs):
    super(WeatheringOutput, self).__init__(output_dir=output_dir, **kwargs)

@ gnome.outputters.weathering.WeatheringOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(WeatheringOutput, self).write_output(step_num, islast_step)
    if not self._write_step:
        return None
    output_info = self.gather_mass_balance_data(step_num)
    output_info['time_stamp'] = output_info.pop('model_time').isoformat()
    if self.output_dir:
        output_filename = self.output_to_file(output_info, step_num)
        output_info.update({'output_filename': str(output_filename)})
    return output_info

@ gnome.outputters.weathering.WeatheringOutput.output_to_file
def output_to_file(self, json_content, step_num):
    file_format = 'mass_balance_{0:06d}.json'
    filename = os.path.join(self.output_dir, file_format.format(step_num))
    with open(filename, 'w', encoding='utf-8') as outfile:
        dump(json_content, outfile, indent=4)
    return filename

@ gnome.outputters.weathering.WeatheringOutput.clean_output_files
def clean_output_files(self):
    if self.output_dir:
        files = glob(os.path.join(self.output_dir, 'mass_balance_*.json'))
        for f in files:
            os.remove(f)

@ gnome.outputters.oil_budget.OilBudgetOutput.__init__
def __init__(self, filename='gnome_oil_budget.csv', file_format='csv', cache=None, on=True, output_timestep=None, *args, **kwargs):
    if file_format not in self._valid_file_formats:
        raise ValueError()
    self.file_format = file_format
    super(OilBudgetOutput, self).__init__(*args, filename=filename, cache=cache, on=on, output_timestep=output_timestep, output_zero_step=True, output_last_step=True, output_single_step=False, output_start_time=None, surface_conc=None, **kwargs)

@ gnome.outputters.oil_budget.OilBudgetOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, **kwargs):
    super(OilBudgetOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    self._check_is_dir(self.filename)
    outfile = open(self.filename, 'w', newline='')
    self.csv_writer = csv.writer(outfile)
    self.csv_writer.writerow(self.header_row)

@ gnome.outputters.oil_budget.OilBudgetOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(OilBudgetOutput, self).write_output(step_num, islast_step)
    if self.on is False or not self._write_step:
        return None
    mass_balance_data = self.gather_mass_balance_data(step_num)
    model_time = mass_balance_data['model_time']
    run_time = (model_time - self._model_start_time).total_seconds()
    hours = int(run_time // 3600)
    minutes = int((run_time - hours * 3600) // 60)
    row = [model_time.strftime('%Y-%m-%d %H:%M'), hours + minutes / 60]
    for category in self.budget_categories:
        try:
            row.append(f' {mass_balance_data[category]:.8g}')
        except KeyError:
            val = ''
            row.append(val)
    self.csv_writer.writerow(row)

@ gnome.outputters.oil_budget.OilBudgetOutput.post_model_run
def post_model_run(self):
    self.csv_writer = None

@ const gnome.outputters.oil_budget.OilBudgetOutput._valid_file_formats
{'csv'}

@ const gnome.outputters.oil_budget.OilBudgetOutput.budget_categories
['amount_released', 'evaporated', 'natural_dispersion', 'sedimentation', 'beached', 'floating', 'off_maps']

@ const gnome.outputters.oil_budget.OilBudgetOutput.header_row
['Model Time', 'Hours Since Model Start', 'Amount Released (kg)', 'Evaporated (kg)', 'Dispersed (kg)', 'Sedimentation (kg)', 'Beached (kg)', 'Floating (kg)', 'Off_maps (kg)']

@ const gnome.outputters.oil_budget.OilBudgetOutput._schema
OilBudgetOutputSchema

@ gnome.outputters.memory_outputter.DataBuffer.__init__
def __init__(self):
    self.certain = []
    self.uncertain = []

@ gnome.outputters.memory_outputter.MemoryOutputter.prepare_for_model_run
def prepare_for_model_run(self, *args, **kwargs):
    super(MemoryOutputter, self).prepare_for_model_run(*args, **kwargs)
    self.data_buffer = DataBuffer()

@ gnome.outputters.memory_outputter.MemoryOutputter.write_output
def write_output(self, step_num, islast_step=False):
    super(MemoryOutputter, self).write_output(step_num, islast_step)
    if self.on is False or not self._write_step:
        return None
    for sc in self.cache.load_timestep(step_num).items():
        if sc.uncertain:
            raise NotImplementedError()
        time_stamp = sc.current_time_stamp
        data = {'time': time_stamp}
        self.data_buffer.certain.append(data)
        for var_name in self.arrays_to_output:
            data[var_name] = sc[var_name]
        if sc.mass_balance:
            for key, val in sc.mass_balance.items():
                pass
    return {'buffer': 'memory', 'time_stamp': time_stamp}

@ const gnome.outputters.memory_outputter.MemoryOutputter.arrays_to_output
['mass', 'positions', 'age', 'status_codes']

@ gnome.outputters.geo_json.TrajectoryGeoJsonOutput.__init__
def __init__(self, round_data=True, round_to=4, output_dir=None, **kwargs):
    self.round_data = round_data
    self.round_to = round_to
    self.output_dir = output_dir
    super(TrajectoryGeoJsonOutput, self).__init__(output_dir=output_dir, **kwargs)

@ gnome.outputters.geo_json.TrajectoryGeoJsonOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(TrajectoryGeoJsonOutput, self).write_output(step_num, islast_step)
    if not self._write_step:
        return None
    c_features = []
    uc_features = []
    for sc in self.cache.load_timestep(step_num).items():
        position = self._dataarray_p_types(sc['positions'])
        status = self._dataarray_p_types(sc['status_codes'])
        mass = self._dataarray_p_types(sc['mass'])
        sc_type = 'uncertain' if sc.uncertain else 'forecast'
        spill_num = self._dataarray_p_types(sc['spill_num'])
        for ix, pos in enumerate(position):
            feature = Feature(geometry=Point(pos[:2]), id=ix, properties={'status_code': status[ix], 'sc_type': sc_type, 'mass': mass[ix], 'spill_num': spill_num[ix]})
            if sc.uncertain:
                uc_features.append(feature)
            else:
                c_features.append(feature)
    c_geojson = FeatureCollection(c_features)
    uc_geojson = FeatureCollection(uc_features)
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'certain': c_geojson, 'uncertain': uc_geojson}
    if self.output_dir:
        all_geojson = FeatureCollection(c_features + uc_features)
        output_info['output_filename'] = str(self.output_to_file(all_geojson, step_num))
    return output_info

@ gnome.outputters.geo_json.TrajectoryGeoJsonOutput.output_to_file
def output_to_file(self, json_content, step_num):
    file_format = 'geojson_{0:06d}.geojson'
    filename = os.path.join(self.output_dir, file_format.format(step_num))
    with open(filename, 'w+', encoding='utf-8') as outfile:
        dump(json_content, outfile, indent=4)
    return filename

@ gnome.outputters.geo_json.TrajectoryGeoJsonOutput._dataarray_p_types
def _dataarray_p_types(self, data_array):
    if issubclass(data_array.dtype.type, float):
        data = data_array.round(self.round_to).astype(float).tolist()
    elif issubclass(data_array.dtype.type, np.integer):
        data = data_array.astype(int).tolist()
    else:
        raise TypeError()
    return data

@ gnome.outputters.geo_json.TrajectoryGeoJsonOutput.clean_output_files
def clean_output_files(self):
    if self.output_dir:
        files = glob(os.path.join(self.output_dir, 'geojson_*.geojson'))
        for f in files:
            os.remove(f)

@ gnome.outputters.geo_json.IceGeoJsonOutput.__init__
def __init__(self, ice_movers, **kwargs):
    if isinstance(ice_movers, Iterable) and (not isinstance(ice_movers, str)):
        self.ice_movers = ice_movers
    elif ice_movers is not None:
        self.ice_movers = [ice_movers]
    else:
        self.ice_movers = []
    super(IceGeoJsonOutput, self).__init__(**kwargs)

@ gnome.outputters.geo_json.IceGeoJsonOutput.clean_output_files
def clean_output_files(self):
    pass

@ gnome.outputters.geo_json.IceGeoJsonOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(IceGeoJsonOutput, self).write_output(step_num, islast_step)
    if self.on is False or not self._write_step:
        return None
    sc = self.cache.load_timestep(step_num).items()[-1]
    model_time = date_to_sec(sc.current_time_stamp)
    geojson = {}
    for mover in self.ice_movers:
        grid_data = mover.get_grid_data()
        ice_coverage, ice_thickness = mover.get_ice_fields(model_time)
        geojson[mover.id] = []
        geojson[mover.id].append(self.get_coverage_fc(ice_coverage, grid_data))
        geojson[mover.id].append(self.get_thickness_fc(ice_thickness, grid_data))
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'feature_collections': geojson}
    return output_info

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_coverage_fc
def get_coverage_fc(self, coverage, triangles):
    return self.get_grouped_fc_from_1d_array(coverage, triangles, 'coverage', decimals=2)

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_thickness_fc
def get_thickness_fc(self, thickness, triangles):
    return self.get_grouped_fc_from_1d_array(thickness, triangles, 'thickness', decimals=1)

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_grouped_fc_from_1d_array
def get_grouped_fc_from_1d_array(self, values, triangles, property_name, decimals):
    rounded = values.round(decimals=decimals)
    unique = np.unique(rounded)
    features = []
    for u in unique:
        matching = np.where(rounded == u)
        matching_triangles = triangles[matching]
        dtype = matching_triangles.dtype.descr
        shape = matching_triangles.shape + (len(dtype),)
        coordinates = matching_triangles.view(dtype='<f8').reshape(shape).tolist()
        prop_fmt = '{{:.{}f}}'.format(decimals)
        properties = {'{}'.format(property_name): prop_fmt.format(u)}
        feature = Feature(id='1', properties=properties, geometry=MultiPolygon(coordinates=coordinates))
        features.append(feature)
    return FeatureCollection(features)

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_rounded_ice_values
def get_rounded_ice_values(self, coverage, thickness):
    return np.vstack((coverage.round(decimals=2), thickness.round(decimals=1))).T

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_unique_ice_values
def get_unique_ice_values(self, ice_values):
    dtype = np.dtype((np.void, ice_values.dtype.itemsize * ice_values.shape[1]))
    voidtype_array = np.ascontiguousarray(ice_values).view(dtype)
    _, idx = np.unique(voidtype_array, return_index=True)
    return ice_values[idx]

@ gnome.outputters.geo_json.IceGeoJsonOutput.get_matching_ice_values
def get_matching_ice_values(self, ice_values, v):
    return np.where((ice_values == v).all(axis=1))

@ gnome.outputters.geo_json.IceGeoJsonOutput.rewind
def rewind(self):
    super(IceGeoJsonOutput, self).rewind()

@ gnome.outputters.json.SpillJsonOutput.__init__
def __init__(self, _additional_data=None, include_uncertain_bounds=False, **kwargs):
    self._additional_data = _additional_data if _additional_data else []
    self.include_uncertain_bounds = include_uncertain_bounds
    super(SpillJsonOutput, self).__init__(**kwargs)
    self.default_unit_map = {'Mass': {'column': 'mass', 'unit': 'kilograms'}, 'Surface Concentration': {'column': 'surf_conc', 'unit': 'kg/m^2'}, 'Age': {'column': 'age', 'unit': 'seconds'}, 'Viscosity': {'column': 'viscosity', 'unit': 'm^2/s'}, 'Depth': {'column': 'depth', 'unit': 'meters'}, 'Windage': {'column': 'windage', 'unit': 'fraction'}}

@ gnome.outputters.json.SpillJsonOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, uncertain=False, **kwargs):
    if not self.on:
        return
    super(SpillJsonOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    self.model_start_time = model_start_time
    self.spills = spills
    self.cutoff_struct = self.generate_cutoff_struct()
    self.uncertain = uncertain

@ gnome.outputters.json.SpillJsonOutput.generate_cutoff_struct
def generate_cutoff_struct(self):
    cutoff_struct = {}
    for spill_idx, spill in enumerate(self.spills):
        if spill._appearance and spill._appearance.include_certain_contours and spill._appearance.colormap:
            appearance = spill._appearance.to_dict()
            colormap = spill._appearance.colormap.to_dict()
            requested_display_param = appearance['data']
            requested_display_unit = appearance['units']
            unit_map = {}
            if requested_display_param in self.default_unit_map:
                unit_map = self.default_unit_map[requested_display_param]
            else:
                raise ValueError()
            data_column = unit_map['column']
            number_scale_domain = [val for val in colormap['numberScaleDomain']]
            cutoff_array = [val for val in colormap['colorScaleDomain']]
            cutoff_array.append(number_scale_domain[-1])
            cutoffs = []
            for idx, val in enumerate(cutoff_array):
                colorblocklabel = colormap['colorBlockLabels'][idx]
                color = colormap['colorScaleRange'][idx]
                cutoffs.append({'cutoff': val, 'cutoff_id': idx, 'color': color, 'label': colorblocklabel})
            cutoff_struct[spill_idx] = {'param': data_column, 'cutoffs': cutoffs}
    return cutoff_struct

@ gnome.outputters.json.SpillJsonOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(SpillJsonOutput, self).write_output(step_num, islast_step)
    if not self._write_step:
        return None
    certain_scs = []
    certain_contours_scs = []
    uncertain_scs = []
    uncertain_bounds_scs = []
    self.cutoff_struct = self.generate_cutoff_struct()
    sp = self.cache.load_timestep(step_num).items()
    for sc in sp:
        position = sc['positions']
        longitude = np.around(position[:, 0], 5).tolist()
        latitude = np.around(position[:, 1], 5).tolist()
        status = sc['status_codes'].tolist()
        mass = np.around(sc['mass'], 4).tolist()
        spill_num = sc['spill_num'].tolist()
        out = {'longitude': longitude, 'latitude': latitude, 'status': status, 'mass': mass, 'spill_num': spill_num, 'length': len(longitude)}
        if self._additional_data and len(self._additional_data) > 0:
            for d in self._additional_data:
                if d == 'viscosity' or d == 'surface_concentration':
                    out[d] = np.around(sc[d], 8).tolist()
                elif d == 'depth':
                    out[d] = np.around(sc['positions'][:, 2], 4).tolist()
                else:
                    out[d] = np.around(sc[d], 4).tolist()
        if sc.uncertain:
            uncertain_scs.append(out)
            if self.include_uncertain_bounds:
                separate_by_spill = True
                hull_ratio = 0.8
                hull_allow_holes = False
                start = time.time()
                hull = calculate_hull(sp, separate_by_spill=separate_by_spill, ratio=hull_ratio, union_results=True, allow_holes=hull_allow_holes)
                end = time.time()
                json_geoms = []
                spill_num = []
                for h in hull['hulls']:
                    json_geoms.append(shapely.geometry.mapping(h))
                if len(hull['spill_num']):
                    if hull['spill_num'][0]:
                        spill_num = list(map(int, hull['spill_num']))
                    else:
                        spill_num = hull['spill_num']
                boundary_out = {'bounds': json_geoms, 'spill_num': spill_num, 'length': len(hull['hulls'])}
                uncertain_bounds_scs.append(boundary_out)
        else:
            certain_scs.append(out)
            hull_ratio = 0.8
            hull_allow_holes = False
            start = time.time()
            contours = calculate_contours(sc, cutoff_struct=self.cutoff_struct, ratio=hull_ratio, allow_holes=hull_allow_holes)
            end = time.time()
            json_geoms = []
            spill_num = []
            spill_ids = list(set([item['spill_num'] for item in contours]))
            contour_list = []
            for id in spill_ids:
                schema = {'geometry': [item['contour'] for item in contours if item['spill_num'] == id], 'spill_num': [item['spill_num'] for item in contours if item['spill_num'] == id], 'color': [item['color'] for item in contours if item['spill_num'] == id], 'label': [item['label'] for item in contours if item['spill_num'] == id]}
                data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='geometry')
                json_geoms = json.loads(data_frame.to_json())
                json_geoms['spill_num'] = id
                contour_list.append(json_geoms)
            certain_contours_out = {'contours': contour_list, 'length': len(contour_list)}
            certain_contours_scs.append(certain_contours_out)
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'step_num': step_num, 'certain': certain_scs, 'certain_contours': certain_contours_scs, 'uncertain': uncertain_scs, 'uncertain_bounds': uncertain_bounds_scs}
    if self.output_dir:
        output_info['output_filename'] = str(self.output_to_file(certain_scs, step_num))
        self.output_to_file(uncertain_scs, step_num)
    return output_info

@ gnome.outputters.json.CurrentJsonOutput.__init__
def __init__(self, current_movers, **kwargs):
    self.current_movers = current_movers
    super(CurrentJsonOutput, self).__init__(**kwargs)

@ gnome.outputters.json.CurrentJsonOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(CurrentJsonOutput, self).write_output(step_num, islast_step)
    if self.on is False or not self._write_step:
        return None
    for sc in self.cache.load_timestep(step_num).items():
        model_time = date_to_sec(sc.current_time_stamp)
    json_ = {}
    for cm in self.current_movers:
        is_pymover = isinstance(cm, PyMover)
        if is_pymover:
            velocities = cm.get_scaled_velocities(sc.current_time_stamp)
        else:
            velocities = cm.get_scaled_velocities(model_time)
        if is_pymover:
            velocities = velocities[:, 0:2].round(decimals=2)
        else:
            velocities = self.get_rounded_velocities(velocities)
        x = velocities[:, 0]
        y = velocities[:, 1]
        direction = np.arctan2(y, x) - np.pi / 2
        magnitude = np.sqrt(x ** 2 + y ** 2)
        direction = np.round(direction, 2)
        magnitude = np.round(magnitude, 2)
        json_[cm.id] = {'magnitude': magnitude.tolist(), 'direction': direction.tolist()}
    return json_

@ gnome.outputters.json.CurrentJsonOutput.get_rounded_velocities
def get_rounded_velocities(self, velocities):
    return np.vstack((velocities['u'].round(decimals=2), velocities['v'].round(decimals=2))).T

@ gnome.outputters.json.CurrentJsonOutput.get_unique_velocities
def get_unique_velocities(self, velocities):
    dtype = np.dtype((np.void, velocities.dtype.itemsize * velocities.shape[1]))
    voidtype_array = np.ascontiguousarray(velocities).view(dtype)
    _, idx = np.unique(voidtype_array, return_index=True)
    return velocities[idx]

@ gnome.outputters.json.CurrentJsonOutput.get_matching_velocities
def get_matching_velocities(self, velocities, v):
    return np.where((velocities == v).all(axis=1))

@ gnome.outputters.json.CurrentJsonOutput.current_movers_to_dict
def current_movers_to_dict(self):
    return self._collection_to_dict(self.current_movers)

@ gnome.outputters.json.IceJsonOutput.__init__
def __init__(self, ice_movers, **kwargs):
    if isinstance(ice_movers, Iterable) and (not isinstance(ice_movers, str)):
        self.ice_movers = ice_movers
    elif ice_movers is not None:
        self.ice_movers = (ice_movers,)
    else:
        self.ice_movers = tuple()
    super(IceJsonOutput, self).__init__(**kwargs)

@ gnome.outputters.json.IceJsonOutput.clean_output_files
def clean_output_files(self):
    pass

@ gnome.outputters.json.IceJsonOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(IceJsonOutput, self).write_output(step_num, islast_step)
    if self.on is False or not self._write_step:
        return None
    for sc in self.cache.load_timestep(step_num).items():
        pass
    model_time = date_to_sec(sc.current_time_stamp)
    raw_json = {}
    for mover in self.ice_movers:
        ice_coverage, ice_thickness = mover.get_ice_fields(model_time)
        raw_json[mover.id] = {'thickness': [], 'concentration': []}
        raw_json[mover.id]['thickness'] = ice_thickness.tolist()
        raw_json[mover.id]['concentration'] = ice_coverage.tolist()
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'data': raw_json}
    return output_info

@ gnome.outputters.json.IceJsonOutput.rewind
def rewind(self):
    super(IceJsonOutput, self).rewind()

## R3 binary, KMZ, shape, image and NetCDF outputters write every element of the step under its own name, index and time, and finish their files once
@ gnome.outputters.binary.BinaryOutput.__init__
def __init__(self, filename, zip_output=True, **kwargs):
    super(BinaryOutput, self).__init__(filename=filename, **kwargs)
    name, ext = os.path.splitext(self.filename)
    self.name = name
    dirname, filename = os.path.split(self.filename)
    self.output_dir = dirname
    self.zip_output = zip_output
    self.filedir = os.path.dirname(filename)
    self.file_num = 0
    self.cleaned_up = False

@ gnome.outputters.binary.BinaryOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, uncertain=False, **kwargs):
    if not self.on:
        return
    super(BinaryOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    self.file_num = 0
    self.uncertain = uncertain

@ gnome.outputters.binary.BinaryOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(BinaryOutput, self).write_output(step_num, islast_step)
    if self.on is False:
        return None
    if self._write_step:
        for sc in self.cache.load_timestep(step_num).items():
            if sc.uncertain:
                filename = '{0}UNCRTN.{1:03d}'.format(self.name, self.file_num)
            else:
                filename = '{0}FORCST.{1:03d}'.format(self.name, self.file_num)
            self._file_exists_error(filename)
            output_filename = self.output_to_file(filename, sc)
    if islast_step:
        num_files = self.file_num + (1 if self._write_step else 0)
        self._zip_binary_files(num_files)
        self.cleaned_up = True
    if not self._write_step:
        return None
    self.file_num += 1
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'output_filename': str(self.filename)}
    return output_info

@ gnome.outputters.binary.BinaryOutput.output_to_file
def output_to_file(self, filename, sc):
    time_stamp = sc.current_time_stamp
    version = 16.1
    day = time_stamp.day
    month = time_stamp.month
    year = time_stamp.year
    hour = time_stamp.hour
    minute = time_stamp.minute
    second = time_stamp.second
    name = 'L.E. FILE'
    num_LE = len(sc['positions'])
    refYear = year - year % 4
    ref_day = 1
    ref_month = 1
    ref_year = refYear
    ref_hour = 0
    ref_minute = 0
    ref_second = 0
    model_time = date_to_sec(sc.current_time_stamp)
    ossm_datetime = datetime(ref_year, ref_month, ref_day, ref_hour, ref_minute, ref_second)
    ossm_time = date_to_sec(ossm_datetime)
    seconds = model_time - ossm_time
    current_time = seconds / 3600.0
    LE_header = np.zeros((1,), dtype=header_dtype)
    LE_header['name'] = name.encode(errors='replace')
    LE_header['day'] = day
    LE_header['month'] = month
    LE_header['year'] = year
    LE_header['hour'] = hour
    LE_header['minute'] = minute
    LE_header['current_time'] = current_time
    LE_header['version'] = version
    LE_header['num_LE'] = num_LE
    LEs = np.zeros((num_LE,), dtype=le_dtype)
    positions = sc['positions']
    longitude = -1 * sc['positions'][:, 0]
    latitude = sc['positions'][:, 1]
    release_time = model_time - sc['age'][:]
    release_time -= ossm_time
    release_time /= 3600
    ageInHrsWhenReleased = 0
    release_age = ageInHrsWhenReleased - (current_time - release_time)
    release_age = release_age.clip(min=0)
    LEs['Lat'] = latitude
    LEs['Lon'] = longitude
    LEs['Release_time'] = release_time
    LEs['AgeWhenReleased'] = release_age
    LEs['nMap'] = 1
    LEs['BeachHeight'][sc['status_codes'] == oil_status.on_land] = -50
    with open(filename, 'wb') as binfile:
        LE_header.tofile(binfile)
        LEs.tofile(binfile)
    return filename

@ gnome.outputters.binary.BinaryOutput._zip_binary_files
def _zip_binary_files(self, num_files):
    if self.zip_output is True:
        zfilename = self.name + '.zip'
        zipf = zipfile.ZipFile(zfilename, 'w')
        for file_num in range(0, num_files):
            forcst_file = '{0}FORCST.{1:03d}'.format(self.name, file_num)
            dir, file_to_zip = os.path.split(forcst_file)
            zipf.write(forcst_file, arcname=file_to_zip)
            os.remove(forcst_file)
            if self.uncertain is True:
                uncrtn_file = '{0}UNCRTN.{1:03d}'.format(self.name, file_num)
                dir, file_to_zip = os.path.split(uncrtn_file)
                zipf.write(uncrtn_file, arcname=file_to_zip)
                os.remove(uncrtn_file)
        zipf.close()

@ gnome.outputters.binary.BinaryOutput.clean_output_files
def clean_output_files(self):
    if self.output_dir:
        files = glob(os.path.join(self.output_dir, '*FORCST.*'))
        for f in files:
            try:
                os.remove(f)
            except:
                pass
        files = glob(os.path.join(self.output_dir, '*UNCRTN.*'))
        for f in files:
            try:
                os.remove(f)
            except:
                pass

@ gnome.outputters.binary.BinaryOutput.post_model_run
def post_model_run(self):
    if not self.cleaned_up:
        self._zip_binary_files(self.file_num)
    self.cleaned_up = True

@ const gnome.outputters.binary.le_dtype
np.dtype(np.dtype([('Lat', np.float32), ('Lon', np.float32), ('Release_time', np.float32), ('AgeWhenReleased', np.float32), ('BeachHeight', np.float32), ('nMap', np.int32), ('pollutant', np.int32), ('WindKey', np.int32)])).newbyteorder('B')

@ const gnome.outputters.binary.header_dtype
np.dtype(np.dtype([('name', np.bytes_, 10), ('day', np.int16), ('month', np.int16), ('year', np.int16), ('hour', np.int16), ('minute', np.int16), ('current_time', np.float32), ('version', np.float32), ('num_LE', np.int32)])).newbyteorder('B')

@ const gnome.outputters.binary.BinaryOutputSchema.filename
SchemaNode(String(), missing=drop, save=True, update=True)

@ const gnome.outputters.binary.BinaryOutputSchema.zip_output
SchemaNode(Boolean(), missing=drop, save=True, update=True)

@ const gnome.outputters.binary.BinaryOutput._schema
BinaryOutputSchema

@ gnome.outputters.kmz.KMZOutput.__init__
def __init__(self, filename, **kwargs):
    filename = Path(filename)
    filename = filename.with_suffix('.kmz')
    self.kml_name = filename.with_suffix('.kml').parts[-1]
    self.cleaned_up = False
    super(KMZOutput, self).__init__(filename=filename, **kwargs)

@ gnome.outputters.kmz.KMZOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, **kwargs):
    if not self.on:
        return
    super(KMZOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    self._file_exists_error(self.filename)
    self.kml = [kmz_templates.header_template.format(caveat=kmz_templates.caveat, kml_name=self.kml_name, valid_timestring=model_start_time.strftime(self.time_formatter), issued_timestring=datetime.now().strftime(self.time_formatter))]

@ gnome.outputters.kmz.KMZOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(KMZOutput, self).write_output(step_num, islast_step)
    if not self.on:
        return None
    if self._write_step:
        for sc in self.cache.load_timestep(step_num).items():
            start_time = sc.current_time_stamp
            if self.output_timestep is None:
                end_time = start_time + timedelta(seconds=self.model_timestep)
            else:
                end_time = start_time + self.output_timestep
            start_time = start_time.isoformat()
            end_time = end_time.isoformat()
            positions = sc['positions']
            water_positions = positions[sc['status_codes'] == oil_status.in_water]
            beached_positions = positions[sc['status_codes'] == oil_status.on_land]
            self.kml.append(kmz_templates.build_one_timestep(water_positions, beached_positions, start_time, end_time, sc.uncertain))
    if islast_step:
        self.kml.append(kmz_templates.footer)
        with zipfile.ZipFile(self.filename, 'w', compression=zipfile.ZIP_DEFLATED) as kmzfile:
            kmzfile.writestr('dot.png', base64.b64decode(DOT))
            kmzfile.writestr('x.png', base64.b64decode(X))
            kmzfile.writestr(self.kml_name, ''.join(self.kml).encode('utf8'))
        self.cleaned_up = True
    if not self._write_step:
        return None
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'output_filename': str(self.filename)}
    return output_info

@ gnome.outputters.kmz.KMZOutput.post_model_run
def post_model_run(self):
    if not self.cleaned_up:
        self.kml.append(kmz_templates.footer)
        with zipfile.ZipFile(self.filename, 'w', compression=zipfile.ZIP_DEFLATED) as kmzfile:
            kmzfile.writestr('dot.png', base64.b64decode(DOT))
            kmzfile.writestr('x.png', base64.b64decode(X))
            kmzfile.writestr(self.kml_name, ''.join(self.kml).encode('utf8'))
        self.cleaned_up = True

@ gnome.outputters.kmz.KMZOutput.rewind
def rewind(self):
    super(KMZOutput, self).rewind()
    self._start_idx = 0

@ const gnome.outputters.kmz.KMZOutput._schema
KMZSchema

@ const gnome.outputters.kmz.KMZOutput.time_formatter
'%m/%d/%Y %H:%M'

@ func gnome.outputters.kmz_templates.build_one_timestep
def build_one_timestep(floating_positions, beached_positions, start_time, end_time, uncertain):
    data = {'certain': 'Uncertainty' if uncertain else 'Best Guess', 'start_time': start_time, 'end_time': end_time, 'date_string': start_time}
    kml = []
    kml.append(timestep_header_template.format(**data))
    for status, positions in [('Floating', floating_positions), ('Beached', beached_positions)]:
        color = 'Red' if uncertain else 'Yellow'
        if status == 'Floating':
            data['style'] = '#' + color + 'DotIcon'
        else:
            data['style'] = '#' + color + 'XIcon'
        data['status'] = status
        kml.append(one_run_header.format(**data))
        for point in positions:
            kml.append(point_template.format(*point[:2]))
        kml.append(one_run_footer)
    kml.append(timestep_footer)
    return ''.join(kml)

@ const gnome.outputters.kmz_templates.caveat
'This trajectory was produced by GNOME (General NOAA Operational Modeling Environment), and should be used for educational and planning purposes only--not for a real response. In the event of an oil or chemical spill in U.S. waters, contact the U.S. Coast Guard National Response Center at 1-800-424-8802.'

@ const gnome.outputters.kmz_templates.header_template
'<?xml version="1.0" encoding="UTF-8"?>\n<kml xmlns="http://www.opengis.net/kml/2.2">\n  <Document>\n    <name>{kml_name}</name>\n    <open>1</open>\n    <description><![CDATA[<b>Valid for:</b> {valid_timestring}<br>\n                          <b>Issued:</b>{issued_timestring} <br>\n                          {caveat}]]>\n    </description>\n\n    <Style id="RedDotIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <color>ff0000ff</color>\n         <Icon>\n            <href>dot.png</href>\n         </Icon>\n          <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n\n    <Style id="BlackDotIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <Icon>\n            <href>dot.png</href>\n         </Icon>\n         <color>ff000000</color>\n         <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n\n    <Style id="YellowDotIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <Icon>\n            <href>dot.png</href>\n         </Icon>\n         <color>ff00ffff</color>\n         <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n\n    <Style id="RedXIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <color>ff0000ff</color>\n         <Icon>\n            <href>x.png</href>\n         </Icon>\n          <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n\n    <Style id="BlackXIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <Icon>\n            <href>x.png</href>\n         </Icon>\n         <color>ff000000</color>\n         <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n\n    <Style id="YellowXIcon">\n      <IconStyle>\n         <scale>0.2</scale>\n         <Icon>\n            <href>x.png</href>\n         </Icon>\n         <color>ff00ffff</color>\n         <hotSpot x="0.5"  y="0.5" xunits="fraction" yunits="fraction"/>\n      </IconStyle>\n      <LabelStyle>\n         <color>00000000</color>\n      </LabelStyle>\n    </Style>\n'

@ const gnome.outputters.kmz_templates.point_template
'             <Point>\n                     <altitudeMode>relativeToGround</altitudeMode>\n                     <coordinates>{:.6f},{:.6f},1.000000</coordinates>\n             </Point>\n'

@ const gnome.outputters.kmz_templates.timestep_header_template
'<Folder>\n  <name>{date_string}:{certain}</name>\n'

@ const gnome.outputters.kmz_templates.one_run_header
'    <Placemark>\n      <name>{certain} {status} Splots </name>\n      <styleUrl>{style}</styleUrl>\n      <TimeSpan id="ID">\n        <begin>{start_time}</begin>     <!-- kml:dateTime -->\n        <end>{end_time}</end>         <!-- kml:dateTime -->\n      </TimeSpan>\n      <MultiGeometry>\n'

@ const gnome.outputters.kmz_templates.one_run_footer
'      </MultiGeometry>\n    </Placemark>\n'

@ const gnome.outputters.kmz_templates.timestep_footer
'\n</Folder>\n'

@ const gnome.outputters.kmz_templates.footer
'\n  </Document>\n</kml>\n'

@ gnome.outputters.shape.ShapeOutput.__init__
def __init__(self, filename, zip_output=True, include_certain_boundary=False, certain_boundary_separate_by_spill=True, certain_boundary_hull_ratio=0.5, certain_boundary_hull_allow_holes=False, include_uncertain_boundary=True, include_certain_in_uncertain_boundary=True, uncertain_boundary_separate_by_spill=True, uncertain_boundary_hull_ratio=0.5, uncertain_boundary_hull_allow_holes=False, timeoffset=None, surface_conc='kde', **kwargs):
    super(ShapeOutput, self).__init__(surface_conc=surface_conc, **kwargs)
    pathlib_path = pathlib.Path(filename)
    if zip_output or include_certain_boundary or include_uncertain_boundary:
        self.filename = pathlib_path.with_suffix('.zip')
    else:
        self.filename = pathlib_path.with_suffix('.shp')
    self.filenamestem = pathlib_path.stem
    self.filedir = str(pathlib_path.parent)
    self.tempdir = tempfile.TemporaryDirectory(prefix='gnome.')
    base_shapefile_name = os.path.join(self.tempdir.name, self.filenamestem)
    self.shapefile_name_certain = base_shapefile_name + '_certain'
    self.shapefile_name_certain_boundary = base_shapefile_name + '_certain_boundary'
    self.shapefile_name_uncertain = base_shapefile_name + '_uncertain'
    self.shapefile_name_uncertain_boundary = base_shapefile_name + '_uncertain_boundary'
    self.timeoffset = timeoffset
    self.zip_output = zip_output
    self.include_certain_boundary = include_certain_boundary
    self.certain_boundary_separate_by_spill = certain_boundary_separate_by_spill
    self.certain_boundary_hull_ratio = certain_boundary_hull_ratio
    self.certain_boundary_hull_allow_holes = certain_boundary_hull_allow_holes
    self.include_uncertain_boundary = include_uncertain_boundary
    self.include_certain_in_uncertain_boundary = include_certain_in_uncertain_boundary
    self.uncertain_boundary_separate_by_spill = uncertain_boundary_separate_by_spill
    self.uncertain_boundary_hull_ratio = uncertain_boundary_hull_ratio
    self.uncertain_boundary_hull_allow_holes = uncertain_boundary_hull_allow_holes
    self.shapefile_builder_certain = ParticleShapefileBuilder(self.shapefile_name_certain, zip_output=zip_output, timeoffset=self.timeoffset)
    self.shapefile_builder_certain_boundary = BoundaryShapefileBuilder(self.shapefile_name_certain_boundary, zip_output=zip_output, timeoffset=self.timeoffset)
    self.shapefile_builder_uncertain = ParticleShapefileBuilder(self.shapefile_name_uncertain, zip_output=zip_output, timeoffset=self.timeoffset)
    self.shapefile_builder_uncertain_boundary = BoundaryShapefileBuilder(self.shapefile_name_uncertain_boundary, zip_output=zip_output, timeoffset=self.timeoffset)

@ gnome.outputters.shape.ShapeOutput.__del__
def __del__(self):
    self.tempdir.cleanup()

@ gnome.outputters.shape.ShapeOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, uncertain=False, **kwargs):
    super(ShapeOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    if not self.on:
        return
    self.model_start_time = model_start_time
    self.spills = spills
    self.uncertain = uncertain
    if uncertain:
        self.filename = self.filename.with_suffix('.zip')

@ gnome.outputters.shape.ShapeOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(ShapeOutput, self).write_output(step_num, islast_step)
    if not self.on:
        return None
    sp = self.cache.load_timestep(step_num).items()
    for sc in sp:
        if self._write_step:
            if sc.uncertain:
                self.shapefile_builder_uncertain.append(sc)
                if self.include_uncertain_boundary:
                    karg = {'separate_by_spill': self.uncertain_boundary_separate_by_spill, 'hull_ratio': self.uncertain_boundary_hull_ratio, 'hull_allow_holes': self.uncertain_boundary_hull_allow_holes}
                    if self.include_certain_in_uncertain_boundary:
                        self.shapefile_builder_uncertain_boundary.append(sp, **karg)
                    else:
                        self.shapefile_builder_uncertain_boundary.append(sc, **karg)
            else:
                self.shapefile_builder_certain.append(sc)
                if self.include_certain_boundary:
                    karg = {'separate_by_spill': self.certain_boundary_separate_by_spill, 'hull_ratio': self.certain_boundary_hull_ratio, 'hull_allow_holes': self.certain_boundary_hull_allow_holes}
                    self.shapefile_builder_certain_boundary.append(sc, **karg)
    if not self._write_step:
        return None
    output_info = {'time_stamp': sc.current_time_stamp.isoformat(), 'output_filename': str(self.filename)}
    return output_info

@ gnome.outputters.shape.ShapeOutput.post_model_run
def post_model_run(self):
    try:
        self.shapefile_builder_certain.write()
        if self.include_certain_boundary:
            self.shapefile_builder_certain_boundary.write()
        if self.uncertain:
            self.shapefile_builder_uncertain.write()
            if self.include_uncertain_boundary:
                self.shapefile_builder_uncertain_boundary.write()
    except Exception as exception:
        data_string = f'self.on={self.on!r}, self.model_start_time={self.model_start_time!r}, self.output_single_step={self.output_single_step!r}, self.output_zero_step={self.output_zero_step!r}, self.output_last_step={self.output_last_step!r}, self.output_timestep={self.output_timestep!r}, self.output_start_time={self.output_start_time!r}'
        raise
    if self.uncertain is True:
        shutil.copy(self.create_bundle(uncertain=True), self.filename)
    elif self.zip_output:
        if self.include_certain_boundary:
            shutil.copy(self.create_bundle(uncertain=False), self.filename)
        else:
            shutil.copy(self.shapefile_builder_certain.filename, self.filename)
    else:
        fn = self.shapefile_builder_certain.filename
        for f in fn.parent.glob(fn.with_suffix('.*').name):
            pathlib_path = pathlib.Path(f)
            stem = pathlib_path.stem.removesuffix('_certain')
            suffix = pathlib_path.suffix
            shutil.copy(f, pathlib.Path(self.filedir, stem + suffix))
        fn = self.shapefile_builder_certain_boundary.filename
        for f in fn.parent.glob(fn.with_suffix('.*').name):
            pathlib_path = pathlib.Path(f)
            stem = pathlib_path.stem.removesuffix('_certain_boundary') + '_boundary'
            suffix = pathlib_path.suffix
            shutil.copy(f, pathlib.Path(self.filedir, stem + suffix))

@ gnome.outputters.shape.ShapeOutput.create_bundle
def create_bundle(self, uncertain):
    zipf_filename = os.path.join(self.tempdir.name, self.filenamestem) + '_bundle.zip'
    zipf = zipfile.ZipFile(zipf_filename, 'w')
    dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
    zipf.write(self.shapefile_builder_certain.filename, arcname=file_to_zip)
    if self.include_certain_boundary:
        dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
        zipf.write(self.shapefile_builder_certain_boundary.filename, arcname=file_to_zip)
    if uncertain:
        dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
        zipf.write(self.shapefile_builder_uncertain.filename, arcname=file_to_zip)
        if self.include_uncertain_boundary:
            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
            zipf.write(self.shapefile_builder_uncertain_boundary.filename, arcname=file_to_zip)
    zipf.close()
    return zipf_filename

@ gnome.outputters.shape.ShapeOutput.rewind
def rewind(self):
    super(ShapeOutput, self).rewind()
    self._middle_of_run = False
    self._start_idx = 0

@ gnome.outputters.shape.ShapeOutput.clean_output_files
def clean_output_files(self):
    super(ShapeOutput, self).clean_output_files()
    self.shapefile_builder_certain.rewind()
    self.shapefile_builder_certain_boundary.rewind()
    self.shapefile_builder_uncertain.rewind()
    self.shapefile_builder_uncertain_boundary.rewind()

@ const gnome.outputters.shape.ShapeOutput._schema
ShapeSchema

@ const gnome.outputters.shape.ShapeOutput.time_formatter
'%m/%d/%Y %H:%M'

@ gnome.outputters.netcdf.NetCDFOutput.__init__
def __init__(self, filename, zip_output=False, which_data='standard', compress=True, surface_conc='kde', _start_idx=0, **kwargs):
    super(NetCDFOutput, self).__init__(filename=filename, surface_conc=surface_conc, **kwargs)
    name, ext = os.path.splitext(self.filename)
    if zip_output is True and ext == '.zip':
        ext = '.nc'
    self._u_filename = '{0}_uncertain{1}'.format(name, ext)
    self.forecast_filename = '{0}{1}'.format(name, ext)
    self.zip_filename = '{0}.{1}'.format(name, 'zip')
    self.name = os.path.split(filename)[1]
    self.zip_output = zip_output
    if self.zip_output is True:
        self.filename = self.zip_filename
    if which_data.lower() in self.which_data_lu:
        self._which_data = which_data.lower()
    else:
        raise ValueError()
    self.arrays_to_output = set(self.standard_arrays)
    self._format = 'NETCDF4'
    if compress in self.compress_lu:
        self._compress = compress
    else:
        raise ValueError()
    self._chunksize = 1024
    self._start_idx = _start_idx
    self._var_attributes = {'spill_num': {'spills_map': ''}, 'time': {'units': ''}}

@ getter gnome.outputters.netcdf.NetCDFOutput.uncertain_filename
def uncertain_filename(self):
    return self._u_filename

@ getter gnome.outputters.netcdf.NetCDFOutput.which_data
def which_data(self):
    return self._which_data

@ setter gnome.outputters.netcdf.NetCDFOutput.which_data
def which_data(self, value):
    if value == self._which_data:
        return
    if self.middle_of_run:
        raise AttributeError()
    if value in self.which_data_lu:
        self._which_data = value
    else:
        raise ValueError()

@ getter gnome.outputters.netcdf.NetCDFOutput.chunksize
def chunksize(self):
    return self._chunksize

@ setter gnome.outputters.netcdf.NetCDFOutput.chunksize
def chunksize(self, value):
    if self.middle_of_run:
        raise AttributeError()
    else:
        self._chunksize = value

@ getter gnome.outputters.netcdf.NetCDFOutput.compress
def compress(self):
    return self._compress

@ setter gnome.outputters.netcdf.NetCDFOutput.compress
def compress(self, value):
    if self.middle_of_run:
        raise AttributeError()
    if value in self.compress_lu:
        self._compress = value
    else:
        raise ValueError()

@ getter gnome.outputters.netcdf.NetCDFOutput.netcdf_format
def netcdf_format(self):
    return self._format

@ gnome.outputters.netcdf.NetCDFOutput._update_var_attributes
def _update_var_attributes(self, spills):
    names = ' '.join(['{0}: {1}, '.format(ix, spill.name) for ix, spill in enumerate(spills)])
    self._var_attributes['spill_num']['spills_map'] = names
    self._var_attributes['time']['units'] = 'seconds since {0}'.format(self._model_start_time.isoformat())

@ gnome.outputters.netcdf.NetCDFOutput._initialize_rootgrp
def _initialize_rootgrp(self, rootgrp, sc):
    rootgrp.setncatts(self.cf_attributes)
    rootgrp.setncattr('creation_date', datetime.now().replace(microsecond=0).isoformat())
    weathering_sz = None
    dims = [('time', None), ('data', None), ('two', 2), ('three', 3)]
    if 'mass_components' in sc:
        weathering_sz = (sc.num_released, sc['mass_components'].shape[1])
        dims.append(('weathering', weathering_sz[1]))
    for dim in dims:
        rootgrp.createDimension(dim[0], dim[1])
    return rootgrp

@ gnome.outputters.netcdf.NetCDFOutput._update_arrays_to_output
def _update_arrays_to_output(self, sc):
    if self.which_data in ('all', 'most'):
        for var_name in sc.data_arrays:
            if var_name != 'positions':
                self.arrays_to_output.add(var_name)
        if self.which_data == 'most':
            for var_name in self.usually_skipped_arrays:
                self.arrays_to_output.discard(var_name)
    to_remove = set()
    for var_name in self.arrays_to_output:
        if var_name not in sc and var_name not in self.special_arrays:
            to_remove.add(var_name)
    self.arrays_to_output -= to_remove

@ gnome.outputters.netcdf.NetCDFOutput.prepare_for_model_run
def prepare_for_model_run(self, model_start_time, spills, uncertain=False, **kwargs):
    if not self.on:
        return
    super(NetCDFOutput, self).prepare_for_model_run(model_start_time, spills, **kwargs)
    self.uncertain = uncertain
    self._check_is_dir(self.filename)
    self._update_var_attributes(spills)
    for sc in self.sc_pair.items():
        if sc.uncertain:
            file_ = self._u_filename
        else:
            file_ = self.forecast_filename
        self._file_exists_error(file_)
        with nc.Dataset(file_, 'w', format=self._format) as rootgrp:
            self._initialize_rootgrp(rootgrp, sc)
            d_dims = {len(dim): name for name, dim in rootgrp.dimensions.items() if len(dim) > 0}
            self._create_nc_var(rootgrp, 'time', np.float64, ('time',), (self._chunksize,))
            self._create_nc_var(rootgrp, 'particle_count', np.int32, ('time',), (self._chunksize,))
            self._update_arrays_to_output(sc)
            for var_name in self.arrays_to_output:
                if var_name in ('latitude', 'longitude', 'depth'):
                    dt = world_point_type
                    shape = ('data',)
                    chunksz = (self._chunksize,)
                else:
                    try:
                        dt = sc[var_name].dtype
                    except KeyError:
                        pass
                    else:
                        if len(sc[var_name].shape) == 1:
                            shape = ('data',)
                            chunksz = (self._chunksize,)
                        else:
                            y_sz = d_dims[sc[var_name].shape[1]]
                            shape = ('data', y_sz)
                            chunksz = (self._chunksize, sc[var_name].shape[1])
                self._create_nc_var(rootgrp, var_name, dt, shape, chunksz)
            if sc.mass_balance:
                grp = rootgrp.createGroup('mass_balance')
                grp.createDimension('time', None)
                self._create_nc_var(grp, var_name='time', dtype='float', shape=('time',), chunksz=(256,))
                for key in sc.mass_balance:
                    self._create_nc_var(grp, var_name=key, dtype='float', shape=('time',), chunksz=(256,))
    self.cleaned_up = False
    self._start_idx = 0

@ gnome.outputters.netcdf.NetCDFOutput._create_nc_var
def _create_nc_var(self, grp, var_name, dtype, shape, chunksz):
    if dtype == bool:
        dtype = 'u1'
    try:
        var = grp.createVariable(var_name, dtype, shape, zlib=self._compress, chunksizes=chunksz)
    except RuntimeError as err:
        msg = '\narguments are:\n\tvar_name: {}\n\tdtype: {}\n\tshape: {}\n\tdims: {}\n\tzlib: {}\n\tchunksizes: {}\n'.format(var_name, dtype, shape, grp.dimensions, self._compress, chunksz)
        err.args = (err.args[0] + msg,)
        raise err
    if var_name in var_attributes:
        var.setncatts(var_attributes[var_name])
    if var_name in self._var_attributes:
        var.setncatts(self._var_attributes[var_name])
    return var

@ gnome.outputters.netcdf.NetCDFOutput.write_output
def write_output(self, step_num, islast_step=False):
    super(NetCDFOutput, self).write_output(step_num, islast_step)
    if self.on is False:
        return None
    if self._write_step:
        for sc in self.cache.load_timestep(step_num).items():
            if sc.uncertain and self._u_filename is not None:
                file_ = self._u_filename
            else:
                file_ = self.forecast_filename
            time_stamp = sc.current_time_stamp
            with nc.Dataset(file_, 'a') as rootgrp:
                rg_vars = rootgrp.variables
                idx = len(rg_vars['time'])
                rg_vars['time'][idx] = nc.date2num(time_stamp, rg_vars['time'].units, rg_vars['time'].calendar)
                pc = rg_vars['particle_count']
                pc[idx] = len(sc)
                _start_idx = len(rootgrp.dimensions['data'])
                _end_idx = _start_idx + pc[idx]
                for var_name in self.arrays_to_output:
                    if var_name == 'longitude':
                        rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                    elif var_name == 'latitude':
                        rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                    elif var_name == 'depth':
                        rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                    else:
                        rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
                if sc.mass_balance:
                    grp = rootgrp.groups['mass_balance']
                    grp.variables['time'][idx] = nc.date2num(time_stamp, grp.variables['time'].units, grp.variables['time'].calendar)
                    for key, val in sc.mass_balance.items():
                        if key not in grp.variables:
                            self._create_nc_var(grp, key, 'float', ('time',), (self._chunksize,))
                        grp.variables[key][idx] = val
    if not self._write_step:
        return None
    self._start_idx = _end_idx
    return {'filename': (self.filename, self._u_filename), 'time_stamp': time_stamp.isoformat()}

@ gnome.outputters.netcdf.NetCDFOutput.post_model_run
def post_model_run(self):
    if not self.cleaned_up:
        if self.zip_output is True:
            self._zip_output_files()
    self.cleaned_up = True

@ gnome.outputters.netcdf.NetCDFOutput._zip_output_files
def _zip_output_files(self):
    zfilename = self.zip_filename
    zipf = zipfile.ZipFile(zfilename, 'w')
    forcst_file = self.forecast_filename
    dir, file_to_zip = os.path.split(forcst_file)
    zipf.write(forcst_file, arcname=file_to_zip)
    os.remove(forcst_file)
    if self.uncertain is True:
        uncrtn_file = self._u_filename
        dir, file_to_zip = os.path.split(uncrtn_file)
        zipf.write(uncrtn_file, arcname=file_to_zip)
        os.remove(uncrtn_file)
    zipf.close()

@ gnome.outputters.netcdf.NetCDFOutput.clean_output_files
def clean_output_files(self):
    OutputterFilenameMixin.clean_output_files(self)
    try:
        os.remove(self._u_filename)
    except OSError:
        pass
    try:
        os.remove(self.forecast_filename)
    except OSError:
        pass

@ gnome.outputters.netcdf.NetCDFOutput.rewind
def rewind(self):
    super(NetCDFOutput, self).rewind()
    self._start_idx = 0

@ gnome.outputters.netcdf.NetCDFOutput.read_data
def read_data(klass, netcdf_file, time=None, index=None, which_data='standard'):
    if not os.path.exists(netcdf_file):
        raise IOError()
    arrays_dict = {}
    with nc.Dataset(netcdf_file) as data:
        _start_ix = 0
        time_ = data.variables['time']
        if time is None and index is None:
            if len(time_) > 1:
                raise ValueError()
            else:
                index = 0
        elif time is not None:
            time_offset = nc.date2num(time, time_.units, calendar=time_.calendar)
            if time_offset < 0:
                index = 0
            else:
                index = abs(time_[:] - time_offset).argmin()
        elif index is not None:
            if index < 0:
                index = len(time_) + index
        for idx in range(index):
            _start_ix += data.variables['particle_count'][idx]
        _stop_ix = _start_ix + data.variables['particle_count'][index]
        elem = data.variables['particle_count'][index]
        c_time = nc.num2date(time_[index], time_.units, calendar=time_.calendar)
        arrays_dict['current_time_stamp'] = np.array(c_time)
        if which_data == 'standard':
            data_arrays = set(klass.standard_arrays)
            [data_arrays.discard(x) for x in ('latitude', 'longitude', 'depth')]
            data_arrays.add('positions')
        elif which_data == 'all':
            data_arrays = set(data.variables.keys())
            [data_arrays.discard(x) for x in ('time', 'particle_count', 'latitude', 'longitude', 'depth')]
            data_arrays.add('positions')
        else:
            data_arrays = set(which_data)
        for array_name in data_arrays:
            if array_name == 'positions':
                positions = np.zeros((elem, 3), dtype=world_point_type)
                positions[:, 0] = data.variables['longitude'][_start_ix:_stop_ix]
                positions[:, 1] = data.variables['latitude'][_start_ix:_stop_ix]
                positions[:, 2] = data.variables['depth'][_start_ix:_stop_ix]
                arrays_dict['positions'] = positions
            else:
                try:
                    arrays_dict[array_name] = data.variables[array_name][_start_ix:_stop_ix]
                except KeyError:
                    pass
        weathering_data = {}
        if 'mass_balance' in data.groups:
            mb = data.groups['mass_balance']
            for key, val in mb.variables.items():
                weathering_data[key] = val[index]
    return (arrays_dict, weathering_data)

@ const gnome.outputters.netcdf.NetCDFOutput.which_data_lu
{'standard', 'most', 'all'}

@ const gnome.outputters.netcdf.NetCDFOutput.compress_lu
{True, False}

@ const gnome.outputters.netcdf.NetCDFOutput.cf_attributes
{'comment': 'Particle output from the NOAA PyGnome model', 'source': 'PyGnome version {0}'.format(__version__), 'references': 'TBD', 'feature_type': 'particle_trajectory', 'institution': 'NOAA Emergency Response Division', 'conventions': 'CF-1.6'}

@ const gnome.outputters.netcdf.NetCDFOutput.standard_arrays
['latitude', 'longitude', 'depth', 'status_codes', 'spill_num', 'id', 'mass', 'age', 'density', 'viscosity', 'frac_water', 'surface_concentration']

@ const gnome.outputters.netcdf.NetCDFOutput.special_arrays
set(('latitude', 'longitude', 'depth'))

@ const gnome.outputters.netcdf.NetCDFOutput.usually_skipped_arrays
['next_positions', 'last_water_positions', 'windages', 'mass_components', 'half_lives', 'init_mass', 'interfacial_area', 'fay_area', 'bulk_init_volume', 'frac_coverage', 'bulltime', 'partition_coeff', 'evap_decay_constant', 'yield_factor']

@ const gnome.outputters.netcdf.NetCDFOutput._schema
NetCDFOutputSchema

@ const gnome.outputters.netcdf._CODES_TO_EXCLUDE
{'not_released', 'off_maps', 'evaporated', 'to_be_removed'}

@ const gnome.outputters.netcdf.var_attributes
{'time': {'long_name': 'time since the beginning of the simulation', 'standard_name': 'time', 'calendar': 'gregorian', 'standard_name': 'time', 'comment': 'unspecified time zone'}, 'particle_count': {'units': '1', 'long_name': 'number of particles in a given timestep', 'ragged_row_count': 'particle count at nth timestep'}, 'longitude': {'long_name': 'longitude of the particle', 'standard_name': 'longitude', 'units': 'degrees_east'}, 'latitude': {'long_name': 'latitude of the particle', 'standard_name': 'latitude', 'units': 'degrees_north'}, 'depth': {'long_name': 'particle depth below sea surface', 'standard_name': 'depth', 'units': 'meters', 'axis': 'z positive down'}, 'mass': {'long_name': 'mass of particle', 'units': 'kilograms'}, 'age': {'long_name': 'age of particle from time of release', 'units': 'seconds'}, 'status_codes': {'long_name': 'particle status code', 'flag_values': status_code_flag_values, 'flag_meanings': status_code_flag_meetings}, 'spill_num': {'long_name': 'spill to which the particle belongs'}, 'id': {'long_name': 'particle ID'}, 'density': {'long_name': 'emulsion density at end of timestep', 'units': 'kg/m^3'}, 'viscosity': {'long_name': 'emulsion viscosity at end of timestep', 'units': 'm^2/sec'}, 'oil_density': {'long_name': 'oil density at end of timestep', 'units': 'kg/m^3'}, 'oil_viscosity': {'long_name': 'oil viscosity at end of timestep', 'units': 'm^2/sec'}, 'droplet_diameter': {'long_name': 'diameter of oil droplet class', 'units': 'meters'}, 'rise_vel': {'long_name': 'rise velocity of oil droplet class', 'units': 'm s-1'}, 'surface_concentration': {'long_name': 'surface concentration of oil', 'units': 'g m-2'}, 'windages': {}, 'windage_range': {}, 'windage_persist': {}, 'next_positions': {}, 'last_water_positions': {}, 'bulk_init_volume': {}, 'interfacial_area': {}, 'area': {}, 'fay_area': {}, 'frac_coverage': {}, 'bulltime': {}, 'evap_decay_constant': {}, 'yield_factor': {}, 'partition_coeff': {}, 'droplet_avg_size': {}, 'init_mass': {'long_name': 'initial mass', 'units': 'kilograms'}, 'mass_components': {}, 'fate_status': {}, 'standard_density': {'long_name': 'density of substance used to convert mass to/from volume', 'units': 'kg/m^3'}, 'floating': {'long_name': 'total mass floating in water after each time step', 'units': 'kilograms'}, 'beached': {'long_name': 'total mass on the shoreline after each time step', 'units': 'kilograms'}, 'off_maps': {'long_name': 'total mass that has left the map since the beginning of model run', 'units': 'kilograms'}, 'evaporated': {'long_name': 'total mass evaporated since beginning of model run', 'units': 'kilograms'}, 'natural_dispersion': {'long_name': 'total mass dispersed since beginning of model run', 'units': 'kilograms'}, 'sedimentation': {'long_name': 'total mass lost due to sedimentation since beginning of model run', 'units': 'kilograms'}, 'dissolution': {'long_name': 'total mass dissolved since beginning of model run', 'units': 'kilograms'}, 'water_content': {'long_name': 'fraction of total mass that is water after each time step'}, 'frac_water': {'long_name': 'water fraction after each time step'}, 'frac_lost': {'long_name': 'fraction of total mass that is lost after each time step'}, 'frac_evap': {'long_name': 'fraction of total mass that is evaporated after each time step'}, 'avg_density': {'long_name': 'average density at end of timestep', 'units': 'kg/m^3'}, 'avg_viscosity': {'long_name': 'average viscosity at end of timestep', 'units': 'm^2/sec'}, 'amount_released': {'long_name': 'total mass of oil released thus far', 'units': 'kg'}, 'non_weathering': {'long_name': 'total mass of oil that does not weather after each time step', 'units': 'kg'}, 'chem_dispersed': {'long_name': 'total mass chemically dispersed since beginning of model run', 'units': 'kilograms'}, 'skimmed': {'long_name': 'total mass skimmed since beginning of model run', 'units': 'kilograms'}, 'burned': {'long_name': 'total mass burned since beginning of model run', 'units': 'kilograms'}}

@ const gnome.outputters.netcdf.NetCDFOutputSchema.filename
FilenameSchema(missing=drop, save=True, update=False, test_equal=False)

@ const gnome.outputters.netcdf.NetCDFOutputSchema.which_data
SchemaNode(String(), default='standard', missing=drop, save=True, update=True)

@ const gnome.outputters.netcdf.NetCDFOutputSchema.compress
SchemaNode(Bool(), missing=drop, save=True, update=True)

@ const gnome.outputters.netcdf.NetCDFOutputSchema._start_idx
SchemaNode(Int(), missing=drop, save=True, read_only=True, test_equal=False)

@ const gnome.outputters.netcdf.NetCDFOutputSchema._middle_of_run
SchemaNode(Bool(), missing=drop, save=True, read_only=True, test_equal=False)

@ const gnome.outputters.netcdf.NetCDFOutputSchema.zip_output
SchemaNode(Boolean(), missing=drop, save=True, update=True)

@ const gnome.outputters.netcdf.NetCDFOutput.which_data_lu
{'standard', 'most', 'all'}

@ const gnome.outputters.netcdf.NetCDFOutput.compress_lu
{True, False}

@ const gnome.outputters.netcdf.NetCDFOutput.cf_attributes
{'comment': 'Particle output from the NOAA PyGnome model', 'source': 'PyGnome version {0}'.format(__version__), 'references': 'TBD', 'feature_type': 'particle_trajectory', 'institution': 'NOAA Emergency Response Division', 'conventions': 'CF-1.6'}

@ const gnome.outputters.netcdf.NetCDFOutput.standard_arrays
['latitude', 'longitude', 'depth', 'status_codes', 'spill_num', 'id', 'mass', 'age', 'density', 'viscosity', 'frac_water', 'surface_concentration']

@ const gnome.outputters.netcdf.NetCDFOutput.special_arrays
set(('latitude', 'longitude', 'depth'))

@ const gnome.outputters.netcdf.NetCDFOutput.usually_skipped_arrays
['next_positions', 'last_water_positions', 'windages', 'mass_components', 'half_lives', 'init_mass', 'interfacial_area', 'fay_area', 'bulk_init_volume', 'frac_coverage', 'bulltime', 'partition_coeff', 'evap_decay_constant', 'yield_factor']

@ const gnome.outputters.netcdf.NetCDFOutput._schema
NetCDFOutputSchema

@ func gnome.utilities.shapefile_builder.area_in_meters
def area_in_meters(this_hull):
    schema = {'geometry': [this_hull]}
    geodataframe = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='geometry')
    geodataframe_3857 = geodataframe.to_crs(epsg=3857)
    return geodataframe_3857.area[0]

@ gnome.utilities.shapefile_builder.ShapefileBuilder.__init__
def __init__(self, filename, zip_output=True, timeoffset=None, **kwargs):
    pathlib_path = pathlib.Path(filename)
    self.zip_output = zip_output
    self.timeoffset = timeoffset
    if zip_output:
        self.fullfilename = pathlib_path.with_suffix('.zip')
    else:
        self.fullfilename = pathlib_path.with_suffix('.shp')
    self.filenamestem = pathlib_path.stem
    self.filenamepath = str(pathlib_path.parent)
    self.data_frames = []
    self.geometry_type = None

@ gnome.utilities.shapefile_builder.ShapefileBuilder.append
def append(self, sc):
    pass

@ gnome.utilities.shapefile_builder.ShapefileBuilder.write
def write(self):
    if self.data_frames:
        full_gdf = gpd.GeoDataFrame(pd.concat(self.data_frames, ignore_index=True))
    else:
        full_gdf = gpd.GeoDataFrame(geometry=[], crs='epsg:4326')
    full_gdf.set_crs('epsg:4326')
    if self.zip_output:
        shz_name = self.fullfilename.with_suffix('.shz')
        full_gdf.to_file(shz_name, driver='ESRI Shapefile', engine='pyogrio', geometry_type=self.geometry_type)
        shutil.move(shz_name, self.fullfilename)
    else:
        full_gdf.to_file(self.fullfilename, driver='ESRI Shapefile', engine='pyogrio', geometry_type=self.geometry_type)
    return self.fullfilename

@ gnome.utilities.shapefile_builder.ShapefileBuilder.rewind
def rewind(self):
    self.data_frames = []

@ getter gnome.utilities.shapefile_builder.ShapefileBuilder.filename
def filename(self):
    return self.fullfilename

@ gnome.utilities.shapefile_builder.ParticleShapefileBuilder.__init__
def __init__(self, filename, zip_output=True, timeoffset=None, **kwargs):
    super(ParticleShapefileBuilder, self).__init__(filename, zip_output, timeoffset, **kwargs)

@ gnome.utilities.shapefile_builder.ParticleShapefileBuilder.append
def append(self, sc):
    super(ParticleShapefileBuilder, self).append(sc)
    current_datetime_utc = None
    if self.timeoffset is not None:
        current_timezone_by_offset = datetime.timezone(datetime.timedelta(minutes=int(self.timeoffset * 60)))
        current_datetime_with_offset = sc.current_time_stamp.replace(tzinfo=current_timezone_by_offset)
        current_datetime_utc = current_datetime_with_offset.astimezone(datetime.timezone.utc).isoformat()
    frame_data = {'LE_id': sc['id'], 'Spill_id': sc['spill_num'], 'Depth': [pos[2] for pos in sc['positions']], 'Mass': sc['mass'], 'Age': sc['age'], 'StatusCode': sc['status_codes'], 'Time': sc.current_time_stamp.strftime('%Y-%m-%dT%H:%M:%S'), 'Position': [Point(pt) for pt in sc['positions']]}
    if current_datetime_utc is not None:
        frame_data['Time_UTC'] = current_datetime_utc
    if 'surface_concentration' in sc and (not sc.uncertain):
        frame_data['Surf_Conc'] = sc['surface_concentration']
    if 'viscosity' in sc:
        frame_data['Viscosity'] = sc['viscosity']
    if 'frac_water' in sc:
        frame_data['FracWater'] = sc['frac_water']
    if 'density' in sc:
        frame_data['Density'] = sc['density']
    gdf = gpd.GeoDataFrame(frame_data, crs='epsg:4326', geometry='Position')
    if 'surface_concentration' in sc and (not sc.uncertain):
        gdf = gdf.loc[gdf['Surf_Conc'].sort_values().index]
    self.data_frames.append(gdf)

@ gnome.utilities.shapefile_builder.ParticleShapefileBuilder.write
def write(self):
    if not self.data_frames:
        self.geometry_type = 'Point'
    super(ParticleShapefileBuilder, self).write()

@ gnome.utilities.shapefile_builder.BoundaryShapefileBuilder.__init__
def __init__(self, filename, zip_output=True, timeoffset=None, **kwargs):
    super(BoundaryShapefileBuilder, self).__init__(filename, zip_output, timeoffset, **kwargs)

@ gnome.utilities.shapefile_builder.BoundaryShapefileBuilder.append
def append(self, sc, separate_by_spill=True, hull_ratio=0.5, hull_allow_holes=False):
    super(BoundaryShapefileBuilder, self).append(sc)
    current_time_stamp = None
    if isinstance(sc, (tuple, list)):
        current_time_stamp = sc[0].current_time_stamp
    else:
        current_time_stamp = sc.current_time_stamp
    current_datetime_utc = None
    if self.timeoffset is not None:
        current_timezone_by_offset = datetime.timezone(datetime.timedelta(minutes=int(self.timeoffset * 60)))
        current_datetime_with_offset = current_time_stamp.replace(tzinfo=current_timezone_by_offset)
        current_datetime_utc = current_datetime_with_offset.astimezone(datetime.timezone.utc).isoformat()
    union_results = True
    hull = calculate_hull(sc, separate_by_spill=separate_by_spill, ratio=hull_ratio, union_results=union_results, allow_holes=hull_allow_holes)
    if len(hull['hulls']):
        areas = []
        for h in hull['hulls']:
            areas.append(area_in_meters(h))
        if separate_by_spill:
            frame_data = {'geometry': hull['hulls'], 'spill_num': hull['spill_num'], 'area': areas, 'time': current_time_stamp.strftime('%Y-%m-%dT%H:%M:%S')}
        else:
            frame_data = {'geometry': hull['hulls'], 'area': areas, 'time': current_time_stamp.strftime('%Y-%m-%dT%H:%M:%S')}
        if current_datetime_utc is not None:
            frame_data['time_utc'] = current_datetime_utc
        gdf = gpd.GeoDataFrame(frame_data, crs='epsg:4326', geometry='geometry')
        self.data_frames.append(gdf)

@ gnome.utilities.shapefile_builder.BoundaryShapefileBuilder.write
def write(self):
    if not self.data_frames:
        self.geometry_type = 'Polygon'
    super(BoundaryShapefileBuilder, self).write()

@ gnome.outputters.renderer.Renderer.__init__
def __init__(self, map_filename=None, output_dir='./', image_size=(800, 600), projection=None, viewport=None, map_BB=None, land_polygons=None, draw_back_to_fore=True, draw_map_bounds=False, draw_spillable_area=False, formats=['png', 'gif'], draw_ontop='forecast', cache=None, output_timestep=None, output_zero_step=True, output_last_step=True, output_single_step=False, output_start_time=None, on=True, timestamp_attrib={}, point_size=2, depth_colors=None, min_color_depth=0, max_color_depth=100, **kwargs):
    projection = projections.FlatEarthProjection() if projection is None else projection
    self.output_dir = output_dir
    self.map_filename = map_filename
    if map_filename is not None and land_polygons is None:
        try:
            self.land_polygons = map_filename.get_polygons()['land_polys']
            self.map_filename = map_filename.filename
        except AttributeError:
            self.land_polygons = haz_files.ReadBNA(map_filename, 'PolygonSet')
    elif land_polygons is not None:
        self.land_polygons = land_polygons
    else:
        self.land_polygons = []
    self.last_filename = ''
    self.draw_ontop = draw_ontop
    self.draw_back_to_fore = draw_back_to_fore
    self.point_size = point_size
    Outputter.__init__(self, cache, on, output_timestep, output_zero_step, output_last_step, output_single_step, output_start_time, output_dir, **kwargs)
    if map_BB is None:
        if not self.land_polygons:
            map_BB = ((-180, -90), (180, 90))
        else:
            map_BB = self.land_polygons.bounding_box
    self.map_BB = map_BB
    viewport = self.map_BB if viewport is None else viewport
    MapCanvas.__init__(self, image_size, projection=projection, viewport=viewport)
    self.draw_map_bounds = draw_map_bounds
    self.draw_spillable_area = draw_spillable_area
    self.raster_map = None
    self.raster_map_fill = True
    self.raster_map_outline = False
    self.add_colors(self.map_colors)
    if depth_colors is not None:
        self.add_color_ramp(depth_colors, min_color_depth, max_color_depth)
    self.background_color = 'background'
    if self.map_filename is not None:
        file_prefix = os.path.splitext(self.map_filename)[0]
        sep = '_'
    else:
        file_prefix = sep = ''
    fn = '{}{}anim.gif'.format(file_prefix, sep)
    self.anim_filename = os.path.join(output_dir, fn)
    self.formats = formats
    self.delay = 50
    self.repeat = True
    self.timestamp_attribs = {}
    self.set_timestamp_attrib(**timestamp_attrib)
    self.grids = []
    self.props = []
    self.depth_colors = depth_colors

@ getter gnome.outputters.renderer.Renderer.delay
def delay(self):
    return self._delay if 'gif' in self.formats else -1

@ setter gnome.outputters.renderer.Renderer.delay
def delay(self, d):
    self._delay = d

@ getter gnome.outputters.renderer.Renderer.repeat
def repeat(self):
    return self._repeat if 'gif' in self.formats else False

@ setter gnome.outputters.renderer.Renderer.repeat
def repeat(self, r):
    self._repeat = r

@ getter gnome.outputters.renderer.Renderer.map_filename
def map_filename(self):
    return os.path.basename(self._filename) if self._filename is not None else None

@ setter gnome.outputters.renderer.Renderer.map_filename
def map_filename(self, name):
    self._filename = name

@ getter gnome.outputters.renderer.Renderer.draw_ontop
def draw_ontop(self):
    return self._draw_ontop

@ setter gnome.outputters.renderer.Renderer.draw_ontop
def draw_ontop(self, val):
    if val not in ['forecast', 'uncertain']:
        raise ValueError()
    self._draw_ontop = val

@ getter gnome.outputters.renderer.Renderer.formats
def formats(self):
    return self._formats

@ setter gnome.outputters.renderer.Renderer.formats
def formats(self, val):
    if isinstance(val, str):
        val = (val,)
    self._formats = val

@ gnome.outputters.renderer.Renderer.start_animation
def start_animation(self, filename):
    self.animation = py_gd.Animation(filename, self.delay, global_colormap=0)
    looping = 0 if self.repeat else -1
    self.animation.begin_anim(self.back_image, looping)

@ gnome.outputters.renderer.Renderer.prepare_for_model_run
def prepare_for_model_run(self, *args, **kwargs):
    super(Renderer, self).prepare_for_model_run(*args, **kwargs)
    self.clean_output_files()
    self.draw_background()
    for ftype in self.formats:
        if ftype == 'gif':
            self.start_animation(self.anim_filename)
        else:
            self.save_background(os.path.join(self.output_dir, self.background_map_name + ftype), file_type=ftype)

@ gnome.outputters.renderer.Renderer.set_timestamp_attrib
def set_timestamp_attrib(self, **kwargs):
    self.timestamp_attribs.update(kwargs)

@ gnome.outputters.renderer.Renderer.draw_timestamp
def draw_timestamp(self, time):
    d = self.timestamp_attribs
    on = d['on'] if 'on' in d else True
    if not on:
        return
    dt_format = d.get('format', '%c')
    background = d.get('background', 'white')
    color = d.get('color', 'black')
    size = d.get('size', 'small')
    default_position = (self.fore_image.width / 2, self.fore_image.height)
    position = d['position'] if 'position' in d else default_position
    align = d.get('alignment', 'cb')
    self.fore_image.draw_text(time.strftime(dt_format), position, size, color, align, background)

@ gnome.outputters.renderer.Renderer.clean_output_files
def clean_output_files(self):
    files = glob.glob(os.path.join(self.output_dir, self.background_map_name) + '*')
    files += glob.glob(os.path.join(self.output_dir, self.foreground_filename_glob))
    files += glob.glob(os.path.join(self.output_dir, self.anim_filename) + '*')
    for name in files:
        os.remove(name)

@ gnome.outputters.renderer.Renderer.draw_background
def draw_background(self):
    self.clear_background()
    self.draw_land()
    if self.raster_map is not None:
        self.draw_raster_map()
    self.draw_graticule()
    self.draw_tags()
    self.draw_grids()

@ gnome.outputters.renderer.Renderer.add_grid
def add_grid(self, grid, on=True, color='grid_1', width=2):
    layer = GridVisLayer(grid, self.projection, on, color, width)
    self.grids.append(layer)

@ gnome.outputters.renderer.Renderer.draw_grids
def draw_grids(self):
    for grid in self.grids:
        grid.draw_to_image(self.back_image)

@ gnome.outputters.renderer.Renderer.add_vec_prop
def add_vec_prop(self, prop, on=True, color='LE', mask_color='uncert_LE', size=3, width=1, scale=1000):
    layer = GridPropVisLayer(prop, self.projection, on, color, mask_color, size, width, scale)
    self.props.append(layer)

@ gnome.outputters.renderer.Renderer.draw_props
def draw_props(self, time):
    for prop in self.props:
        prop.draw_to_image(self.fore_image, time)

@ gnome.outputters.renderer.Renderer.draw_masked_nodes
def draw_masked_nodes(self, grid, time):
    if grid.appearance['on'] and grid.appearance['mask'] is not None:
        var = grid.appearance['mask']
        masked_nodes = grid.masked_nodes(time, var)
        dia = grid.appearance['n_size']
        unmasked_nodes = np.ascontiguousarray(masked_nodes.compressed().reshape(-1, 2))
        self.draw_points(unmasked_nodes, dia, 'black')
        masked = np.ascontiguousarray(masked_nodes[masked_nodes.mask].prop.reshape(-1, 2))
        self.draw_points(masked, dia, 'uncert_LE')

@ gnome.outputters.renderer.Renderer.draw_land
def draw_land(self):
    for poly in self.land_polygons:
        metadata = poly.metadata
        if metadata[1].strip().lower() == 'map bounds':
            if self.draw_map_bounds:
                self.draw_polygon(poly, line_color='map_bounds', fill_color=None, line_width=3, background=True)
        elif metadata[1].strip().lower().replace(' ', '') == 'spillablearea':
            if self.draw_spillable_area:
                self.draw_polygon(poly, line_color='spillable_area', fill_color=None, line_width=2, background=True)
        elif metadata[2] == '2':
            try:
                self.draw_polygon(poly, fill_color='lake', background=True)
            except ValueError:
                pass
        else:
            try:
                self.draw_polygon(poly, fill_color='land', background=True)
            except ValueError:
                pass
    return None

@ gnome.outputters.renderer.Renderer.draw_elements
def draw_elements(self, sc):
    if sc.num_released > 0:
        if sc.uncertain:
            color = 'uncert_LE'
        else:
            color = 'LE'
        positions = sc['positions']
        on_land = sc['status_codes'] == oil_status.on_land
        self.draw_points(positions[on_land], diameter=self.point_size, color=color, shape='x')
        on_tidal_flat = sc['status_codes'] == oil_status.on_tideflat
        self.draw_points(positions[on_tidal_flat], diameter=2, color='on_tidal_flat', shape='round')
        points_in_water = positions[~on_land & ~on_tidal_flat]
        if self.depth_colors is not None:
            color = self._color_ramp.get_color_indices(points_in_water[:, 2])
        self.draw_points(points_in_water, diameter=self.point_size, color=color, shape='round')

@ gnome.outputters.renderer.Renderer.draw_raster_map
def draw_raster_map(self):
    if self.raster_map is not None:
        raster_map = self.raster_map
        projection = raster_map.projection
        w, h = raster_map.raster.shape
        if self.raster_map_outline:
            for i in range(w):
                coords = projection.to_lonlat(np.array(((i, 0.0), (i, h)), dtype=np.float64))
                self.draw_polyline(coords, background=True, line_color='raster_map_outline')
            for i in range(h):
                coords = projection.to_lonlat(np.array(((0.0, i), (w, i)), dtype=np.float64))
                self.draw_polyline(coords, background=True, line_color='raster_map_outline')
        if self.raster_map_fill:
            for i in range(w):
                for j in range(h):
                    if raster_map.raster[i, j] == 1:
                        rect = projection.to_lonlat(np.array(((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)), dtype=np.float64))
                        self.draw_polygon(rect, fill_color='raster_map', background=True)

@ gnome.outputters.renderer.Renderer.write_output
def write_output(self, step_num, islast_step=False):
    super(Renderer, self).write_output(step_num, islast_step)
    if not self._write_step:
        return None
    image_filename = os.path.join(self.output_dir, self.foreground_filename_format.format(step_num))
    self.clear_foreground()
    if self.draw_back_to_fore:
        self.copy_back_to_fore()
    scp = self.cache.load_timestep(step_num).items()
    if len(scp) == 1:
        self.draw_elements(scp[0])
    elif self.draw_ontop == 'forecast':
        self.draw_elements(scp[1])
        self.draw_elements(scp[0])
    else:
        self.draw_elements(scp[0])
        self.draw_elements(scp[1])
    time_stamp = scp[0].current_time_stamp
    self.draw_timestamp(time_stamp)
    self.draw_props(time_stamp)
    for ftype in self.formats:
        if ftype == 'gif':
            self.animation.add_frame(self.fore_image, self.delay)
        else:
            image_filename = os.path.join(self.output_dir, self.foreground_filename_format.format(step_num) + ftype)
            self.save_foreground(image_filename, file_type=ftype)
    self.last_filename = image_filename
    return {'image_filename': image_filename, 'time_stamp': time_stamp}

@ gnome.outputters.renderer.Renderer.post_model_run
def post_model_run(self):
    if 'gif' in self.formats:
        self.animation.close_anim()

@ gnome.outputters.renderer.Renderer._draw
def _draw(self, step_num):
    scp = self.cache.load_timestep(step_num).items()
    if len(scp) == 1:
        self.draw_elements(scp[0])
    elif self.draw_ontop == 'forecast':
        self.draw_elements(scp[1])
        self.draw_elements(scp[0])
    else:
        self.draw_elements(scp[0])
        self.draw_elements(scp[1])
    return scp[0].current_time_stamp

@ const gnome.outputters.renderer.Renderer.map_colors
[('background', (255, 255, 255)), ('lake', (255, 255, 255)), ('land', (255, 204, 153)), ('LE', (0, 0, 0)), ('uncert_LE', (255, 0, 0)), ('map_bounds', (0, 0, 139)), ('spillable_area', (255, 0, 0)), ('raster_map', (51, 102, 0)), ('raster_map_outline', (0, 0, 0)), ('grid_1', (51, 78, 0)), ('grid_2', (175, 175, 175)), ('on_tidal_flat', (0, 255, 0))]

@ const gnome.outputters.renderer.Renderer.background_map_name
'background_map.'

@ const gnome.outputters.renderer.Renderer.foreground_filename_format
'foreground_{0:05d}.'

@ const gnome.outputters.renderer.Renderer.foreground_filename_glob
'foreground_?????.*'

@ const gnome.outputters.renderer.Renderer._schema
RendererSchema

@ gnome.outputters.animated_gif.Animation.__init__
def __init__(self, *args, **kwargs):
    self.repeat = True
    self.delay = 50
    if 'repeat' in kwargs:
        self.repeat = kwargs['repeat']
    if 'delay' in kwargs:
        self.delay = kwargs['delay']
    Renderer.__init__(self, *args, **kwargs)
    if 'filename' in kwargs:
        self.anim_filename = kwargs['filename']
    else:
        self.anim_filename = '{}_anim.gif'.format(os.path.splitext(self._filename)[0])

@ gnome.outputters.animated_gif.Animation.clean_output_files
def clean_output_files(self):
    try:
        os.remove(os.path.join(self.output_dir, self.background_map_name))
    except OSError:
        pass
    anim_file = os.path.join(self.output_dir, self.anim_filename)
    try:
        os.remove(anim_file)
    except OSError:
        pass

@ gnome.outputters.animated_gif.Animation.start_animation
def start_animation(self, filename):
    self.animation = py_gd.Animation(filename, self.delay)
    looping = 0 if self.repeat else -1
    self.animation.begin_anim(self.back_image, looping)

@ gnome.outputters.animated_gif.Animation.prepare_for_model_run
def prepare_for_model_run(self, *args, **kwargs):
    super(Renderer, self).prepare_for_model_run(*args, **kwargs)
    self.clean_output_files()
    self.draw_background()
    self.start_animation(os.path.join(self.anim_filename))

@ gnome.outputters.animated_gif.Animation.save_foreground_frame
def save_foreground_frame(self, animation, delay=50):
    self.animation.add_frame(self.fore_image, delay)

@ gnome.outputters.animated_gif.Animation.write_output
def write_output(self, step_num, islast_step=False):
    super(Renderer, self).write_output(step_num, islast_step)
    if not self._write_step:
        return None
    self.clear_foreground()
    if self.draw_back_to_fore:
        self.copy_back_to_fore()
    scp = self.cache.load_timestep(step_num).items()
    if len(scp) == 1:
        self.draw_elements(scp[0])
    elif self.draw_ontop == 'forecast':
        self.draw_elements(scp[1])
        self.draw_elements(scp[0])
    else:
        self.draw_elements(scp[0])
        self.draw_elements(scp[1])
    time_stamp = scp[0].current_time_stamp
    self.draw_timestamp(time_stamp)
    self.save_foreground_frame(self.animation, self.delay)

@ gnome.outputters.animated_gif.Animation.write_output_post_run
def write_output_post_run(self, **kwargs):
    self.animation.close_anim()

## R4 the cache gives back the element data of the step asked for
@ gnome.utilities.cache.ElementCache.__init__
def __init__(self, cache_dir=None, enabled=True):
    self._create_new_dir(cache_dir)
    self.recent = {}
    self.enabled = enabled
    self.lock = Lock()

@ gnome.utilities.cache.ElementCache.__del__
def __del__(self):
    with self.lock:
        if os.path.isdir(self._cache_dir):
            shutil.rmtree(self._cache_dir)

@ gnome.utilities.cache.ElementCache._make_filename
def _make_filename(self, step_num, uncertain=False):
    if uncertain:
        return os.path.join(self._cache_dir, 'step_%06i_uncert.npz' % step_num)
    else:
        return os.path.join(self._cache_dir, 'step_%06i.npz' % step_num)

@ gnome.utilities.cache.ElementCache._create_new_dir
def _create_new_dir(self, cache_dir=None):
    if cache_dir is None:
        self.cache_dir_obj = tempfile.TemporaryDirectory(dir=global_cache_dir)
        self._cache_dir = self.cache_dir_obj.name
    else:
        self._cache_dir = cache_dir
    return True

@ gnome.utilities.cache.ElementCache.save_timestep
def save_timestep(self, step_num, spill_container_pair):
    for sc in spill_container_pair.items():
        data = copy.deepcopy(sc.data_arrays)
        self._set_weathering_data(sc, data)
        if sc.current_time_stamp:
            data['current_time_stamp'] = np.array(sc.current_time_stamp)
        if sc.uncertain:
            self.recent[step_num][1] = data
        else:
            self.recent = {step_num: [data, None]}
        if self.enabled:
            filename = self._make_filename(step_num, sc.uncertain)
            np.savez(filename, **data)

@ gnome.utilities.cache.ElementCache.load_timestep
def load_timestep(self, step_num):
    try:
        data_arrays, u_data_arrays = copy.deepcopy(self.recent[step_num])
        if 'current_time_stamp' in data_arrays:
            data_arrays['current_time_stamp'] = np.array(data_arrays['current_time_stamp'])
            if u_data_arrays:
                u_data_arrays['current_time_stamp'] = np.array(u_data_arrays['current_time_stamp'])
    except KeyError:
        try:
            data_arrays = dict(np.load(self._make_filename(step_num), allow_pickle=True))
        except IOError:
            raise CacheError()
        try:
            u_data_arrays = dict(np.load(self._make_filename(step_num, True), allow_pickle=True))
        except IOError:
            u_data_arrays = None
    current_time_stamp = None
    if 'current_time_stamp' in data_arrays:
        current_time_stamp = data_arrays.pop('current_time_stamp').item()
    weathering_data = self._get_weathering_data(data_arrays)
    sc = SpillContainerData(data_arrays)
    sc.mass_balance = weathering_data
    if current_time_stamp:
        sc.current_time_stamp = current_time_stamp
    if u_data_arrays is None:
        u_sc = None
    else:
        current_time_stamp = None
        if 'current_time_stamp' in u_data_arrays:
            current_time_stamp = u_data_arrays.pop('current_time_stamp').item()
        u_weathering_data = self._get_weathering_data(u_data_arrays)
        u_sc = SpillContainerData(u_data_arrays, uncertain=True)
        u_sc.mass_balance = u_weathering_data
        if current_time_stamp:
            u_sc.current_time_stamp = current_time_stamp
    scp = SpillContainerPairData(sc, u_sc)
    return scp

@ gnome.utilities.cache.ElementCache._set_weathering_data
def _set_weathering_data(self, sc, data):
    if sc.mass_balance:
        data['mass_balance'] = np.array(list(sc.mass_balance.keys()))
        for key in data['mass_balance']:
            data[key] = np.asarray(sc.mass_balance[key])

@ gnome.utilities.cache.ElementCache._get_weathering_data
def _get_weathering_data(self, data_arrays):
    mb_data = {}
    if 'mass_balance' in data_arrays:
        mb_names = data_arrays.pop('mass_balance')
        mb_data = {}
        for name in mb_names:
            mb_data[name] = data_arrays.pop(name).item()
    return mb_data

@ gnome.utilities.cache.ElementCache.rewind
def rewind(self):
    self.recent = {}
    if os.path.isdir(self._cache_dir):
        shutil.rmtree(self._cache_dir)
    self._create_new_dir()

@ const gnome.utilities.cache._CacheDirObject
tempfile.TemporaryDirectory(prefix='gnome_cache.')

@ const gnome.utilities.cache.global_cache_dir
_CacheDirObject.name

