## R1 the native and the Python movers are given the elements, the time and the step of the model, and return the move of in-water elements only
@ gnome.movers.movers.Mover.get_move
def get_move(self, sc, time_step, model_time_datetime):
    positions = sc['positions']
    delta = np.zeros_like(positions)
    delta[:] = np.nan
    return delta

@ gnome.movers.movers.Mover.get_bounds
def get_bounds(self):
    return ((-360, -90), (360, 90))

@ gnome.movers.movers.PyMover.__init__
def __init__(self, default_num_method='RK2', **kwargs):
    super(PyMover, self).__init__(**kwargs)
    self.num_methods = {'RK4': self.get_delta_RK4, 'Euler': self.get_delta_Euler, 'RK2': self.get_delta_RK2}
    self.default_num_method = default_num_method
    if 'env' in kwargs:
        if hasattr(self, '_req_refs'):
            for k, in self._req_refs:
                for o in kwargs['env']:
                    if k in o._ref_as:
                        setattr(self, k, o)

@ gnome.movers.movers.PyMover.delta_method
def delta_method(self, method_name=None):
    if method_name is None:
        method_name = self.default_num_method
    return self.num_methods[method_name]

@ gnome.movers.movers.PyMover.get_delta_Euler
def get_delta_Euler(self, sc, time_step, model_time, pos, vel_field):
    vels = vel_field.at(pos, model_time)
    return vels * time_step

@ gnome.movers.movers.PyMover.get_delta_RK2
def get_delta_RK2(self, sc, time_step, model_time, pos, vel_field):
    model_time_s = self.datetime_to_seconds(model_time)
    new_time = model_time_s + time_step
    new_time_dt = time_utils.sec_to_datetime(new_time)
    v0 = vel_field.at(pos, model_time)
    d0 = FlatEarthProjection.meters_to_lonlat(v0 * time_step, pos)
    p1 = pos.copy()
    p1 += d0
    v1 = vel_field.at(p1, new_time_dt)
    return time_step / 2 * (v0 + v1)

@ gnome.movers.movers.PyMover.get_delta_RK4
def get_delta_RK4(self, sc, time_step, model_time, pos, vel_field):
    model_time_s = self.datetime_to_seconds(model_time)
    new_time = model_time_s + time_step
    new_time2 = model_time_s + time_step / 2
    new_time_dt = time_utils.sec_to_datetime(new_time)
    new_time_dt2 = time_utils.sec_to_datetime(new_time2)
    v0 = vel_field.at(pos, model_time)
    d0 = FlatEarthProjection.meters_to_lonlat(v0 * time_step / 2, pos)
    p1 = pos.copy()
    p1 += d0
    v1 = vel_field.at(p1, new_time_dt2)
    d1 = FlatEarthProjection.meters_to_lonlat(v1 * time_step / 2, pos)
    p2 = pos.copy()
    p2 += d1
    v2 = vel_field.at(p2, new_time_dt2)
    d2 = FlatEarthProjection.meters_to_lonlat(v2 * time_step, pos)
    p3 = pos.copy()
    p3 += d2
    v3 = vel_field.at(p3, new_time_dt)
    return time_step / 6 * (v0 + 2 * v1 + 2 * v2 + v3)

@ gnome.movers.movers.CyMover.__init__
def __init__(self, **kwargs):
    super(CyMover, self).__init__(**kwargs)
    self.model_time = 0
    self.positions = np.zeros((0, 3), dtype=world_point_type)
    self.delta = np.zeros((0, 3), dtype=world_point_type)
    self.status_codes = np.zeros((0, 1), dtype=status_code_type)
    self.spill_type = 0

@ gnome.movers.movers.CyMover.prepare_for_model_run
def prepare_for_model_run(self):
    self.mover.prepare_for_model_run()

@ gnome.movers.movers.CyMover.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    super(CyMover, self).prepare_for_model_step(sc, time_step, model_time_datetime)
    if self.active:
        uncertain_spill_count = 0
        uncertain_spill_size = np.array((0,), dtype=np.int32)
        if sc.uncertain:
            uncertain_spill_count = 1
            uncertain_spill_size = np.array((sc.num_released,), dtype=np.int32)
        seconds = self.datetime_to_seconds(model_time_datetime)
        try:
            self.mover.prepare_for_model_step(seconds, time_step, uncertain_spill_count, uncertain_spill_size)
        except OSError as e:
            if 'reference point' in str(e):
                msg = 'Reference point not valid \tMover: {} of type {}\n\tError: {}'.format(self.name, self.__class__, str(e))
            else:
                msg = 'No available data in the time interval that is being modeled\n\tModel time: {}\n\tData available from {} to {}\n\tMover: {} of type {}\n\tError: {}'.format(model_time_datetime, self.data_start, self.data_stop, self.name, self.__class__, str(e))
            raise RuntimeError()

@ gnome.movers.movers.CyMover.get_move
def get_move(self, sc, time_step, model_time_datetime):
    self.prepare_data_for_get_move(sc, model_time_datetime)
    if self.active and len(self.positions) > 0:
        self.mover.get_move(self.model_time, time_step, self.positions, self.delta, self.status_codes, self.spill_type)
    return self.delta.view(dtype=world_point_type).reshape((-1, len(world_point)))

@ gnome.movers.movers.CyMover.prepare_data_for_get_move
def prepare_data_for_get_move(self, sc, model_time_datetime):
    self.model_time = self.datetime_to_seconds(model_time_datetime)
    try:
        self.positions = sc['positions']
        self.status_codes = sc['status_codes']
    except KeyError as err:
        raise ValueError()
    if sc.uncertain:
        self.spill_type = spill_type.uncertainty
    else:
        self.spill_type = spill_type.forecast
    self.positions = self.positions.view(dtype=world_point).reshape((len(self.positions),))
    self.delta = np.zeros(len(self.positions), dtype=world_point)

@ gnome.movers.movers.CyMover.model_step_is_done
def model_step_is_done(self, sc=None):
    if sc is not None:
        if sc.uncertain:
            if self.active:
                try:
                    self.status_codes = sc['status_codes']
                except KeyError as err:
                    raise ValueError()
                self.mover.model_step_is_done(self.status_codes)
        elif self.active:
            self.mover.model_step_is_done()
    elif self.active:
        self.mover.model_step_is_done()

@ gnome.movers.movers.Process.datetime_to_seconds
def datetime_to_seconds(self, model_time):
    return time_utils.date_to_sec(model_time)

@ gnome.movers.simple_mover.SimpleMover.__init__
def __init__(self, velocity=0, uncertainty_scale=0.5, **kwargs):
    self.velocity = np.asarray(velocity, dtype=mover_type).reshape((3,))
    self.uncertainty_scale = uncertainty_scale
    super(SimpleMover, self).__init__(**kwargs)

@ gnome.movers.simple_mover.SimpleMover.get_move
def get_move(self, spill, time_step, model_time):
    try:
        positions = spill['positions']
        status_codes = spill['status_codes']
    except KeyError as err:
        raise ValueError()
    in_water_mask = status_codes == oil_status.in_water
    delta = np.zeros_like(positions)
    if self.active and self.on:
        delta[in_water_mask] = self.velocity * time_step
        if spill.uncertain:
            num = sum(in_water_mask)
            scale = self.uncertainty_scale * self.velocity * time_step
            delta[in_water_mask, 0] += random.uniform(-scale[0], scale[0], num)
            delta[in_water_mask, 1] += random.uniform(-scale[1], scale[1], num)
            delta[in_water_mask, 2] += random.uniform(-scale[2], scale[2], num)
        delta = proj.meters_to_lonlat(delta, positions)
    return delta

@ gnome.movers.vertical_movers.RiseVelocityMover.__init__
def __init__(self, **kwargs):
    self.mover = CyRiseVelocityMover()
    super(RiseVelocityMover, self).__init__(**kwargs)
    self.array_types['rise_vel'] = gat('rise_vel')

@ gnome.movers.vertical_movers.RiseVelocityMover.get_move
def get_move(self, sc, time_step, model_time_datetime):
    self.prepare_data_for_get_move(sc, model_time_datetime)
    if self.active and len(self.positions) > 0:
        self.mover.get_move(self.model_time, time_step, self.positions, self.delta, sc['rise_vel'], self.status_codes, self.spill_type)
    return self.delta.view(dtype=world_point_type).reshape((-1, len(world_point)))

@ gnome.movers.ship_drift_mover.ShipDriftMover.__init__
def __init__(self, wind_file=None, topology_file=None, grid_type=1, drift_angle=0, time_offset=0, **kwargs):
    if not os.path.exists(wind_file):
        raise ValueError()
    if topology_file is not None:
        if not os.path.exists(topology_file):
            raise ValueError()
    self.wind_file = wind_file
    self.topology_file = topology_file
    self.name = os.path.split(wind_file)[1]
    self.drift_angle = drift_angle
    self._wind_scale = kwargs.pop('wind_scale', 1)
    self.grid_type = grid_type
    self.grid = Grid(wind_file, topology_file, grid_type)
    self.mover = Mover()
    super(ShipDriftMover, self).__init__(**kwargs)
    self.model_time = 0
    self.positions = np.zeros((0, 3), dtype=world_point_type)
    self.delta = np.zeros((0, 3), dtype=world_point_type)
    self.status_codes = np.zeros((0, 1), dtype=status_code_type)
    self.array_types.update({'windages': gat('windages'), 'windage_range': gat('windage_range'), 'windage_persist': gat('windage_persist')})

@ gnome.movers.ship_drift_mover.ShipDriftMover.export_topology
def export_topology(self, topology_file):
    if topology_file is None:
        raise ValueError()
    self.grid.export_topology(topology_file)

@ gnome.movers.ship_drift_mover.ShipDriftMover.prepare_for_model_run
def prepare_for_model_run(self):
    pass

@ gnome.movers.ship_drift_mover.ShipDriftMover.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    super(ShipDriftMover, self).prepare_for_model_step(sc, time_step, model_time_datetime)
    if sc.num_released is None or sc.num_released == 0:
        return
    self.grid.prepare_for_model_step(model_time_datetime)
    if self.active:
        rand.random_with_persistance(sc['windage_range'][:, 0], sc['windage_range'][:, 1], sc['windages'], sc['windage_persist'], time_step)

@ gnome.movers.ship_drift_mover.ShipDriftMover.prepare_data_for_get_move
def prepare_data_for_get_move(self, sc, model_time_datetime):
    self.model_time = self.datetime_to_seconds(model_time_datetime)
    try:
        self.positions = sc['positions']
        self.status_codes = sc['status_codes']
    except KeyError as err:
        raise ValueError()
    self.positions = self.positions.view(dtype=world_point).reshape((len(self.positions),))
    self.delta = np.zeros(len(self.positions), dtype=world_point)

@ gnome.movers.ship_drift_mover.ShipDriftMover.get_move
def get_move(self, sc, time_step, model_time_datetime):
    self.prepare_data_for_get_move(sc, model_time_datetime)
    vels = np.zeros(len(self.positions), dtype=velocity_rec)
    in_water_mask = self.status_codes == oil_status.in_water
    if self.active and len(self.positions) > 0:
        self.grid.get_values(self.model_time, self.positions, vels)
        self.delta['lat'][in_water_mask] = vels['v'][in_water_mask] * time_step
        self.delta['long'][in_water_mask] = vels['u'][in_water_mask] * time_step
        self.delta['lat'][in_water_mask] *= sc['windages'][in_water_mask]
        self.delta['long'][in_water_mask] *= sc['windages'][in_water_mask]
        self.delta = projections.FlatEarthProjection.meters_to_lonlat(self.delta.view(dtype=np.float64).reshape(-1, 3), self.positions.view(dtype=np.float64).reshape(-1, 3))
    return self.delta.view(dtype=world_point_type).reshape((-1, len(world_point)))

@ gnome.movers.ship_drift_mover.ShipDriftMover.model_step_is_done
def model_step_is_done(self, sc=None):
    pass

## R2 currents: velocity times scale, uncertainty along and across the stream, no move outside water
@ gnome.movers.py_current_movers.CurrentMover.__init__
def __init__(self, current=None, scale_value=1, uncertain_duration=24 * 3600, uncertain_time_delay=0, uncertain_along=0.5, uncertain_cross=0.25, default_num_method='RK2', filename=None, **kwargs):
    self.filename = filename
    self.current = current
    if self.current is None:
        raise ValueError()
    if isinstance(self.current, (str, os.PathLike)):
        self.current = GridCurrent.from_netCDF(filename=self.current, **kwargs)
    self.scale_value = scale_value
    self.uncertain_along = uncertain_along
    self.uncertain_cross = uncertain_cross
    self.uncertain_duration = uncertain_duration
    self.uncertain_time_delay = uncertain_time_delay
    self.model_time = 0
    self.spill_type = 0
    self.is_first_step = False
    self.time_uncertainty_was_set = 0
    self.shape = (2,)
    self._uncertainty_list = np.zeros((0,) + self.shape, dtype=np.float64)
    super(CurrentMover, self).__init__(default_num_method=default_num_method, **kwargs)

@ gnome.movers.py_current_movers.CurrentMover.from_netCDF
def from_netCDF(cls, filename=None, name=None, scale_value=1, uncertain_duration=24 * 3600, uncertain_time_delay=0, uncertain_along=0.5, uncertain_cross=0.25, **kwargs):
    current = GridCurrent.from_netCDF(filename, **kwargs)
    return cls(name=name, current=current, filename=filename, scale_value=scale_value, uncertain_duration=uncertain_duration, uncertain_time_delay=uncertain_time_delay, uncertain_along=uncertain_along, uncertain_cross=uncertain_cross, **kwargs)

@ getter gnome.movers.py_current_movers.CurrentMover.filename
def filename(self):
    if hasattr(self, '_filename'):
        if self._filename is None and self.current is not None:
            return self.current.data_file
        else:
            return self._filename
    else:
        return None

@ setter gnome.movers.py_current_movers.CurrentMover.filename
def filename(self, fn):
    self._filename = fn

@ getter gnome.movers.py_current_movers.CurrentMover.data_start
def data_start(self):
    return self.current.data_start

@ getter gnome.movers.py_current_movers.CurrentMover.data_stop
def data_stop(self):
    return self.current.data_stop

@ gnome.movers.py_current_movers.CurrentMover.get_bounds
def get_bounds(self):
    if hasattr(self.current, 'get_bounds'):
        return self.current.get_bounds()
    else:
        return super(CurrentMover, self).get_bounds()

@ gnome.movers.py_current_movers.CurrentMover.get_move
def get_move(self, sc, time_step, model_time_datetime, num_method=None):
    positions = sc['positions']
    if self.active and len(positions) > 0:
        status = sc['status_codes'] != oil_status.in_water
        pos = positions[:]
        res = self.delta_method(num_method)(sc, time_step, model_time_datetime, pos, self.current)
        if res.shape[1] == 2:
            deltas = np.zeros_like(positions)
            deltas[:, 0:2] = res
        else:
            deltas = res
        deltas *= self.scale_value
        if sc.uncertain:
            deltas = self._add_uncertainty(deltas)
        deltas = FlatEarthProjection.meters_to_lonlat(deltas, positions)
        deltas[status] = (0, 0, 0)
    else:
        deltas = np.zeros_like(positions)
    return deltas

@ gnome.movers.py_current_movers.CurrentMover._update_uncertainty
def _update_uncertainty(self, num_les, elapsed_time):
    need_to_reinit = False
    need_to_reallocate = False
    add_uncertainty = elapsed_time >= self.uncertain_time_delay
    if not add_uncertainty:
        return
    uncertain_list_size = len(self._uncertainty_list)
    if uncertain_list_size == 0:
        need_to_reinit = True
    if elapsed_time < self.time_uncertainty_was_set:
        need_to_reinit = True
    if num_les > uncertain_list_size:
        need_to_reallocate = True
    if num_les < uncertain_list_size:
        need_to_reinit = True
    if need_to_reallocate and uncertain_list_size != 0:
        a_append = np.zeros((num_les - uncertain_list_size,) + self.shape, dtype=np.float64)
        a_append[:, 0] = np.random.uniform(-self.uncertain_along, self.uncertain_along, size=(num_les - uncertain_list_size,))
        a_append[:, 1] = np.random.uniform(-self.uncertain_cross, self.uncertain_cross, size=(num_les - uncertain_list_size,))
        self._uncertainty_list = np.r_[self._uncertainty_list, a_append]
    if need_to_reinit:
        self._allocate_uncertainty(num_les)
        self._update_uncertainty_values(elapsed_time)
    elif elapsed_time >= self.time_uncertainty_was_set + self.uncertain_duration:
        self._update_uncertainty_values(elapsed_time)
    return

@ gnome.movers.py_current_movers.CurrentMover._update_uncertainty_values
def _update_uncertainty_values(self, elapsed_time):
    self.time_uncertainty_was_set = elapsed_time
    num_les = len(self._uncertainty_list)
    if num_les == 0:
        return
    self._uncertainty_list[:, 0] = np.random.uniform(-self.uncertain_along, self.uncertain_along, size=(num_les,))
    self._uncertainty_list[:, 1] = np.random.uniform(-self.uncertain_cross, self.uncertain_cross, size=(num_les,))

@ gnome.movers.py_current_movers.CurrentMover._allocate_uncertainty
def _allocate_uncertainty(self, num_les):
    shape = (2,)
    self._uncertainty_list = np.zeros((num_les,) + shape, dtype=np.float64)
    return

@ gnome.movers.py_current_movers.CurrentMover._add_uncertainty
def _add_uncertainty(self, deltas):
    if self._uncertainty_list is None or len(self._uncertainty_list) == 0:
        return deltas
    if len(self._uncertainty_list) > 0:
        new_deltas = deltas.copy()
        unrec = self._uncertainty_list
        u = new_deltas[:, 0]
        v = new_deltas[:, 1]
        lengthS = np.hypot(u, v)
        alpha = unrec[:, 0]
        beta = unrec[:, 1]
        new_deltas[:, 0] = u * (1 + alpha) + v * beta
        new_deltas[:, 1] = v * (1 + alpha) - u * beta
    else:
        raise ValueError()
    return new_deltas

@ gnome.movers.py_current_movers.CurrentMover.prepare_for_model_run
def prepare_for_model_run(self):
    self.is_first_step = True
    self._uncertainty_list = np.zeros((0,) + self.shape, dtype=np.float64)
    self.time_uncertainty_was_set = 0
    return

@ gnome.movers.py_current_movers.CurrentMover.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    super(CurrentMover, self).prepare_for_model_step(sc, time_step, model_time_datetime)
    if not self.active:
        return
    seconds = self.datetime_to_seconds(model_time_datetime)
    if self.is_first_step:
        self.model_start_time = seconds
    if sc.uncertain:
        elapsed_time = abs(seconds - self.model_start_time)
        self._update_uncertainty(sc.num_released, elapsed_time)
    return

@ gnome.movers.py_current_movers.CurrentMover.model_step_is_done
def model_step_is_done(self, sc):
    if not self.active or not self.on:
        return
    self.is_first_step = False
    if sc.uncertain:
        to_be_removed = np.where(sc['status_codes'] == oil_status.to_be_removed)[0]
        if len(to_be_removed) > 0:
            new_uncertainty = np.copy(self._uncertainty_list)
            self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)

## R3 winds: windage times wind, wind uncertainty by speed and angle
@ gnome.movers.py_wind_movers.WindMover.__init__
def __init__(self, wind=None, uncertain_duration=3.0 * 3600, uncertain_time_delay=0, uncertain_speed_scale=2.0, uncertain_angle_scale=0.4, scale_value=1, default_num_method='RK2', filename=None, **kwargs):
    self.wind = wind
    self.make_default_refs = False
    if self.wind is None:
        raise ValueError()
    if isinstance(self.wind, (str, os.PathLike)):
        self.wind = GridWind.from_netCDF(filename=self.wind, **kwargs)
    self.uncertain_duration = uncertain_duration
    self.uncertain_time_delay = uncertain_time_delay
    self.uncertain_speed_scale = uncertain_speed_scale
    self.uncertain_angle_scale = uncertain_angle_scale
    self.uncertain_diffusion = 0
    self.scale_value = scale_value
    self.sigma_theta = 0
    self.sigma2 = 0
    self.is_first_step = False
    self.time_uncertainty_was_set = 0
    self.shape = (2,)
    self.uncertainty_list = np.zeros((0,) + self.shape, dtype=np.float64)
    super(WindMover, self).__init__(default_num_method=default_num_method, **kwargs)
    self.array_types.update({'windages': gat('windages'), 'windage_range': gat('windage_range'), 'windage_persist': gat('windage_persist')})

@ gnome.movers.py_wind_movers.WindMover.from_netCDF
def from_netCDF(cls, filename=None, scale_value=1, uncertain_duration=3 * 3600, uncertain_time_delay=0, uncertain_speed_scale=2.0, uncertain_angle_scale=0.4, default_num_method='RK2', **kwargs):
    wind = GridWind.from_netCDF(filename, **kwargs)
    return cls(wind=wind, filename=filename, scale_value=scale_value, uncertain_duration=uncertain_duration, uncertain_time_delay=uncertain_time_delay, uncertain_speed_scale=uncertain_speed_scale, uncertain_angle_scale=uncertain_angle_scale, default_num_method=default_num_method)

@ getter gnome.movers.py_wind_movers.WindMover.data_start
def data_start(self):
    return self.wind.data_start

@ getter gnome.movers.py_wind_movers.WindMover.data_stop
def data_stop(self):
    return self.wind.data_stop

@ gnome.movers.py_wind_movers.WindMover.prepare_for_model_run
def prepare_for_model_run(self):
    self.is_first_step = True
    self.uncertainty_list = np.zeros((0,) + self.shape, dtype=np.float64)
    self.time_uncertainty_was_set = 0
    return

@ gnome.movers.py_wind_movers.WindMover.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    super(WindMover, self).prepare_for_model_step(sc, time_step, model_time_datetime)
    if self.active:
        seconds = self.datetime_to_seconds(model_time_datetime)
        if self.is_first_step:
            self.model_start_time = seconds
        if sc.num_released is None or sc.num_released == 0:
            return
        rand.random_with_persistance(sc['windage_range'][:, 0], sc['windage_range'][:, 1], sc['windages'], sc['windage_persist'], time_step)
        if sc.uncertain:
            elapsed_time = abs(seconds - self.model_start_time)
            eddy_diffusion = 1000000.0
            self.update_uncertainty(sc.num_released, elapsed_time)
            self.uncertain_diffusion = np.sqrt(6 * (eddy_diffusion / 10000.0) / abs(time_step))
    return

@ gnome.movers.py_wind_movers.WindMover.model_step_is_done
def model_step_is_done(self, sc):
    if not self.active or not self.on:
        return
    self.is_first_step = False
    if sc.uncertain:
        to_be_removed = np.where(sc['status_codes'] == oil_status.to_be_removed)[0]
        if len(to_be_removed) > 0:
            new_uncertainty = np.copy(self.uncertainty_list)
            self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)

@ gnome.movers.py_wind_movers.WindMover.get_bounds
def get_bounds(self):
    if hasattr(self.wind, 'get_bounds'):
        return self.wind.get_bounds()
    else:
        return super(WindMover, self).get_bounds()

@ gnome.movers.py_wind_movers.WindMover.update_uncertainty
def update_uncertainty(self, num_les, elapsed_time):
    need_to_reinit = False
    need_to_reallocate = False
    add_uncertainty = elapsed_time >= self.uncertain_time_delay
    if not add_uncertainty:
        return
    uncertain_list_size = len(self.uncertainty_list)
    if uncertain_list_size == 0:
        need_to_reinit = True
    if elapsed_time < self.time_uncertainty_was_set:
        need_to_reinit = True
    if num_les > uncertain_list_size:
        need_to_reallocate = True
    if num_les < uncertain_list_size:
        need_to_reinit = True
    if need_to_reallocate and uncertain_list_size != 0:
        a_append = np.zeros((num_les - uncertain_list_size,) + self.shape, dtype=np.float64)
        cos_arg = np.zeros((num_les - uncertain_list_size,) + self.shape, dtype=np.float64)
        srt = np.zeros((num_les - uncertain_list_size,) + self.shape, dtype=np.float64)
        cos_arg = 2.0 * np.pi * np.random.uniform(0, 1, size=(num_les - uncertain_list_size,))
        srt = np.sqrt(-2.0 * np.log(np.random.uniform(0.001, 0.999, size=(num_les - uncertain_list_size,))))
        bad_values = np.flatnonzero(np.abs(self.sigma_theta * srt * np.sin(cos_arg)) > 60.0)
        for i in bad_values:
            for j in range(10):
                c = 2.0 * np.pi * np.random.uniform(0, 1)
                s = np.sqrt(-2.0 * np.log(np.random.uniform(0.001, 0.999)))
                if np.abs(self.sigma_theta * s * np.sin(c)) <= 60.0:
                    cos_arg[i] = c
                    srt[i] = s
                    break
        a_append[:, 0] = srt * np.cos(cos_arg)
        a_append[:, 1] = srt * np.sin(cos_arg)
        self.uncertainty_list = np.r_[self.uncertainty_list, a_append]
    self.sigma2 = self.uncertain_speed_scale * 0.315 * np.power(elapsed_time - self.uncertain_time_delay, 0.147)
    self.sigma2 = self.sigma2 * self.sigma2 / 2.0
    self.sigma_theta = self.uncertain_angle_scale * 2.73 * np.sqrt(np.sqrt(elapsed_time - self.uncertain_time_delay))
    if need_to_reinit:
        self.allocate_uncertainty(num_les)
        self.update_uncertainty_values(elapsed_time)
    elif elapsed_time >= self.time_uncertainty_was_set + self.uncertain_duration:
        self.update_uncertainty_values(elapsed_time)
    return

@ gnome.movers.py_wind_movers.WindMover.update_uncertainty_values
def update_uncertainty_values(self, elapsed_time):
    self.time_uncertainty_was_set = elapsed_time
    num_les = len(self.uncertainty_list)
    if num_les == 0:
        return
    cos_arg = np.zeros((num_les,) + self.shape, dtype=np.float64)
    srt = np.zeros((num_les,) + self.shape, dtype=np.float64)
    cos_arg = 2.0 * np.pi * np.random.uniform(0, 1, size=(num_les,))
    srt = np.sqrt(-2.0 * np.log(np.random.uniform(0.001, 0.999, size=(num_les,))))
    bad_values = np.flatnonzero(np.abs(self.sigma_theta * srt * np.sin(cos_arg)) > 60.0)
    for i in bad_values:
        for j in range(10):
            c = 2.0 * np.pi * np.random.uniform(0, 1)
            s = np.sqrt(-2.0 * np.log(np.random.uniform(0.001, 0.999)))
            if np.abs(self.sigma_theta * s * np.sin(c)) <= 60.0:
                cos_arg[i] = c
                srt[i] = s
                break
    self.uncertainty_list[:, 0] = srt * np.cos(cos_arg)
    self.uncertainty_list[:, 1] = srt * np.sin(cos_arg)

@ gnome.movers.py_wind_movers.WindMover.allocate_uncertainty
def allocate_uncertainty(self, num_les):
    shape = (2,)
    self.uncertainty_list = np.zeros((num_les,) + shape, dtype=np.float64)
    return

@ gnome.movers.py_wind_movers.WindMover.add_uncertainty
def add_uncertainty(self, deltas, time_step):
    if self.uncertainty_list is None or len(self.uncertainty_list) == 0:
        return deltas
    num_les = len(self.uncertainty_list)
    if len(self.uncertainty_list) > 0:
        new_deltas = deltas.copy()
        unrec = self.uncertainty_list
        u = new_deltas[:, 0] / time_step
        v = new_deltas[:, 1] / time_step
        norm = np.sqrt(u * u + v * v)
        s = norm * norm - self.sigma2
        s = np.clip(s, a_min=0, a_max=None)
        sqs = np.sqrt(s)
        m = np.sqrt(sqs)
        s2 = np.sqrt(norm - sqs)
        rand_cos = unrec[:, 0]
        rand_sin = unrec[:, 1]
        x = rand_cos * s2 + m
        w = x * x
        dtheta = rand_sin * self.sigma_theta * np.pi / 180.0
        cos_theta = np.cos(dtheta)
        sin_theta = np.sin(dtheta)
        norm_clip = np.clip(norm, a_min=0.001, a_max=None)
        cos_theta_clip = np.clip(cos_theta, a_min=0.001, a_max=None)
        w = w / cos_theta_clip
        t = w / norm_clip
        u *= t
        v *= t
        deltas[:, 0] = (u * cos_theta - v * sin_theta) * time_step
        deltas[:, 1] = (v * cos_theta + u * sin_theta) * time_step
        for i in range(0, num_les):
            if norm[i] < 1:
                rand1 = np.random.uniform(-1.0, 1.0)
                rand2 = np.random.uniform(-1.0, 1.0)
                deltas[i, 0] = u[i] * self.uncertain_diffusion * rand1
                deltas[i, 1] = v[i] * self.uncertain_diffusion * rand2
    else:
        raise ValueError()
    return deltas

@ gnome.movers.py_wind_movers.WindMover.get_move
def get_move(self, sc, time_step, model_time_datetime, num_method=None):
    positions = sc['positions']
    if self.active and len(positions) > 0:
        status = sc['status_codes'] != oil_status.in_water
        pos = positions[:]
        deltas = self.delta_method(num_method)(sc, time_step, model_time_datetime, pos, self.wind)
        if sc.uncertain:
            deltas = self.add_uncertainty(deltas, time_step)
        deltas[:, 0] *= sc['windages'] * self.scale_value
        deltas[:, 1] *= sc['windages'] * self.scale_value
        deltas = FlatEarthProjection.meters_to_lonlat(deltas, positions)
        deltas[status] = (0, 0, 0)
    else:
        deltas = np.zeros_like(positions)
    return deltas

@ gnome.movers.c_wind_movers.WindMoversBase.__init__
def __init__(self, uncertain_duration=3, uncertain_time_delay=0, uncertain_speed_scale=2.0, uncertain_angle_scale=0.4, **kwargs):
    super(WindMoversBase, self).__init__(**kwargs)
    self.uncertain_duration = uncertain_duration
    self.uncertain_time_delay = uncertain_time_delay
    self.uncertain_speed_scale = uncertain_speed_scale
    self.uncertain_angle_scale = uncertain_angle_scale
    self.array_types.update({'windages': gat('windages'), 'windage_range': gat('windage_range'), 'windage_persist': gat('windage_persist')})

@ gnome.movers.c_wind_movers.WindMoversBase._seconds_to_hours
def _seconds_to_hours(self, seconds):
    return seconds / 3600.0

@ gnome.movers.c_wind_movers.WindMoversBase._hours_to_seconds
def _hours_to_seconds(self, hours):
    return hours * 3600.0

@ getter gnome.movers.c_wind_movers.WindMoversBase.uncertain_duration
def uncertain_duration(self):
    return self._seconds_to_hours(self.mover.uncertain_duration)

@ setter gnome.movers.c_wind_movers.WindMoversBase.uncertain_duration
def uncertain_duration(self, val):
    self.mover.uncertain_duration = self._hours_to_seconds(val)

@ getter gnome.movers.c_wind_movers.WindMoversBase.uncertain_time_delay
def uncertain_time_delay(self):
    return self._seconds_to_hours(self.mover.uncertain_time_delay)

@ setter gnome.movers.c_wind_movers.WindMoversBase.uncertain_time_delay
def uncertain_time_delay(self, val):
    self.mover.uncertain_time_delay = self._hours_to_seconds(val)

@ gnome.movers.c_wind_movers.WindMoversBase.prepare_for_model_step
def prepare_for_model_step(self, sc, time_step, model_time_datetime):
    super(WindMoversBase, self).prepare_for_model_step(sc, time_step, model_time_datetime)
    if sc.num_released is None or sc.num_released == 0:
        return
    if self.active:
        random_with_persistance(sc['windage_range'][:, 0], sc['windage_range'][:, 1], sc['windages'], sc['windage_persist'], time_step)

@ gnome.movers.c_wind_movers.WindMoversBase.get_move
def get_move(self, sc, time_step, model_time_datetime):
    self.prepare_data_for_get_move(sc, model_time_datetime)
    if self.active and len(self.positions) > 0:
        self.mover.get_move(self.model_time, time_step, self.positions, self.delta, sc['windages'], self.status_codes, self.spill_type)
    return self.delta.view(dtype=world_point_type).reshape((-1, len(world_point)))

@ gnome.movers.c_wind_movers.WindMoversBase._state_as_str
def _state_as_str(self):
    info = '  uncertain_duration={0.uncertain_duration}\n  uncertain_time_delay={0.uncertain_time_delay}\n  uncertain_speed_scale={0.uncertain_speed_scale}\n  uncertain_angle_scale={0.uncertain_angle_scale}\n  active_range time={0.active_range}\n  current on/off status={0.on}\n'
    return info.format(self)

@ gnome.movers.c_wind_movers.PointWindMover.__init__
def __init__(self, wind=None, **kwargs):
    self.mover = CyWindMover()
    self._wind = None
    if wind is not None:
        self.wind = wind
        self.name = wind.name
        kwargs['make_default_refs'] = kwargs.pop('make_default_refs', False)
        kwargs['name'] = kwargs.pop('name', wind.name)
    super(PointWindMover, self).__init__(**kwargs)

@ getter gnome.movers.c_wind_movers.PointWindMover.wind
def wind(self):
    return self._wind

@ setter gnome.movers.c_wind_movers.PointWindMover.wind
def wind(self, value):
    if not isinstance(value, Wind):
        raise TypeError()
    else:
        self._wind = value
        self.mover.set_ossm(self._wind.ossm)

@ getter gnome.movers.c_wind_movers.PointWindMover.data_start
def data_start(self):
    return self.wind.data_start

@ getter gnome.movers.c_wind_movers.PointWindMover.data_stop
def data_stop(self):
    return self.wind.data_stop

@ gnome.movers.c_wind_movers.PointWindMover.prepare_for_model_run
def prepare_for_model_run(self):
    super(PointWindMover, self).prepare_for_model_run()
    if self.on and self.wind is None:
        msg = 'wind object not defined for WindMover'
        raise ReferencedObjectNotSet()

@ gnome.movers.c_wind_movers.c_GridWindMover.__init__
def __init__(self, filename=None, topology_file=None, extrapolate=False, time_offset=0, **kwargs):
    if not os.path.exists(filename):
        raise ValueError()
    if topology_file is not None:
        if not os.path.exists(topology_file):
            raise ValueError()
    self.mover = CyGridWindMover(wind_scale=kwargs.pop('wind_scale', 1))
    self.mover.text_read(filename, topology_file)
    super(c_GridWindMover, self).__init__(**kwargs)
    self.name = os.path.split(filename)[1]
    self.filename = filename
    self.topology_file = topology_file
    self.mover.extrapolate_in_time(extrapolate)
    self.mover.offset_time(time_offset * 3600.0)

@ getter gnome.movers.c_wind_movers.c_GridWindMover.data_start
def data_start(self):
    return sec_to_datetime(self.mover.get_start_time())

@ getter gnome.movers.c_wind_movers.c_GridWindMover.data_stop
def data_stop(self):
    return sec_to_datetime(self.mover.get_end_time())

@ gnome.movers.c_wind_movers.c_GridWindMover.get_grid_data
def get_grid_data(self):
    return self.get_cells()

@ gnome.movers.c_wind_movers.c_GridWindMover.get_cells
def get_cells(self):
    cell_data = self.mover._get_cell_data()
    points = self.get_points()
    dtype = cell_data[0].dtype.descr
    unstructured_type = dtype[0][1]
    unstructured = cell_data.view(dtype=unstructured_type).reshape(-1, len(dtype))[:, 1:]
    return points[unstructured]

@ gnome.movers.c_wind_movers.c_GridWindMover.get_points
def get_points(self):
    points = self.mover._get_points().astype([('long', '<f8'), ('lat', '<f8')])
    points['long'] /= 10 ** 6
    points['lat'] /= 10 ** 6
    return points

@ gnome.movers.c_wind_movers.c_GridWindMover.get_cell_center_points
def get_cell_center_points(self):
    return self.mover._get_center_points().view(dtype='<f8').reshape(-1, 2)

@ gnome.movers.c_wind_movers.c_GridWindMover.get_center_points
def get_center_points(self):
    return self.get_cell_center_points()

@ gnome.movers.c_wind_movers.c_GridWindMover.get_scaled_velocities
def get_scaled_velocities(self, time):
    if self.mover._is_regular_grid():
        num_cells = self.mover.get_num_points()
    else:
        num_tri = self.mover.get_num_triangles()
        num_cells = num_tri // 2
    vels = np.zeros(num_cells, dtype=velocity_rec)
    self.mover.get_scaled_velocities(time, vels)
    return vels

@ gnome.movers.c_wind_movers.c_GridWindMover.export_topology
def export_topology(self, topology_file):
    if topology_file is None:
        raise ValueError()
    self.mover.export_topology(topology_file)

@ gnome.movers.c_wind_movers.c_GridWindMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.mover.extrapolate_in_time(extrapolate)

@ gnome.movers.c_wind_movers.c_GridWindMover.offset_time
def offset_time(self, time_offset):
    self.mover.offset_time(time_offset * 3600.0)

@ gnome.movers.c_wind_movers.IceWindMover.__init__
def __init__(self, filename=None, topology_file=None, extrapolate=False, time_offset=0, **kwargs):
    if type(self) == IceWindMover:
        self.mover = CyIceWindMover()
    if not os.path.exists(filename):
        raise ValueError()
    if topology_file is not None:
        if not os.path.exists(topology_file):
            raise ValueError()
    self.name = os.path.split(filename)[1]
    self.filename = filename
    self.topology_file = topology_file
    self.extrapolate = extrapolate
    self.mover.text_read(filename, topology_file)
    self.mover.extrapolate_in_time(extrapolate)
    self.mover.offset_time(time_offset * 3600.0)
    super(IceWindMover, self).__init__(**kwargs)

@ gnome.movers.c_wind_movers.IceWindMover.get_grid_data
def get_grid_data(self):
    if self.mover._is_triangle_grid():
        return self.get_triangles()
    else:
        return self.get_cells()

@ gnome.movers.c_wind_movers.IceWindMover.get_center_points
def get_center_points(self):
    if self.mover._is_triangle_grid():
        return self.get_triangle_center_points()
    else:
        return self.get_cell_center_points()

@ gnome.movers.c_wind_movers.IceWindMover.get_scaled_velocities
def get_scaled_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    if self.mover._is_triangle_grid():
        num_cells = num_tri
    else:
        num_cells = num_tri // 2
    vels = np.zeros(num_cells, dtype=velocity_rec)
    self.mover.get_scaled_velocities(model_time, vels)
    return vels

@ gnome.movers.c_wind_movers.IceWindMover.get_ice_velocities
def get_ice_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    vels = np.zeros(num_tri, dtype=velocity_rec)
    self.mover.get_ice_velocities(model_time, vels)
    return vels

@ gnome.movers.c_wind_movers.IceWindMover.get_movement_velocities
def get_movement_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    vels = np.zeros(num_tri, dtype=velocity_rec)
    self.mover.get_movement_velocities(model_time, vels)
    return vels

@ gnome.movers.c_wind_movers.IceWindMover.get_ice_fields
def get_ice_fields(self, model_time):
    num_tri = self.mover.get_num_triangles()
    num_cells = num_tri // 2
    frac_coverage = np.zeros(num_cells, dtype=np.float64)
    thickness = np.zeros(num_cells, dtype=np.float64)
    self.mover.get_ice_fields(model_time, frac_coverage, thickness)
    return (frac_coverage, thickness)

@ gnome.movers.c_wind_movers.IceWindMover.export_topology
def export_topology(self, topology_file):
    if topology_file is None:
        raise ValueError()
    self.mover.export_topology(topology_file)

@ gnome.movers.c_wind_movers.IceWindMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.mover.extrapolate_in_time(extrapolate)
    self.extrapolate = extrapolate

@ gnome.movers.c_wind_movers.IceWindMover.offset_time
def offset_time(self, time_offset):
    self.mover.offset_time(time_offset * 3600.0)

@ gnome.movers.c_wind_movers.IceWindMover.get_offset_time
def get_offset_time(self):
    return self.mover.get_offset_time() / 3600.0

## R4 current patterns: scaling, tides and grids reach the native mover
@ gnome.movers.c_current_movers.CurrentMoversBase.__init__
def __init__(self, uncertain_duration=24, uncertain_time_delay=0, **kwargs):
    self.uncertain_duration = uncertain_duration
    self.uncertain_time_delay = uncertain_time_delay
    super(CurrentMoversBase, self).__init__(**kwargs)

@ gnome.movers.c_current_movers.CurrentMoversBase.get_triangles
def get_triangles(self):
    triangle_data = self.mover._get_triangle_data()
    points = self.get_points()
    dtype = triangle_data[0].dtype.descr
    unstructured_type = dtype[0][1]
    unstructured = triangle_data.view(dtype=unstructured_type).reshape(-1, len(dtype))[:, :3]
    return points[unstructured]

@ gnome.movers.c_current_movers.CurrentMoversBase.get_cells
def get_cells(self):
    cell_data = self.mover._get_cell_data()
    points = self.get_points()
    dtype = cell_data[0].dtype.descr
    unstructured_type = dtype[0][1]
    unstructured = cell_data.view(dtype=unstructured_type).reshape(-1, len(dtype))[:, 1:]
    return points[unstructured]

@ gnome.movers.c_current_movers.CurrentMoversBase.get_triangle_center_points
def get_triangle_center_points(self):
    return self.mover._get_center_points().view(dtype='<f8').reshape(-1, 2)

@ gnome.movers.c_current_movers.CurrentMoversBase.get_cell_center_points
def get_cell_center_points(self):
    return self.mover._get_center_points().view(dtype='<f8').reshape(-1, 2)

@ gnome.movers.c_current_movers.CurrentMoversBase.get_points
def get_points(self):
    points = self.mover._get_points().astype([('long', '<f8'), ('lat', '<f8')])
    points['long'] /= 10 ** 6
    points['lat'] /= 10 ** 6
    return points

@ gnome.movers.c_current_movers.CurrentMoversBase.get_bounds
def get_bounds(self):
    bounds = self.mover._get_bounds()
    current_bounds = ((bounds['loLong'] / 1000000.0, bounds['loLat'] / 1000000.0), (bounds['hiLong'] / 1000000.0, bounds['hiLat'] / 1000000.0))
    return current_bounds

@ gnome.movers.c_current_movers.CatsMover.__init__
def __init__(self, filename=None, tide=None, uncertain_duration=48, **kwargs):
    if not os.path.exists(filename):
        raise ValueError()
    f = open(filename)
    header = f.readline()
    f.close()
    header.strip()
    fields = header.split(' ')
    if fields[0] != 'DAG':
        raise ValueError()
    self._filename = filename
    self.mover = CyCatsMover()
    self.mover.text_read(filename)
    if 'name' not in kwargs:
        kwargs['name'] = os.path.split(filename)[1]
    self.up_cur_uncertain = kwargs.pop('up_cur_uncertain', 0.3)
    self.down_cur_uncertain = kwargs.pop('down_cur_uncertain', -0.3)
    self.right_cur_uncertain = kwargs.pop('right_cur_uncertain', 0.1)
    self.left_cur_uncertain = kwargs.pop('left_cur_uncertain', -0.1)
    self.uncertain_eddy_diffusion = kwargs.pop('uncertain_eddy_diffusion', 0)
    self.uncertain_eddy_v0 = kwargs.pop('uncertain_eddy_v0', 0.1)
    self.scale = kwargs.pop('scale', self.mover.scale_type)
    self.scale_value = kwargs.pop('scale_value', self.mover.scale_value)
    if 'scale_refpoint' in kwargs:
        self.scale_refpoint = kwargs.pop('scale_refpoint')
    super(CatsMover, self).__init__(uncertain_duration=uncertain_duration, **kwargs)
    self._tide = None
    if tide is not None:
        self.tide = tide
    if self.scale and self.scale_value != 0.0 and (self.scale_refpoint is None):
        raise TypeError()

@ getter gnome.movers.c_current_movers.CatsMover.ref_scale
def ref_scale(self):
    return self.mover.ref_scale

@ getter gnome.movers.c_current_movers.CatsMover.scale_refpoint
def scale_refpoint(self):
    return self.mover.ref_point

@ setter gnome.movers.c_current_movers.CatsMover.scale_refpoint
def scale_refpoint(self, val):
    if val is None:
        return
    if len(val) == 2:
        self.mover.ref_point = (val[0], val[1], 0.0)
    else:
        self.mover.ref_point = val
    err = self.mover.compute_velocity_scale()
    if err:
        msg = 'CATS reference point not valid: {0}'.format(self.mover.ref_point)

@ getter gnome.movers.c_current_movers.CatsMover.tide
def tide(self):
    return self._tide

@ setter gnome.movers.c_current_movers.CatsMover.tide
def tide(self, tide_obj):
    if tide_obj is None:
        self._tide = tide_obj
        self.mover.unset_tide()
        return
    if not isinstance(tide_obj, Tide):
        raise TypeError()
    if isinstance(tide_obj.cy_obj, CyShioTime):
        self.mover.set_shio(tide_obj.cy_obj)
    elif isinstance(tide_obj.cy_obj, CyOSSMTime):
        self.mover.set_ossm(tide_obj.cy_obj)
    else:
        raise TypeError()
    self._tide = tide_obj

@ getter gnome.movers.c_current_movers.CatsMover.data_start
def data_start(self):
    if self.tide is not None:
        return self.tide.data_start
    else:
        return MinusInfTime()

@ getter gnome.movers.c_current_movers.CatsMover.data_stop
def data_stop(self):
    if self.tide is not None:
        return self.tide.data_stop
    else:
        return InfTime()

@ gnome.movers.c_current_movers.CatsMover.get_grid_data
def get_grid_data(self):
    return self.get_triangles()

@ gnome.movers.c_current_movers.CatsMover.get_center_points
def get_center_points(self):
    return self.get_triangle_center_points()

@ gnome.movers.c_current_movers.CatsMover.get_scaled_velocities
def get_scaled_velocities(self, model_time):
    velocities = self.mover._get_velocity_handle()
    self.mover.compute_velocity_scale()
    ref_scale = self.ref_scale
    if self._tide is not None:
        time_value, _err = self._tide.cy_obj.get_time_value(model_time)
        tide = time_value[0][0]
    else:
        tide = 1
    velocities['u'] *= ref_scale * tide
    velocities['v'] *= ref_scale * tide
    return velocities

@ gnome.movers.c_current_movers.c_GridCurrentMover.__init__
def __init__(self, filename, topology_file=None, extrapolate=False, time_offset=0, current_scale=1, uncertain_along=0.5, uncertain_across=0.25, uncertain_cross=0.25, num_method='Euler', **kwargs):
    if type(self) == c_GridCurrentMover:
        self.mover = CyGridCurrentMover()
    if not os.path.exists(filename):
        raise ValueError()
    if topology_file is not None:
        if not os.path.exists(topology_file):
            raise ValueError()
    super(c_GridCurrentMover, self).__init__(**kwargs)
    self.filename = filename
    self.name = os.path.split(filename)[1]
    self.topology_file = topology_file
    self.current_scale = current_scale
    self.uncertain_along = uncertain_along
    self.uncertain_across = uncertain_across
    self.uncertain_cross = uncertain_cross
    self.mover.text_read(filename, topology_file)
    self.mover.extrapolate_in_time(extrapolate)
    self.mover.offset_time(time_offset * 3600.0)
    self.num_method = num_method
    if self.topology_file is None:
        temp_topology_file = filename + '.dat'
        self.export_topology(temp_topology_file)
        if os.path.exists(temp_topology_file):
            self.topology_file = temp_topology_file

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.data_start
def data_start(self):
    return sec_to_datetime(self.mover.get_start_time())

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.data_stop
def data_stop(self):
    return sec_to_datetime(self.mover.get_end_time())

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.num_method
def num_method(self):
    return self._num_method

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.num_method
def num_method(self, val):
    self.mover.num_method = val
    self._num_method = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.is_data_on_cells
def is_data_on_cells(self):
    return self.mover._is_data_on_cells()

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_grid_data
def get_grid_data(self):
    if self.mover._is_triangle_grid():
        return self.get_triangles()
    else:
        return self.get_cells()

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_center_points
def get_center_points(self):
    if self.mover._is_triangle_grid():
        if self.mover._is_data_on_cells():
            return self.get_triangle_center_points()
        else:
            return self.get_points()
    else:
        return self.get_cell_center_points()

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_scaled_velocities
def get_scaled_velocities(self, time):
    num_tri = self.mover.get_num_triangles()
    if self.mover._is_triangle_grid():
        if self.mover._is_data_on_cells():
            num_cells = num_tri
        else:
            num_vertices = self.mover.get_num_points()
            num_cells = num_vertices
    elif self.mover._is_regular_grid():
        num_cells = self.mover.get_num_points()
    else:
        num_cells = num_tri // 2
    vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
    self.mover.get_scaled_velocities(time, vels)
    return vels

@ gnome.movers.c_current_movers.c_GridCurrentMover.export_topology
def export_topology(self, topology_file):
    if topology_file is None:
        raise ValueError()
    self.mover.export_topology(topology_file)

@ gnome.movers.c_current_movers.c_GridCurrentMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.mover.extrapolate_in_time(extrapolate)

@ gnome.movers.c_current_movers.c_GridCurrentMover.offset_time
def offset_time(self, time_offset):
    self.mover.offset_time(time_offset * 3600.0)

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_offset_time
def get_offset_time(self):
    return self.mover.get_offset_time() / 3600.0

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_start_time
def get_start_time(self):
    return self.mover.get_start_time()

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_end_time
def get_end_time(self):
    return self.mover.get_end_time()

@ gnome.movers.c_current_movers.c_GridCurrentMover.get_num_method
def get_num_method(self):
    return self.mover.num_method

@ gnome.movers.c_current_movers.IceMover.__init__
def __init__(self, filename=None, topology_file=None, current_scale=1, uncertain_along=0.5, uncertain_cross=0.25, extrapolate=False, time_offset=0, **kwargs):
    if type(self) == IceMover:
        self.mover = CyIceMover()
    if not os.path.exists(filename):
        raise ValueError()
    if topology_file is not None:
        if not os.path.exists(topology_file):
            raise ValueError()
    self.filename = filename
    self.name = os.path.split(filename)[1]
    self.topology_file = topology_file
    self.mover.text_read(filename, topology_file)
    self.extrapolate = extrapolate
    self.mover.extrapolate_in_time(extrapolate)
    self.mover.offset_time(time_offset * 3600.0)
    self.uncertain_along = uncertain_along
    self.uncertain_cross = uncertain_cross
    self.current_scale = current_scale
    super(IceMover, self).__init__(**kwargs)

@ gnome.movers.c_current_movers.IceMover.get_grid_data
def get_grid_data(self):
    if self.mover._is_triangle_grid():
        return self.get_triangles()
    else:
        return self.get_cells()

@ gnome.movers.c_current_movers.IceMover.get_grid_bounding_box
def get_grid_bounding_box(self, grid_data=None, box_to_merge=None):
    if grid_data is None:
        grid_data = self.get_grid_data()
    dtype = grid_data.dtype.descr
    unstructured_type = dtype[0][1]
    longs = grid_data.view(dtype=unstructured_type).reshape(-1, len(dtype))[:, 0]
    lats = grid_data.view(dtype=unstructured_type).reshape(-1, len(dtype))[:, 1]
    left, right = (longs.min(), longs.max())
    bottom, top = (lats.min(), lats.max())
    if box_to_merge is not None and len(box_to_merge) == 2 and ([len(p) for p in box_to_merge] == [2, 2]):
        if left > box_to_merge[0][0]:
            left = box_to_merge[0][0]
        if right < box_to_merge[1][0]:
            right = box_to_merge[1][0]
        if bottom > box_to_merge[0][1]:
            bottom = box_to_merge[0][1]
        if top < box_to_merge[1][1]:
            top = box_to_merge[1][1]
    return ((left, bottom), (right, top))

@ gnome.movers.c_current_movers.IceMover.get_center_points
def get_center_points(self):
    if self.mover._is_triangle_grid():
        return self.get_triangle_center_points()
    else:
        return self.get_cell_center_points()

@ gnome.movers.c_current_movers.IceMover.get_scaled_velocities
def get_scaled_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    if self.mover._is_triangle_grid():
        num_cells = num_tri
    else:
        num_cells = num_tri // 2
    vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
    self.mover.get_scaled_velocities(model_time, vels)
    return vels

@ gnome.movers.c_current_movers.IceMover.get_ice_velocities
def get_ice_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    vels = np.zeros(num_tri, dtype=basic_types.velocity_rec)
    self.mover.get_ice_velocities(model_time, vels)
    return vels

@ gnome.movers.c_current_movers.IceMover.get_movement_velocities
def get_movement_velocities(self, model_time):
    num_tri = self.mover.get_num_triangles()
    vels = np.zeros(num_tri, dtype=basic_types.velocity_rec)
    self.mover.get_movement_velocities(model_time, vels)
    return vels

@ gnome.movers.c_current_movers.IceMover.get_ice_fields
def get_ice_fields(self, model_time):
    num_tri = self.mover.get_num_triangles()
    num_cells = num_tri // 2
    frac_coverage = np.zeros(num_cells, dtype=np.float64)
    thickness = np.zeros(num_cells, dtype=np.float64)
    self.mover.get_ice_fields(model_time, frac_coverage, thickness)
    return (frac_coverage, thickness)

@ gnome.movers.c_current_movers.IceMover.export_topology
def export_topology(self, topology_file):
    if topology_file is None:
        raise ValueError()
    self.mover.export_topology(topology_file)

@ gnome.movers.c_current_movers.IceMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.mover.extrapolate_in_time(extrapolate)
    self.extrapolate = extrapolate

@ gnome.movers.c_current_movers.IceMover.offset_time
def offset_time(self, time_offset):
    self.mover.offset_time(time_offset * 3600.0)

@ gnome.movers.c_current_movers.IceMover.get_offset_time
def get_offset_time(self):
    return self.mover.get_offset_time() / 3600.0

@ gnome.movers.c_current_movers.CurrentCycleMover.__init__
def __init__(self, filename=None, topology_file=None, tide=None, **kwargs):
    self.mover = CyCurrentCycleMover()
    self._tide = None
    if tide:
        self.tide = tide
    super(CurrentCycleMover, self).__init__(filename=filename, topology_file=topology_file, **kwargs)

@ getter gnome.movers.c_current_movers.CurrentCycleMover.tide
def tide(self):
    return self._tide

@ setter gnome.movers.c_current_movers.CurrentCycleMover.tide
def tide(self, tide_obj):
    if not isinstance(tide_obj, Tide):
        raise TypeError()
    if isinstance(tide_obj.cy_obj, CyShioTime):
        self.mover.set_shio(tide_obj.cy_obj)
    elif isinstance(tide_obj.cy_obj, CyOSSMTime):
        self.mover.set_ossm(tide_obj.cy_obj)
    else:
        raise TypeError()
    self._tide = tide_obj

@ getter gnome.movers.c_current_movers.CurrentCycleMover.data_start
def data_start(self):
    if self.tide is not None:
        return self.tide.data_start
    else:
        return MinusInfTime()

@ getter gnome.movers.c_current_movers.CurrentCycleMover.data_stop
def data_stop(self):
    if self.tide is not None:
        return self.tide.data_stop
    else:
        return InfTime()

@ getter gnome.movers.c_current_movers.CurrentCycleMover.is_data_on_cells
def is_data_on_cells(self):
    return None

@ gnome.movers.c_current_movers.CurrentCycleMover.get_center_points
def get_center_points(self):
    if self.mover._is_triangle_grid():
        if self.mover._is_data_on_cells():
            return self.get_triangle_center_points()
        else:
            return self.get_points()
    else:
        return self.get_cell_center_points()

@ gnome.movers.c_current_movers.CurrentCycleMover.get_scaled_velocities
def get_scaled_velocities(self, time):
    num_tri = self.mover.get_num_triangles()
    if self.mover._is_triangle_grid():
        if self.mover._is_data_on_cells():
            num_cells = num_tri
        else:
            num_vertices = self.mover.get_num_points()
            num_cells = num_vertices
    elif self.mover._is_regular_grid():
        num_cells = self.mover.get_num_points()
    else:
        num_cells = num_tri // 2
    vels = np.zeros(num_cells, dtype=basic_types.velocity_rec)
    self.mover.get_scaled_velocities(time, vels)
    return vels

@ gnome.movers.c_current_movers.ComponentMover.__init__
def __init__(self, filename1=None, filename2=None, wind=None, scale_refpoint=None, pat1_angle=0, pat1_speed=10, pat1_speed_units=2, pat1_scale_to_value=0.1, pat2_angle=90, pat2_scale_to_value=0.1, pat2_speed=10, pat2_speed_units=2, scale_by=0, **kwargs):
    if filename1 and (not os.path.exists(filename1)):
        raise ValueError()
    if filename2 is not None:
        if not os.path.exists(filename2):
            raise ValueError()
    self.filename1 = filename1
    self.filename2 = filename2
    self.mover = CyComponentMover()
    self.mover.text_read(filename1, filename2)
    super(ComponentMover, self).__init__(**kwargs)
    self._wind = None
    if wind is not None:
        self.wind = wind
    self.scale_by = scale_by
    self.scale_refpoint = scale_refpoint
    self.pat1_angle = pat1_angle
    self.pat1_speed = pat1_speed
    self.pat1_speed_units = pat1_speed_units
    self.pat1_scale_to_value = pat1_scale_to_value
    self.pat2_angle = pat2_angle
    self.pat2_scale_to_value = pat2_scale_to_value
    self.pat2_speed = pat2_speed
    self.pat2_speed_units = pat2_speed_units

@ getter gnome.movers.c_current_movers.ComponentMover.data_start
def data_start(self):
    if self.wind is not None:
        return self.wind.data_start
    else:
        return MinusInfTime()

@ getter gnome.movers.c_current_movers.ComponentMover.data_stop
def data_stop(self):
    if self.wind is not None:
        return self.wind.data_stop
    else:
        return InfTime()

@ getter gnome.movers.c_current_movers.ComponentMover.scale_refpoint
def scale_refpoint(self):
    return self.mover.ref_point

@ setter gnome.movers.c_current_movers.ComponentMover.scale_refpoint
def scale_refpoint(self, val):
    if val is None:
        return
    if len(val) == 2:
        self.mover.ref_point = (val[0], val[1], 0.0)
    else:
        self.mover.ref_point = val

@ getter gnome.movers.c_current_movers.ComponentMover.wind
def wind(self):
    return self._wind

@ setter gnome.movers.c_current_movers.ComponentMover.wind
def wind(self, wind_obj):
    if not isinstance(wind_obj, Wind):
        self._wind = None
        return
    self.mover.set_ossm(wind_obj.ossm)
    self._wind = wind_obj

@ gnome.movers.c_current_movers.ComponentMover.get_grid_data
def get_grid_data(self):
    return self.get_triangles()

@ gnome.movers.c_current_movers.ComponentMover.get_center_points
def get_center_points(self):
    return self.get_triangle_center_points()

@ gnome.movers.c_current_movers.ComponentMover.get_optimize_values
def get_optimize_values(self, model_time):
    optimize_pat1 = self.mover.get_optimize_value(model_time, 1)
    optimize_pat2 = self.mover.get_optimize_value(model_time, 2)
    return (optimize_pat1, optimize_pat2)

@ gnome.movers.c_current_movers.ComponentMover.get_scaled_velocities
def get_scaled_velocities(self, model_time):
    vels_pat1 = self.mover._get_velocity_handle(1)
    vels_pat2 = 0
    if self.filename2 is not None:
        vels_pat2 = self.mover._get_velocity_handle(2)
    optimize_pat1, optimize_pat2 = self.get_optimize_values(model_time)
    vels_pat1['u'] *= optimize_pat1
    vels_pat1['v'] *= optimize_pat1
    if optimize_pat2 != 0:
        vels_pat2['u'] *= optimize_pat2
        vels_pat2['v'] *= optimize_pat2
        vels_pat1['u'] += vels_pat2['u']
        vels_pat1['v'] += vels_pat2['v']
    return vels_pat1

## R5 random movement: the coefficients given are the ones used; ice reduces it
@ gnome.movers.random_movers.RandomMover.__init__
def __init__(self, diffusion_coef=100000.0, uncertain_factor=2.0, **kwargs):
    self.mover = CyRandomMover(diffusion_coef=diffusion_coef, uncertain_factor=uncertain_factor)
    super(RandomMover, self).__init__(**kwargs)

@ getter gnome.movers.random_movers.RandomMover.data_start
def data_start(self):
    return MinusInfTime()

@ getter gnome.movers.random_movers.RandomMover.data_stop
def data_stop(self):
    return InfTime()

@ getter gnome.movers.random_movers.RandomMover.diffusion_coef
def diffusion_coef(self):
    return self.mover.diffusion_coef

@ setter gnome.movers.random_movers.RandomMover.diffusion_coef
def diffusion_coef(self, value):
    self.mover.diffusion_coef = value

@ getter gnome.movers.random_movers.RandomMover.uncertain_factor
def uncertain_factor(self):
    return self.mover.uncertain_factor

@ setter gnome.movers.random_movers.RandomMover.uncertain_factor
def uncertain_factor(self, value):
    self.mover.uncertain_factor = value

@ gnome.movers.random_movers.IceAwareRandomMover.__init__
def __init__(self, ice_concentration=None, **kwargs):
    self.ice_concentration = ice_concentration
    super(IceAwareRandomMover, self).__init__(**kwargs)

@ gnome.movers.random_movers.IceAwareRandomMover.from_netCDF
def from_netCDF(cls, filename=None, dataset=None, grid_topology=None, units=None, time=None, ice_concentration=None, grid=None, grid_file=None, data_file=None, **kwargs):
    if filename is not None:
        data_file = filename
        grid_file = filename
    if grid is None:
        grid = PyGrid.from_netCDF(grid_file, grid_topology=grid_topology)
    if ice_concentration is None:
        ice_concentration = IceConcentration.from_netCDF(filename=filename, dataset=dataset, data_file=data_file, grid_file=grid_file, time=time, grid=grid, **kwargs)
    return cls(ice_concentration=ice_concentration, **kwargs)

@ gnome.movers.random_movers.IceAwareRandomMover.get_move
def get_move(self, sc, time_step, model_time_datetime):
    status = sc['status_codes'] != oil_status.in_water
    positions = sc['positions']
    deltas = np.zeros_like(positions)
    cctn = self.ice_concentration.at(positions, model_time_datetime, extrapolate=True).copy()
    if np.any(cctn >= 0.2):
        ice_mask = cctn >= 0.8
        water_mask = cctn < 0.2
        interp_mask = np.logical_and(cctn >= 0.2, cctn < 0.8)
        ice_vel_factor = cctn.copy()
        ice_vel_factor[ice_mask] = 0
        ice_vel_factor[water_mask] = 1
        ice_vel_factor[interp_mask] = 1 - (ice_vel_factor[interp_mask] - 0.2) * 10 / 6
        deltas = super(IceAwareRandomMover, self).get_move(sc, time_step, model_time_datetime)
        deltas *= ice_vel_factor
        deltas[status] = (0, 0, 0)
        return deltas
    else:
        return super(IceAwareRandomMover, self).get_move(sc, time_step, model_time_datetime)

@ gnome.movers.random_movers.RandomMover3D.__init__
def __init__(self, vertical_diffusion_coef_above_ml=5, vertical_diffusion_coef_below_ml=0.11, horizontal_diffusion_coef_above_ml=100000, horizontal_diffusion_coef_below_ml=126, mixed_layer_depth=10.0, surface_is_allowed=False, **kwargs):
    self.mover = CyRandomMover3D(vertical_diffusion_coef_above_ml=vertical_diffusion_coef_above_ml, vertical_diffusion_coef_below_ml=vertical_diffusion_coef_below_ml, horizontal_diffusion_coef_above_ml=horizontal_diffusion_coef_above_ml, horizontal_diffusion_coef_below_ml=horizontal_diffusion_coef_below_ml, mixed_layer_depth=mixed_layer_depth, surface_is_allowed=surface_is_allowed)
    super().__init__(**kwargs)

@ getter gnome.movers.random_movers.RandomMover3D.horizontal_diffusion_coef_above_ml
def horizontal_diffusion_coef_above_ml(self):
    return self.mover.horizontal_diffusion_coef_above_ml

@ getter gnome.movers.random_movers.RandomMover3D.horizontal_diffusion_coef_below_ml
def horizontal_diffusion_coef_below_ml(self):
    return self.mover.horizontal_diffusion_coef_below_ml

@ getter gnome.movers.random_movers.RandomMover3D.vertical_diffusion_coef_above_ml
def vertical_diffusion_coef_above_ml(self):
    return self.mover.vertical_diffusion_coef_above_ml

@ getter gnome.movers.random_movers.RandomMover3D.vertical_diffusion_coef_below_ml
def vertical_diffusion_coef_below_ml(self):
    return self.mover.vertical_diffusion_coef_below_ml

@ getter gnome.movers.random_movers.RandomMover3D.mixed_layer_depth
def mixed_layer_depth(self):
    return self.mover.mixed_layer_depth

@ getter gnome.movers.random_movers.RandomMover3D.surface_is_allowed
def surface_is_allowed(self):
    return self.mover.surface_is_allowed

@ setter gnome.movers.random_movers.RandomMover3D.horizontal_diffusion_coef_above_ml
def horizontal_diffusion_coef_above_ml(self, value):
    self.mover.horizontal_diffusion_coef_above_ml = value

@ setter gnome.movers.random_movers.RandomMover3D.horizontal_diffusion_coef_below_ml
def horizontal_diffusion_coef_below_ml(self, value):
    self.mover.horizontal_diffusion_coef_below_ml = value

@ setter gnome.movers.random_movers.RandomMover3D.vertical_diffusion_coef_above_ml
def vertical_diffusion_coef_above_ml(self, value):
    self.mover.vertical_diffusion_coef_above_ml = value

@ setter gnome.movers.random_movers.RandomMover3D.vertical_diffusion_coef_below_ml
def vertical_diffusion_coef_below_ml(self, value):
    self.mover.vertical_diffusion_coef_below_ml = value

@ setter gnome.movers.random_movers.RandomMover3D.mixed_layer_depth
def mixed_layer_depth(self, value):
    self.mover.mixed_layer_depth = value

@ setter gnome.movers.random_movers.RandomMover3D.surface_is_allowed
def surface_is_allowed(self, value):
    self.mover.surface_is_allowed = value

@ func gnome.utilities.rand.random_with_persistance
def random_with_persistance(low, high, array=None, persistence=None, time_step=1.0):
    low = np.copy(low)
    high = np.copy(high)
    if array is None:
        array = np.zeros(len(low), dtype=float)
    elif not isinstance(array, np.ndarray):
        raise ValueError()
    len_msg = "Length of 'low', 'high' and 'persistence' arrays should be equal"
    if persistence is not None:
        persistence = np.asarray(persistence)
        if len(high) != len(persistence):
            raise ValueError()
    if len(high) != len(low):
        raise ValueError()
    if np.any(high < low):
        raise ValueError()
    if np.all(low == high):
        array[:] = low[:]
    if persistence is None:
        array[:] = np.random.uniform(low, high)
    else:
        u_mask = (persistence > 0) & (persistence <= 900)
        if np.any(u_mask):
            if np.any(persistence[u_mask] != abs(time_step)):
                orig = high[u_mask] - low[u_mask]
                l__range = orig * np.sqrt(persistence[u_mask] / float(abs(time_step)))
                mean = (high[u_mask] + low[u_mask]) / 2.0
                low[u_mask] = mean - l__range / 2.0
                high[u_mask] = mean + l__range / 2.0
            array[u_mask] = np.random.uniform(low[u_mask], high[u_mask])
    return array

## R7 the settings of a mover are the settings of its native implementation
@ getter gnome.environment.grid.Grid.extrapolate
def extrapolate(self):
    return self.grid.extrapolate

@ setter gnome.environment.grid.Grid.extrapolate
def extrapolate(self, val):
    self.grid.extrapolate = val

@ getter gnome.environment.grid.Grid.time_offset
def time_offset(self):
    return self.grid.time_offset / 3600.0

@ setter gnome.environment.grid.Grid.time_offset
def time_offset(self, val):
    self.grid.time_offset = val * 3600.0

@ getter gnome.environment.tide.Tide.scale_factor
def scale_factor(self):
    return self.cy_obj.scale_factor

@ setter gnome.environment.tide.Tide.scale_factor
def scale_factor(self, val):
    self.cy_obj.scale_factor = val

@ getter gnome.movers.ship_drift_mover.ShipDriftMover.wind_scale
def wind_scale(self):
    return self._wind_scale

@ setter gnome.movers.ship_drift_mover.ShipDriftMover.wind_scale
def wind_scale(self, val):
    self._wind_scale = val

@ getter gnome.movers.ship_drift_mover.ShipDriftMover.extrapolate
def extrapolate(self):
    return self.grid.extrapolate

@ setter gnome.movers.ship_drift_mover.ShipDriftMover.extrapolate
def extrapolate(self, val):
    self.grid.extrapolate = val

@ getter gnome.movers.ship_drift_mover.ShipDriftMover.time_offset
def time_offset(self):
    return self.grid.time_offset / 3600.0

@ setter gnome.movers.ship_drift_mover.ShipDriftMover.time_offset
def time_offset(self, val):
    self.grid.time_offset = val * 3600.0

@ getter gnome.movers.c_wind_movers.WindMoversBase.uncertain_speed_scale
def uncertain_speed_scale(self):
    return self.mover.uncertain_speed_scale

@ setter gnome.movers.c_wind_movers.WindMoversBase.uncertain_speed_scale
def uncertain_speed_scale(self, val):
    self.mover.uncertain_speed_scale = val

@ getter gnome.movers.c_wind_movers.WindMoversBase.uncertain_angle_scale
def uncertain_angle_scale(self):
    return self.mover.uncertain_angle_scale

@ setter gnome.movers.c_wind_movers.WindMoversBase.uncertain_angle_scale
def uncertain_angle_scale(self, val):
    self.mover.uncertain_angle_scale = val

@ getter gnome.movers.c_wind_movers.c_GridWindMover.wind_scale
def wind_scale(self):
    return self.mover.wind_scale

@ setter gnome.movers.c_wind_movers.c_GridWindMover.wind_scale
def wind_scale(self, val):
    self.mover.wind_scale = val

@ getter gnome.movers.c_wind_movers.c_GridWindMover.extrapolate
def extrapolate(self):
    return self.mover.extrapolate

@ setter gnome.movers.c_wind_movers.c_GridWindMover.extrapolate
def extrapolate(self, val):
    self.mover.extrapolate = val

@ getter gnome.movers.c_wind_movers.c_GridWindMover.time_offset
def time_offset(self):
    return self.mover.time_offset / 3600.0

@ setter gnome.movers.c_wind_movers.c_GridWindMover.time_offset
def time_offset(self, val):
    self.mover.time_offset = val * 3600.0

@ getter gnome.movers.c_current_movers.CurrentMoversBase.uncertain_duration
def uncertain_duration(self):
    return self.mover.uncertain_duration / 3600.0

@ setter gnome.movers.c_current_movers.CurrentMoversBase.uncertain_duration
def uncertain_duration(self, val):
    self.mover.uncertain_duration = val * 3600.0

@ getter gnome.movers.c_current_movers.CurrentMoversBase.uncertain_time_delay
def uncertain_time_delay(self):
    return self.mover.uncertain_time_delay / 3600.0

@ setter gnome.movers.c_current_movers.CurrentMoversBase.uncertain_time_delay
def uncertain_time_delay(self, val):
    self.mover.uncertain_time_delay = val * 3600.0

@ getter gnome.movers.c_current_movers.CatsMover.filename
def filename(self):
    return self._filename

@ setter gnome.movers.c_current_movers.CatsMover.filename
def filename(self, val):
    self._filename = val

@ getter gnome.movers.c_current_movers.CatsMover.scale
def scale(self):
    return bool(self.mover.scale_type)

@ setter gnome.movers.c_current_movers.CatsMover.scale
def scale(self, val):
    self.mover.scale_type = int(val)

@ getter gnome.movers.c_current_movers.CatsMover.scale_value
def scale_value(self):
    return self.mover.scale_value

@ setter gnome.movers.c_current_movers.CatsMover.scale_value
def scale_value(self, val):
    self.mover.scale_value = val

@ getter gnome.movers.c_current_movers.CatsMover.up_cur_uncertain
def up_cur_uncertain(self):
    return self.mover.up_cur_uncertain

@ setter gnome.movers.c_current_movers.CatsMover.up_cur_uncertain
def up_cur_uncertain(self, val):
    self.mover.up_cur_uncertain = val

@ getter gnome.movers.c_current_movers.CatsMover.down_cur_uncertain
def down_cur_uncertain(self):
    return self.mover.down_cur_uncertain

@ setter gnome.movers.c_current_movers.CatsMover.down_cur_uncertain
def down_cur_uncertain(self, val):
    self.mover.down_cur_uncertain = val

@ getter gnome.movers.c_current_movers.CatsMover.right_cur_uncertain
def right_cur_uncertain(self):
    return self.mover.right_cur_uncertain

@ setter gnome.movers.c_current_movers.CatsMover.right_cur_uncertain
def right_cur_uncertain(self, val):
    self.mover.right_cur_uncertain = val

@ getter gnome.movers.c_current_movers.CatsMover.left_cur_uncertain
def left_cur_uncertain(self):
    return self.mover.left_cur_uncertain

@ setter gnome.movers.c_current_movers.CatsMover.left_cur_uncertain
def left_cur_uncertain(self, val):
    self.mover.left_cur_uncertain = val

@ getter gnome.movers.c_current_movers.CatsMover.uncertain_eddy_diffusion
def uncertain_eddy_diffusion(self):
    return self.mover.uncertain_eddy_diffusion

@ setter gnome.movers.c_current_movers.CatsMover.uncertain_eddy_diffusion
def uncertain_eddy_diffusion(self, val):
    self.mover.uncertain_eddy_diffusion = val

@ getter gnome.movers.c_current_movers.CatsMover.uncertain_eddy_v0
def uncertain_eddy_v0(self):
    return self.mover.uncertain_eddy_v0

@ setter gnome.movers.c_current_movers.CatsMover.uncertain_eddy_v0
def uncertain_eddy_v0(self, val):
    self.mover.uncertain_eddy_v0 = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.uncertain_cross
def uncertain_cross(self):
    return self.mover.uncertain_cross

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.uncertain_cross
def uncertain_cross(self, val):
    self.mover.uncertain_cross = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.uncertain_along
def uncertain_along(self):
    return self.mover.uncertain_along

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.uncertain_along
def uncertain_along(self, val):
    self.mover.uncertain_along = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.current_scale
def current_scale(self):
    return self.mover.current_scale

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.current_scale
def current_scale(self, val):
    self.mover.current_scale = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.extrapolate
def extrapolate(self):
    return self.mover.extrapolate

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.extrapolate
def extrapolate(self, val):
    self.mover.extrapolate = val

@ getter gnome.movers.c_current_movers.c_GridCurrentMover.time_offset
def time_offset(self):
    return self.mover.time_offset / 3600.0

@ setter gnome.movers.c_current_movers.c_GridCurrentMover.time_offset
def time_offset(self, val):
    self.mover.time_offset = val * 3600.0

@ getter gnome.movers.c_current_movers.IceMover.uncertain_cross
def uncertain_cross(self):
    return self.mover.uncertain_cross

@ setter gnome.movers.c_current_movers.IceMover.uncertain_cross
def uncertain_cross(self, val):
    self.mover.uncertain_cross = val

@ getter gnome.movers.c_current_movers.IceMover.uncertain_along
def uncertain_along(self):
    return self.mover.uncertain_along

@ setter gnome.movers.c_current_movers.IceMover.uncertain_along
def uncertain_along(self, val):
    self.mover.uncertain_along = val

@ getter gnome.movers.c_current_movers.IceMover.current_scale
def current_scale(self):
    return self.mover.current_scale

@ setter gnome.movers.c_current_movers.IceMover.current_scale
def current_scale(self, val):
    self.mover.current_scale = val

@ getter gnome.movers.c_current_movers.IceMover.extrapolate
def extrapolate(self):
    return self.mover.extrapolate

@ setter gnome.movers.c_current_movers.IceMover.extrapolate
def extrapolate(self, val):
    self.mover.extrapolate = val

@ getter gnome.movers.c_current_movers.IceMover.time_offset
def time_offset(self):
    return self.mover.time_offset / 3600.0

@ setter gnome.movers.c_current_movers.IceMover.time_offset
def time_offset(self, val):
    self.mover.time_offset = val * 3600.0

@ getter gnome.movers.c_current_movers.ComponentMover.pat1_angle
def pat1_angle(self):
    return self.mover.pat1_angle

@ setter gnome.movers.c_current_movers.ComponentMover.pat1_angle
def pat1_angle(self, val):
    self.mover.pat1_angle = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat1_speed
def pat1_speed(self):
    return self.mover.pat1_speed

@ setter gnome.movers.c_current_movers.ComponentMover.pat1_speed
def pat1_speed(self, val):
    self.mover.pat1_speed = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat1_speed_units
def pat1_speed_units(self):
    return self.mover.pat1_speed_units

@ setter gnome.movers.c_current_movers.ComponentMover.pat1_speed_units
def pat1_speed_units(self, val):
    self.mover.pat1_speed_units = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat1_scale_to_value
def pat1_scale_to_value(self):
    return self.mover.pat1_scale_to_value

@ setter gnome.movers.c_current_movers.ComponentMover.pat1_scale_to_value
def pat1_scale_to_value(self, val):
    self.mover.pat1_scale_to_value = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat2_angle
def pat2_angle(self):
    return self.mover.pat2_angle

@ setter gnome.movers.c_current_movers.ComponentMover.pat2_angle
def pat2_angle(self, val):
    self.mover.pat2_angle = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat2_speed
def pat2_speed(self):
    return self.mover.pat2_speed

@ setter gnome.movers.c_current_movers.ComponentMover.pat2_speed
def pat2_speed(self, val):
    self.mover.pat2_speed = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat2_speed_units
def pat2_speed_units(self):
    return self.mover.pat2_speed_units

@ setter gnome.movers.c_current_movers.ComponentMover.pat2_speed_units
def pat2_speed_units(self, val):
    self.mover.pat2_speed_units = val

@ getter gnome.movers.c_current_movers.ComponentMover.pat2_scale_to_value
def pat2_scale_to_value(self):
    return self.mover.pat2_scale_to_value

@ setter gnome.movers.c_current_movers.ComponentMover.pat2_scale_to_value
def pat2_scale_to_value(self, val):
    self.mover.pat2_scale_to_value = val

@ getter gnome.movers.c_current_movers.ComponentMover.scale_by
def scale_by(self):
    return self.mover.scale_by

@ setter gnome.movers.c_current_movers.ComponentMover.scale_by
def scale_by(self, val):
    self.mover.scale_by = val

@ getter gnome.movers.c_current_movers.ComponentMover.extrapolate
def extrapolate(self):
    return self.mover.extrapolate

@ setter gnome.movers.c_current_movers.ComponentMover.extrapolate
def extrapolate(self, val):
    self.mover.extrapolate = val

@ getter gnome.movers.c_current_movers.ComponentMover.use_averaged_winds
def use_averaged_winds(self):
    return self.mover.use_averaged_winds

@ setter gnome.movers.c_current_movers.ComponentMover.use_averaged_winds
def use_averaged_winds(self, val):
    self.mover.use_averaged_winds = val

@ getter gnome.movers.c_current_movers.ComponentMover.wind_power_factor
def wind_power_factor(self):
    return self.mover.wind_power_factor

@ setter gnome.movers.c_current_movers.ComponentMover.wind_power_factor
def wind_power_factor(self, val):
    self.mover.wind_power_factor = val

@ getter gnome.movers.c_current_movers.ComponentMover.past_hours_to_average
def past_hours_to_average(self):
    return self.mover.past_hours_to_average

@ setter gnome.movers.c_current_movers.ComponentMover.past_hours_to_average
def past_hours_to_average(self, val):
    self.mover.past_hours_to_average = val

@ getter gnome.movers.c_current_movers.ComponentMover.scale_factor_averaged_winds
def scale_factor_averaged_winds(self):
    return self.mover.scale_factor_averaged_winds

@ setter gnome.movers.c_current_movers.ComponentMover.scale_factor_averaged_winds
def scale_factor_averaged_winds(self, val):
    self.mover.scale_factor_averaged_winds = val

@ getter gnome.movers.c_current_movers.ComponentMover.use_original_scale_factor
def use_original_scale_factor(self):
    return self.mover.use_original_scale_factor

@ setter gnome.movers.c_current_movers.ComponentMover.use_original_scale_factor
def use_original_scale_factor(self, val):
    self.mover.use_original_scale_factor = val


## R8 the Cython layer hands elements, times, settings and data to the native movers and back unchanged
@ gnome.cy_gnome.cy_mover.CyMover.__cinit__
def __cinit__(self):
    self.mover = None

@ gnome.cy_gnome.cy_mover.CyMover.prepare_for_model_run
def prepare_for_model_run(self):
    if self.mover:
        self.mover.PrepareForModelRun()
    else:
        raise OSError()

@ gnome.cy_gnome.cy_mover.CyMover.prepare_for_model_step
def prepare_for_model_step(self, model_time, step_len, numSets=0, setSizes=None):
    if self.mover:
        if numSets == 0:
            err = self.mover.PrepareForModelStep(model_time, step_len, False, 0, None)
        else:
            err = self.mover.PrepareForModelStep(model_time, step_len, True, numSets, addr(setSizes[0]))
        if err != 0:
            if err == -2:
                raise OSError()
            else:
                raise OSError()
    else:
        raise OSError()

@ gnome.cy_gnome.cy_mover.CyMover.model_step_is_done
def model_step_is_done(self, LE_status=None):
    if self.mover:
        if LE_status is None:
            num_LEs = 0
        else:
            num_LEs = len(LE_status)
        if num_LEs > 0:
            err = self.mover.ReallocateUncertainty(num_LEs, addr(LE_status[0]))
        self.mover.ModelStepIsDone()
    else:
        raise OSError()

@ gnome.cy_gnome.cy_mover.CyWindMoverBase.__cinit__
def __cinit__(self):
    self.wind = None

@ gnome.cy_gnome.cy_mover.CyWindMoverBase.__init__
def __init__(self, uncertain_duration=10800, uncertain_time_delay=0, uncertain_speed_scale=2, uncertain_angle_scale=0.4):
    self.wind.fIsConstantWind = 1
    self.wind.fConstantValue.u = 0
    self.wind.fConstantValue.v = 0
    self.wind.fDuration = uncertain_duration
    self.wind.fUncertainStartTime = uncertain_time_delay
    self.wind.fSpeedScale = uncertain_speed_scale
    self.wind.fAngleScale = uncertain_angle_scale

@ getter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_duration
def uncertain_duration(self):
    return self.wind.fDuration

@ setter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_duration
def uncertain_duration(self, value):
    self.wind.fDuration = value

@ getter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_time_delay
def uncertain_time_delay(self):
    return self.wind.fUncertainStartTime

@ setter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_time_delay
def uncertain_time_delay(self, value):
    self.wind.fUncertainStartTime = value

@ getter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_speed_scale
def uncertain_speed_scale(self):
    return self.wind.fSpeedScale

@ setter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_speed_scale
def uncertain_speed_scale(self, value):
    self.wind.fSpeedScale = value

@ getter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_angle_scale
def uncertain_angle_scale(self):
    return self.wind.fAngleScale

@ setter gnome.cy_gnome.cy_mover.CyWindMoverBase.uncertain_angle_scale
def uncertain_angle_scale(self, value):
    self.wind.fAngleScale = value

@ gnome.cy_gnome.cy_mover.CyCurrentMoverBase.__cinit__
def __cinit__(self):
    self.curr_mv = None

@ gnome.cy_gnome.cy_mover.CyCurrentMoverBase.__init__
def __init__(self, uncertain_duration=172800, uncertain_time_delay=0, up_cur_uncertain=0.3, down_cur_uncertain=-0.3, right_cur_uncertain=0.1, left_cur_uncertain=-0.1):
    self.curr_mv.fDuration = uncertain_duration
    self.curr_mv.fUncertainStartTime = uncertain_time_delay
    self.curr_mv.fUpCurUncertainty = up_cur_uncertain
    self.curr_mv.fDownCurUncertainty = down_cur_uncertain
    self.curr_mv.fLeftCurUncertainty = left_cur_uncertain
    self.curr_mv.fRightCurUncertainty = right_cur_uncertain

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.uncertain_duration
def uncertain_duration(self):
    return self.curr_mv.fDuration

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.uncertain_duration
def uncertain_duration(self, value):
    self.curr_mv.fDuration = value

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.uncertain_time_delay
def uncertain_time_delay(self):
    return self.curr_mv.fUncertainStartTime

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.uncertain_time_delay
def uncertain_time_delay(self, value):
    self.curr_mv.fUncertainStartTime = value

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.up_cur_uncertain
def up_cur_uncertain(self):
    return self.curr_mv.fUpCurUncertainty

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.up_cur_uncertain
def up_cur_uncertain(self, value):
    self.curr_mv.fUpCurUncertainty = value

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.down_cur_uncertain
def down_cur_uncertain(self):
    return self.curr_mv.fDownCurUncertainty

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.down_cur_uncertain
def down_cur_uncertain(self, value):
    self.curr_mv.fDownCurUncertainty = value

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.right_cur_uncertain
def right_cur_uncertain(self):
    return self.curr_mv.fRightCurUncertainty

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.right_cur_uncertain
def right_cur_uncertain(self, value):
    self.curr_mv.fRightCurUncertainty = value

@ getter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.left_cur_uncertain
def left_cur_uncertain(self):
    return self.curr_mv.fLeftCurUncertainty

@ setter gnome.cy_gnome.cy_mover.CyCurrentMoverBase.left_cur_uncertain
def left_cur_uncertain(self, value):
    self.curr_mv.fLeftCurUncertainty = value

@ gnome.cy_gnome.cy_current_mover.CyCurrentMover.__cinit__
def __cinit__(self):
    if type(self) == CyCurrentMover:
        self.mover = CurrentMover_c()
        self.curr_mover = dc_mover_to_cmover(self.mover)

@ gnome.cy_gnome.cy_current_mover.CyCurrentMover.__init__
def __init__(self, uncertain_duration=172800, uncertain_time_delay=0, up_cur_uncertain=0.3, down_cur_uncertain=-0.3, right_cur_uncertain=0.1, left_cur_uncertain=-0.1):
    self.curr_mover.fDuration = uncertain_duration
    self.curr_mover.fUncertainStartTime = uncertain_time_delay
    self.curr_mover.fUpCurUncertainty = up_cur_uncertain
    self.curr_mover.fDownCurUncertainty = down_cur_uncertain
    self.curr_mover.fLeftCurUncertainty = left_cur_uncertain
    self.curr_mover.fRightCurUncertainty = right_cur_uncertain

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.uncertain_duration
def uncertain_duration(self):
    return self.curr_mover.fDuration

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.uncertain_duration
def uncertain_duration(self, value):
    self.curr_mover.fDuration = value

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.uncertain_time_delay
def uncertain_time_delay(self):
    return self.curr_mover.fUncertainStartTime

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.uncertain_time_delay
def uncertain_time_delay(self, value):
    self.curr_mover.fUncertainStartTime = value

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.up_cur_uncertain
def up_cur_uncertain(self):
    return self.curr_mover.fUpCurUncertainty

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.up_cur_uncertain
def up_cur_uncertain(self, value):
    self.curr_mover.fUpCurUncertainty = value

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.down_cur_uncertain
def down_cur_uncertain(self):
    return self.curr_mover.fDownCurUncertainty

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.down_cur_uncertain
def down_cur_uncertain(self, value):
    self.curr_mover.fDownCurUncertainty = value

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.right_cur_uncertain
def right_cur_uncertain(self):
    return self.curr_mover.fRightCurUncertainty

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.right_cur_uncertain
def right_cur_uncertain(self, value):
    self.curr_mover.fRightCurUncertainty = value

@ getter gnome.cy_gnome.cy_current_mover.CyCurrentMover.left_cur_uncertain
def left_cur_uncertain(self):
    return self.curr_mover.fLeftCurUncertainty

@ setter gnome.cy_gnome.cy_current_mover.CyCurrentMover.left_cur_uncertain
def left_cur_uncertain(self, value):
    self.curr_mover.fLeftCurUncertainty = value

@ gnome.cy_gnome.cy_current_mover.CyCurrentMover._get_bounds
def _get_bounds(self):
    bounds = self.curr_mover.GetGridBounds()
    return bounds

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.__cinit__
def __cinit__(self):
    self.mover = CATSMover_c()
    self.curr_mover = dc_mover_to_cmover(self.mover)
    self.cats = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.__init__
def __init__(self, scale_type=0, scale_value=1, uncertain_eddy_diffusion=0, uncertain_eddy_v0=0.1, ref_point=None, *args, **kwargs):
    self.cats.scaleType = scale_type
    self.cats.scaleValue = scale_value
    self.cats.fEddyDiffusion = uncertain_eddy_diffusion
    if ref_point is not None:
        self.ref_point = ref_point
    super(CyCatsMover, self).__init__(*args, **kwargs)

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.scale_type
def scale_type(self):
    return self.cats.scaleType

@ setter gnome.cy_gnome.cy_cats_mover.CyCatsMover.scale_type
def scale_type(self, value):
    self.cats.scaleType = value

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.scale_value
def scale_value(self):
    return self.cats.scaleValue

@ setter gnome.cy_gnome.cy_cats_mover.CyCatsMover.scale_value
def scale_value(self, value):
    self.cats.scaleValue = value

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.uncertain_eddy_diffusion
def uncertain_eddy_diffusion(self):
    return self.cats.fEddyDiffusion

@ setter gnome.cy_gnome.cy_cats_mover.CyCatsMover.uncertain_eddy_diffusion
def uncertain_eddy_diffusion(self, value):
    self.cats.fEddyDiffusion = value

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.uncertain_eddy_v0
def uncertain_eddy_v0(self):
    return self.cats.fEddyV0

@ setter gnome.cy_gnome.cy_cats_mover.CyCatsMover.uncertain_eddy_v0
def uncertain_eddy_v0(self, value):
    self.cats.fEddyV0 = value

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.ref_scale
def ref_scale(self):
    return self.cats.refScale

@ getter gnome.cy_gnome.cy_cats_mover.CyCatsMover.ref_point
def ref_point(self):
    ref = self.cats.GetRefPosition()
    if np.isclose(ref.p.pLat, -999.0):
        return None
    else:
        return (ref.p.pLong / 1000000.0, ref.p.pLat / 1000000.0, ref.z)

@ setter gnome.cy_gnome.cy_cats_mover.CyCatsMover.ref_point
def ref_point(self, ref_point):
    pos = WorldPoint3D()
    if not isinstance(ref_point, (list, tuple)) or len(ref_point) != 3:
        raise ValueError()
    pos.p.pLong = ref_point[0] * 10 ** 6
    pos.p.pLat = ref_point[1] * 10 ** 6
    pos.z = ref_point[2]
    self.cats.SetRefPosition(pos)

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.set_shio
def set_shio(self, cy_shio):
    self.cats.SetTimeDep(cy_shio.shio)
    if cy_shio.station_location is not None and self.ref_point is None:
        self.ref_point = cy_shio.station_location
    self.cats.bTimeFileActive = True
    self.cats.scaleType = 1
    return True

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.set_ossm
def set_ossm(self, ossm):
    self.cats.SetTimeDep(ossm.time_dep)
    self.cats.bTimeFileActive = True
    if ossm.station_location is not None and self.ref_point is None:
        self.ref_point = ossm.station_location
    return True

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.unset_tide
def unset_tide(self):
    self.cats.SetTimeDep(None)
    self.cats.bTimeFileActive = False
    self.cats.scaleType = 0
    self.ref_point = (-0.000999, -0.000999, -0.000999)

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.text_read
def text_read(self, fname):
    path_ = filename_as_bytes(fname)
    err = self.cats.TextRead(path_)
    if err is not False:
        raise ValueError()
    return True

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.compute_velocity_scale
def compute_velocity_scale(self):
    err = self.cats.InitMover()
    if err:
        return err
    return 0

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.cats.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_velocity_handle
def _get_velocity_handle(self):
    tmp_size = sizeof(VelocityFRec)
    vel_hdl = self.cats.GetVelocityHdl()
    sz = _GetHandleSize(vel_hdl)
    vels = np.empty((sz // tmp_size,), dtype=basic_types.velocity_rec)
    memcpy(addr(vels[0]), vel_hdl[0], sz)
    return vels

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.cats.GetTriangleCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_world_points
def _get_world_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.cats.GetWorldPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_points
def _get_points(self):
    tmp_size = sizeof(LongPoint)
    pts_hdl = self.cats.GetPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.long_point)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_triangle_data
def _get_triangle_data(self):
    tmp_size = sizeof(Topology)
    top_hdl = self.cats.GetTopologyHdl()
    sz = _GetHandleSize(top_hdl)
    top = np.empty((sz // tmp_size,), dtype=basic_types.triangle_data)
    memcpy(addr(top[0]), top_hdl[0], sz)
    return top

@ gnome.cy_gnome.cy_cats_mover.CyCatsMover._get_bounds
def _get_bounds(self):
    bounds = self.cats.GetGridBounds()
    return bounds

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.__cinit__
def __cinit__(self):
    self.mover = ComponentMover_c()
    self.curr_mover = dc_mover_to_cmover(self.mover)
    self.component = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.text_read
def text_read(self, cats_file1, cats_file2=None):
    f1 = filename_as_bytes(cats_file1)
    if cats_file2:
        f2 = filename_as_bytes(cats_file2)
        err = self.component.TextRead(f1, f2)
    else:
        err = self.component.TextRead(f1, '')
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.__init__
def __init__(self, pat1_angle=0, pat1_speed=10, pat1_speed_units=2, pat1_scale_to_value=0.1, ref_point=None, *args, **kwargs):
    self.component.pat1Angle = pat1_angle
    self.component.pat1Speed = pat1_speed
    self.component.pat1SpeedUnits = pat1_speed_units
    self.component.pat1ScaleToValue = pat1_scale_to_value
    if not ref_point:
        ref_point = (-999, -999, -999)
    if not isinstance(ref_point, (list, tuple)) or len(ref_point) != 3:
        raise ValueError()
    self.ref_point = ref_point

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_angle
def pat1_angle(self):
    return self.component.pat1Angle

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_angle
def pat1_angle(self, value):
    self.component.pat1Angle = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_speed
def pat1_speed(self):
    return self.component.pat1Speed

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_speed
def pat1_speed(self, value):
    self.component.pat1Speed = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_speed_units
def pat1_speed_units(self):
    return self.component.pat1SpeedUnits

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_speed_units
def pat1_speed_units(self, value):
    self.component.pat1SpeedUnits = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_scale_to_value
def pat1_scale_to_value(self):
    return self.component.pat1ScaleToValue

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat1_scale_to_value
def pat1_scale_to_value(self, value):
    self.component.pat1ScaleToValue = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_angle
def pat2_angle(self):
    return self.component.pat2Angle

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_angle
def pat2_angle(self, value):
    self.component.pat2Angle = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_speed
def pat2_speed(self):
    return self.component.pat2Speed

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_speed
def pat2_speed(self, value):
    self.component.pat2Speed = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_speed_units
def pat2_speed_units(self):
    return self.component.pat2SpeedUnits

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_speed_units
def pat2_speed_units(self, value):
    self.component.pat2SpeedUnits = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_scale_to_value
def pat2_scale_to_value(self):
    return self.component.pat2ScaleToValue

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.pat2_scale_to_value
def pat2_scale_to_value(self, value):
    self.component.pat2ScaleToValue = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.scale_by
def scale_by(self):
    return self.component.scaleBy

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.scale_by
def scale_by(self, value):
    self.component.scaleBy = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.extrapolate
def extrapolate(self):
    return self.component.bExtrapolateWinds

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.extrapolate
def extrapolate(self, value):
    self.component.bExtrapolateWinds = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.use_averaged_winds
def use_averaged_winds(self):
    return self.component.bUseAveragedWinds

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.use_averaged_winds
def use_averaged_winds(self, value):
    self.component.bUseAveragedWinds = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.wind_power_factor
def wind_power_factor(self):
    return self.component.fPowerFactorAveragedWinds

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.wind_power_factor
def wind_power_factor(self, value):
    self.component.fPowerFactorAveragedWinds = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.past_hours_to_average
def past_hours_to_average(self):
    return self.component.fPastHoursToAverage

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.past_hours_to_average
def past_hours_to_average(self, value):
    self.component.fPastHoursToAverage = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.scale_factor_averaged_winds
def scale_factor_averaged_winds(self):
    return self.component.fScaleFactorAveragedWinds

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.scale_factor_averaged_winds
def scale_factor_averaged_winds(self, value):
    self.component.fScaleFactorAveragedWinds = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.use_original_scale_factor
def use_original_scale_factor(self):
    return self.component.bUseMainDialogScaleFactor

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.use_original_scale_factor
def use_original_scale_factor(self, value):
    self.component.bUseMainDialogScaleFactor = value

@ getter gnome.cy_gnome.cy_component_mover.CyComponentMover.ref_point
def ref_point(self):
    ref = self.component.GetRefPosition()
    if int(ref.z) == -999:
        return None
    else:
        return (ref.p.pLong / 1000000.0, ref.p.pLat / 1000000.0, ref.z)

@ setter gnome.cy_gnome.cy_component_mover.CyComponentMover.ref_point
def ref_point(self, ref_point):
    pos = WorldPoint3D()
    pos.p.pLong = ref_point[0] * 10 ** 6
    pos.p.pLat = ref_point[1] * 10 ** 6
    pos.z = ref_point[2]
    self.component.SetRefPosition(pos)

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.set_ossm
def set_ossm(self, ossm):
    self.component.SetTimeFile(ossm.time_dep)
    return True

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.component.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_component_mover.CyComponentMover._get_velocity_handle
def _get_velocity_handle(self, pat):
    tmp_size = sizeof(VelocityFRec)
    vel_hdl = self.component.GetVelocityHdl(pat)
    if not vel_hdl:
        return 0
    sz = _GetHandleSize(vel_hdl)
    vels = np.empty((sz // tmp_size,), dtype=basic_types.velocity_rec)
    memcpy(addr(vels[0]), vel_hdl[0], sz)
    return vels

@ gnome.cy_gnome.cy_component_mover.CyComponentMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.component.GetTriangleCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_component_mover.CyComponentMover._get_world_points
def _get_world_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.component.GetWorldPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_component_mover.CyComponentMover._get_points
def _get_points(self):
    tmp_size = sizeof(LongPoint)
    pts_hdl = self.component.GetPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.long_point)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_component_mover.CyComponentMover._get_triangle_data
def _get_triangle_data(self):
    tmp_size = sizeof(Topology)
    top_hdl = self.component.GetTopologyHdl()
    sz = _GetHandleSize(top_hdl)
    top = np.empty((sz // tmp_size,), dtype=basic_types.triangle_data)
    memcpy(addr(top[0]), top_hdl[0], sz)
    return top

@ gnome.cy_gnome.cy_component_mover.CyComponentMover.get_optimize_value
def get_optimize_value(self, model_time, pattern_num):
    return self.component.GetOptimizeValue(model_time, pattern_num)

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.__cinit__
def __cinit__(self):
    self.mover = CurrentCycleMover_c()
    self.current_cycle = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.text_read
def text_read(self, time_grid_file, topology_file=None):
    time_grid = filename_as_bytes(time_grid_file)
    if topology_file is None:
        err = self.current_cycle.TextRead(time_grid, '')
    else:
        topology = filename_as_bytes(topology_file)
        err = self.current_cycle.TextRead(time_grid, topology)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.__init__
def __init__(self, current_scale=1, uncertain_duration=24 * 3600, uncertain_time_delay=0, uncertain_along=0.5, uncertain_cross=0.25, num_method='Euler'):
    self.num_method = num_method
    self.current_cycle.fCurScale = current_scale
    self.current_cycle.fDuration = uncertain_duration
    self.current_cycle.fUncertainStartTime = uncertain_time_delay
    self.current_cycle.fDownCurUncertainty = -1 * uncertain_along
    self.current_cycle.fUpCurUncertainty = uncertain_along
    self.current_cycle.fLeftCurUncertainty = -1 * uncertain_cross
    self.current_cycle.fRightCurUncertainty = uncertain_cross
    self.current_cycle.fIsOptimizedForStep = 0

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.current_scale
def current_scale(self):
    return self.current_cycle.fCurScale

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.current_scale
def current_scale(self, value):
    self.current_cycle.fCurScale = value

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_duration
def uncertain_duration(self):
    return self.current_cycle.fDuration

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_duration
def uncertain_duration(self, value):
    self.current_cycle.fDuration = value

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_time_delay
def uncertain_time_delay(self):
    return self.current_cycle.fUncertainStartTime

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_time_delay
def uncertain_time_delay(self, value):
    self.current_cycle.fUncertainStartTime = value

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_cross
def uncertain_cross(self):
    return self.current_cycle.fRightCurUncertainty

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_cross
def uncertain_cross(self, value):
    self.current_cycle.fRightCurUncertainty = value
    self.current_cycle.fLeftCurUncertainty = -1.0 * value

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_along
def uncertain_along(self):
    return self.current_cycle.fUpCurUncertainty

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.uncertain_along
def uncertain_along(self, value):
    self.current_cycle.fUpCurUncertainty = value
    self.current_cycle.fDownCurUncertainty = -1.0 * value

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.extrapolate
def extrapolate(self):
    return self.current_cycle.GetExtrapolationInTime()

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.extrapolate
def extrapolate(self, value):
    self.current_cycle.SetExtrapolationInTime(value)

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.time_offset
def time_offset(self):
    return self.current_cycle.GetTimeShift()

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.time_offset
def time_offset(self, value):
    self.current_cycle.SetTimeShift(value)

@ getter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.num_method
def num_method(self):
    return self._num_method

@ setter gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.num_method
def num_method(self, value):
    bvalue = value.encode('ASCII')
    self._num_method = bvalue
    self.current_cycle.num_method = basic_types.numerical_methods[value]

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.current_cycle.SetExtrapolationInTime(extrapolate)

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.offset_time
def offset_time(self, time_offset):
    self.current_cycle.SetTimeShift(time_offset)

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_offset_time
def get_offset_time(self):
    return self.current_cycle.GetTimeShift()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_start_time
def get_start_time(self):
    err, start_time = self.current_cycle.GetDataStartTime('&')
    return start_time

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_end_time
def get_end_time(self):
    err, end_time = self.current_cycle.GetDataEndTime('&')
    return end_time

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.set_shio
def set_shio(self, cy_shio):
    self.current_cycle.SetTimeDep(cy_shio.shio)
    self.current_cycle.SetRefPosition(cy_shio.shio.GetStationLocation())
    self.current_cycle.bTimeFileActive = True
    return True

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.set_ossm
def set_ossm(self, ossm):
    self.current_cycle.SetTimeDep(ossm.time_dep)
    self.current_cycle.bTimeFileActive = True
    return True

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.current_cycle.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_triangle_data
def _get_triangle_data(self):
    tmp_size = sizeof(Topology)
    top_hdl = self.current_cycle.GetTopologyHdl()
    sz = _GetHandleSize(top_hdl)
    top = np.empty((sz // tmp_size,), dtype=basic_types.triangle_data)
    memcpy(addr(top[0]), top_hdl[0], sz)
    return top

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.current_cycle.GetTriangleCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_points
def _get_points(self):
    tmp_size = sizeof(LongPoint)
    pts_hdl = self.current_cycle.GetPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.long_point)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.current_cycle.GetTriangleCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_triangle_data
def _get_triangle_data(self):
    tmp_size = sizeof(Topology)
    top_hdl = self.current_cycle.GetTopologyHdl()
    sz = _GetHandleSize(top_hdl)
    top = np.empty((sz // tmp_size,), dtype=basic_types.triangle_data)
    memcpy(addr(top[0]), top_hdl[0], sz)
    return top

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_cell_data
def _get_cell_data(self):
    tmp_size = sizeof(GridCellInfo)
    cell_data_hdl = self.current_cycle.GetCellDataHdl()
    sz = _GetHandleSize(cell_data_hdl)
    cell_data = np.empty((sz // tmp_size,), dtype=basic_types.cell_data)
    memcpy(addr(cell_data[0]), cell_data_hdl[0], sz)
    return cell_data

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._is_triangle_grid
def _is_triangle_grid(self):
    return self.current_cycle.IsTriangleGrid()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._is_data_on_cells
def _is_data_on_cells(self):
    return self.current_cycle.IsDataOnCells()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_num_triangles
def get_num_triangles(self):
    num_tri = self.current_cycle.GetNumTriangles()
    return num_tri

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._is_regular_grid
def _is_regular_grid(self):
    return self.current_cycle.IsRegularGrid()

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_num_points
def get_num_points(self):
    num_pts = self.current_cycle.GetNumPoints()
    return num_pts

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover._get_bounds
def _get_bounds(self):
    bounds = self.current_cycle.GetGridBounds()
    return bounds

@ gnome.cy_gnome.cy_currentcycle_mover.CyCurrentCycleMover.get_scaled_velocities
def get_scaled_velocities(self, model_time, vels):
    err = self.current_cycle.GetScaledVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.__cinit__
def __cinit__(self):
    self.mover = GridCurrentMover_c()
    self.grid_current = dc_mover_to_gc(self.mover)
    self.curr_mv = dc_mover_to_cm(self.mover)

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.text_read
def text_read(self, time_grid_file, topology_file=None):
    time_grid = filename_as_bytes(time_grid_file)
    if topology_file is None:
        err = self.grid_current.TextRead(time_grid, '')
    else:
        topology = filename_as_bytes(topology_file)
        err = self.grid_current.TextRead(time_grid, topology)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.export_topology
def export_topology(self, topology_file):
    topology_file_b = filename_as_bytes(topology_file)
    err = self.grid_current.ExportTopology(topology_file_b)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.__init__
def __init__(self, current_scale=1, uncertain_duration=24 * 3600, uncertain_time_delay=0, uncertain_along=0.5, uncertain_cross=0.25, num_method='Euler'):
    super(CyGridCurrentMover, self).__init__(uncertain_duration=uncertain_duration, uncertain_time_delay=uncertain_time_delay, up_cur_uncertain=uncertain_along, down_cur_uncertain=-1 * uncertain_along, right_cur_uncertain=uncertain_cross, left_cur_uncertain=-1 * uncertain_cross)
    self.grid_current.fCurScale = current_scale
    self.grid_current.fIsOptimizedForStep = 0
    self.num_method = num_method

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.current_scale
def current_scale(self):
    return self.grid_current.fCurScale

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.current_scale
def current_scale(self, value):
    self.grid_current.fCurScale = value

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.uncertain_cross
def uncertain_cross(self):
    return self.grid_current.fRightCurUncertainty

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.uncertain_cross
def uncertain_cross(self, value):
    self.grid_current.fRightCurUncertainty = value
    self.grid_current.fLeftCurUncertainty = -1.0 * value

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.uncertain_along
def uncertain_along(self):
    return self.grid_current.fUpCurUncertainty

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.uncertain_along
def uncertain_along(self, value):
    self.grid_current.fUpCurUncertainty = value
    self.grid_current.fDownCurUncertainty = -1.0 * value

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.extrapolate
def extrapolate(self):
    return self.grid_current.GetExtrapolationInTime()

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.extrapolate
def extrapolate(self, value):
    self.grid_current.SetExtrapolationInTime(value)

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.time_offset
def time_offset(self):
    return self.grid_current.GetTimeShift()

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.time_offset
def time_offset(self, value):
    self.grid_current.SetTimeShift(value)

@ getter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.num_method
def num_method(self):
    return self._num_method

@ setter gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.num_method
def num_method(self, value):
    self.grid_current.num_method = basic_types.numerical_methods[value]
    bvalue = value.encode('ASCII')
    self._num_method = bvalue

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.grid_current.SetExtrapolationInTime(extrapolate)

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.offset_time
def offset_time(self, time_offset):
    self.grid_current.SetTimeShift(time_offset)

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_offset_time
def get_offset_time(self):
    return self.grid_current.GetTimeShift()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_start_time
def get_start_time(self):
    err, start_time = self.grid_current.GetDataStartTime('&')
    return start_time

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_end_time
def get_end_time(self):
    err, end_time = self.grid_current.GetDataEndTime('&')
    return end_time

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.grid_current.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._get_points
def _get_points(self):
    tmp_size = sizeof(LongPoint)
    pts_hdl = self.grid_current.GetPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.long_point)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.grid_current.GetTriangleCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._get_triangle_data
def _get_triangle_data(self):
    tmp_size = sizeof(Topology)
    top_hdl = self.grid_current.GetTopologyHdl()
    sz = _GetHandleSize(top_hdl)
    top = np.empty((sz // tmp_size,), dtype=basic_types.triangle_data)
    memcpy(addr(top[0]), top_hdl[0], sz)
    return top

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._get_cell_data
def _get_cell_data(self):
    tmp_size = sizeof(GridCellInfo)
    cell_data_hdl = self.grid_current.GetCellDataHdl()
    sz = _GetHandleSize(cell_data_hdl)
    cell_data = np.empty((sz // tmp_size,), dtype=basic_types.cell_data)
    memcpy(addr(cell_data[0]), cell_data_hdl[0], sz)
    return cell_data

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._is_triangle_grid
def _is_triangle_grid(self):
    return self.grid_current.IsTriangleGrid()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._is_data_on_cells
def _is_data_on_cells(self):
    return self.grid_current.IsDataOnCells()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_num_triangles
def get_num_triangles(self):
    num_tri = self.grid_current.GetNumTriangles()
    return num_tri

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._is_regular_grid
def _is_regular_grid(self):
    return self.grid_current.IsRegularGrid()

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover._get_bounds
def _get_bounds(self):
    bounds = self.grid_current.GetGridBounds()
    return bounds

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_num_points
def get_num_points(self):
    num_pts = self.grid_current.GetNumPoints()
    return num_pts

@ gnome.cy_gnome.cy_gridcurrent_mover.CyGridCurrentMover.get_scaled_velocities
def get_scaled_velocities(self, model_time, vels):
    err = self.grid_current.GetScaledVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.__cinit__
def __cinit__(self):
    self.mover = GridWindMover_c()
    self.grid_wind = dc_mover_to_gw(self.mover)
    self.wind = dc_gw_mover_to_wm(self.mover)

@ getter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.wind_scale
def wind_scale(self):
    return self.grid_wind.fWindScale

@ setter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.wind_scale
def wind_scale(self, value):
    self.grid_wind.fWindScale = value

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.text_read
def text_read(self, time_grid_file, topology_file=None):
    time_grid = filename_as_bytes(time_grid_file)
    if topology_file is None:
        err = self.grid_wind.TextRead(time_grid, '')
    else:
        topology = filename_as_bytes(topology_file)
        err = self.grid_wind.TextRead(time_grid, topology)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.export_topology
def export_topology(self, topology_file):
    topology_file_b = filename_as_bytes(topology_file)
    err = self.grid_wind.ExportTopology(topology_file_b)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.__init__
def __init__(self, wind_scale=1):
    self.grid_wind.fWindScale = wind_scale
    self.grid_wind.fIsOptimizedForStep = 0

@ getter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.extrapolate
def extrapolate(self):
    return self.grid_wind.GetExtrapolationInTime()

@ setter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.extrapolate
def extrapolate(self, value):
    self.grid_wind.SetExtrapolationInTime(value)

@ getter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.time_offset
def time_offset(self):
    return self.grid_wind.GetTimeShift()

@ setter gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.time_offset
def time_offset(self, value):
    self.grid_wind.SetTimeShift(value)

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.extrapolate_in_time
def extrapolate_in_time(self, extrapolate):
    self.grid_wind.SetExtrapolationInTime(extrapolate)

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.offset_time
def offset_time(self, time_offset):
    self.grid_wind.SetTimeShift(time_offset)

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_start_time
def get_start_time(self):
    err, start_time = self.grid_wind.GetDataStartTime('&')
    return start_time

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_end_time
def get_end_time(self):
    err, end_time = self.grid_wind.GetDataEndTime('&')
    return end_time

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, windages, LE_status, spill_type):
    N = len(ref_points)
    err = self.grid_wind.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(windages[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover._is_regular_grid
def _is_regular_grid(self):
    return self.grid_wind.IsRegularGrid()

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_num_points
def get_num_points(self):
    num_points = self.grid_wind.GetNumPoints()
    return num_points

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_num_triangles
def get_num_triangles(self):
    num_tri = self.grid_wind.GetNumTriangles()
    return num_tri

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover._get_points
def _get_points(self):
    tmp_size = sizeof(LongPoint)
    pts_hdl = self.grid_wind.GetPointsHdl()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.long_point)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover._get_center_points
def _get_center_points(self):
    tmp_size = sizeof(WorldPoint)
    pts_hdl = self.grid_wind.GetCellCenters()
    sz = _GetHandleSize(pts_hdl)
    pts = np.empty((sz // tmp_size,), dtype=basic_types.w_point_2d)
    memcpy(addr(pts[0]), pts_hdl[0], sz)
    return pts

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover._get_cell_data
def _get_cell_data(self):
    tmp_size = sizeof(GridCellInfo)
    cell_data_hdl = self.grid_wind.GetCellDataHdl()
    if not cell_data_hdl:
        raise OSError()
    sz = _GetHandleSize(cell_data_hdl)
    cell_data = np.empty((sz // tmp_size,), dtype=basic_types.cell_data)
    memcpy(addr(cell_data[0]), cell_data_hdl[0], sz)
    return cell_data

@ gnome.cy_gnome.cy_gridwind_mover.CyGridWindMover.get_scaled_velocities
def get_scaled_velocities(self, model_time, vels):
    err = self.grid_wind.GetScaledVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_mover.CyIceMover.__cinit__
def __cinit__(self):
    self.mover = IceMover_c()
    self.grid_ice = dc_mover_to_im(self.mover)
    self.curr_mv = dc_im_mover_to_cm(self.mover)
    self.grid_current = dc_im_mover_to_gcm(self.mover)

@ gnome.cy_gnome.cy_ice_mover.CyIceMover.text_read
def text_read(self, time_grid_file, topology_file=None):
    time_grid = filename_as_bytes(time_grid_file)
    if topology_file is None:
        err = self.grid_ice.TextRead(time_grid, '')
    else:
        topology = filename_as_bytes(topology_file)
        err = self.grid_ice.TextRead(time_grid, topology)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_mover.CyIceMover.get_ice_fields
def get_ice_fields(self, model_time, fraction, thickness):
    err = self.grid_ice.GetIceFields(model_time, addr(fraction[0]), addr(thickness[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_mover.CyIceMover.get_ice_velocities
def get_ice_velocities(self, model_time, vels):
    err = self.grid_ice.GetIceVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_mover.CyIceMover.get_movement_velocities
def get_movement_velocities(self, model_time, vels):
    err = self.grid_ice.GetMovementVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_wind_mover.CyIceWindMover.__cinit__
def __cinit__(self):
    self.mover = IceWindMover_c()
    self.grid_wind_ice = dc_mover_to_im(self.mover)
    self.wind = dc_im_mover_to_cm(self.mover)
    self.grid_wind = dc_im_mover_to_gcm(self.mover)

@ gnome.cy_gnome.cy_ice_wind_mover.CyIceWindMover.text_read
def text_read(self, time_grid_file, topology_file=None):
    time_grid = filename_as_bytes(time_grid_file)
    if topology_file is None:
        err = self.grid_wind_ice.TextRead(time_grid, '')
    else:
        topology = filename_as_bytes(topology_file)
        err = self.grid_wind_ice.TextRead(time_grid, topology)
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_wind_mover.CyIceWindMover.get_ice_fields
def get_ice_fields(self, model_time, fraction, thickness):
    err = self.grid_wind_ice.GetIceFields(model_time, addr(fraction[0]), addr(thickness[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_wind_mover.CyIceWindMover.get_ice_velocities
def get_ice_velocities(self, model_time, vels):
    err = self.grid_wind_ice.GetIceVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_ice_wind_mover.CyIceWindMover.get_movement_velocities
def get_movement_velocities(self, model_time, vels):
    err = self.grid_wind_ice.GetMovementVelocities(model_time, addr(vels[0]))
    if err != 0:
        raise OSError()

@ gnome.cy_gnome.cy_random_mover.CyRandomMover.__cinit__
def __cinit__(self):
    self.mover = Random_c()
    self.rand = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_random_mover.CyRandomMover.__init__
def __init__(self, diffusion_coef=100000, uncertain_factor=2):
    if diffusion_coef < 0:
        raise ValueError()
    if uncertain_factor < 1:
        raise ValueError()
    self.rand.fDiffusionCoefficient = diffusion_coef
    self.rand.fUncertaintyFactor = uncertain_factor

@ getter gnome.cy_gnome.cy_random_mover.CyRandomMover.diffusion_coef
def diffusion_coef(self):
    return self.rand.fDiffusionCoefficient

@ setter gnome.cy_gnome.cy_random_mover.CyRandomMover.diffusion_coef
def diffusion_coef(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fDiffusionCoefficient = value

@ getter gnome.cy_gnome.cy_random_mover.CyRandomMover.uncertain_factor
def uncertain_factor(self):
    return self.rand.fUncertaintyFactor

@ setter gnome.cy_gnome.cy_random_mover.CyRandomMover.uncertain_factor
def uncertain_factor(self, value):
    if value < 1:
        raise ValueError()
    self.rand.fUncertaintyFactor = value

@ gnome.cy_gnome.cy_random_mover.CyRandomMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.rand.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.__cinit__
def __cinit__(self):
    self.mover = RandomVertical_c()
    self.rand = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.__init__
def __init__(self, vertical_diffusion_coef_above_ml=5, vertical_diffusion_coef_below_ml=0.11, horizontal_diffusion_coef_above_ml=100000, horizontal_diffusion_coef_below_ml=126, mixed_layer_depth=10.0, surface_is_allowed=False):
    if vertical_diffusion_coef_above_ml < 0:
        raise ValueError()
    if vertical_diffusion_coef_below_ml < 0:
        raise ValueError()
    if mixed_layer_depth < 0:
        raise ValueError()
    if horizontal_diffusion_coef_above_ml < 0:
        raise ValueError()
    if horizontal_diffusion_coef_below_ml < 0:
        raise ValueError()
    self.rand.fVerticalDiffusionCoefficient = vertical_diffusion_coef_above_ml
    self.rand.fVerticalBottomDiffusionCoefficient = vertical_diffusion_coef_below_ml
    self.rand.fHorizontalDiffusionCoefficient = horizontal_diffusion_coef_above_ml
    self.rand.fHorizontalDiffusionCoefficientBelowML = horizontal_diffusion_coef_below_ml
    self.rand.fMixedLayerDepth = mixed_layer_depth
    self.rand.bSurfaceIsAllowed = surface_is_allowed

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.vertical_diffusion_coef_above_ml
def vertical_diffusion_coef_above_ml(self):
    return self.rand.fVerticalDiffusionCoefficient

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.vertical_diffusion_coef_above_ml
def vertical_diffusion_coef_above_ml(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fVerticalDiffusionCoefficient = value

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.vertical_diffusion_coef_below_ml
def vertical_diffusion_coef_below_ml(self):
    return self.rand.fVerticalBottomDiffusionCoefficient

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.vertical_diffusion_coef_below_ml
def vertical_diffusion_coef_below_ml(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fVerticalBottomDiffusionCoefficient = value

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.mixed_layer_depth
def mixed_layer_depth(self):
    return self.rand.fMixedLayerDepth

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.mixed_layer_depth
def mixed_layer_depth(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fMixedLayerDepth = value

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.horizontal_diffusion_coef_above_ml
def horizontal_diffusion_coef_above_ml(self):
    return self.rand.fHorizontalDiffusionCoefficient

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.horizontal_diffusion_coef_above_ml
def horizontal_diffusion_coef_above_ml(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fHorizontalDiffusionCoefficient = value

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.horizontal_diffusion_coef_below_ml
def horizontal_diffusion_coef_below_ml(self):
    return self.rand.fHorizontalDiffusionCoefficientBelowML

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.horizontal_diffusion_coef_below_ml
def horizontal_diffusion_coef_below_ml(self, value):
    if value < 0:
        raise ValueError()
    self.rand.fHorizontalDiffusionCoefficientBelowML = value

@ getter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.surface_is_allowed
def surface_is_allowed(self):
    return self.rand.bSurfaceIsAllowed

@ setter gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.surface_is_allowed
def surface_is_allowed(self, value):
    self.rand.bSurfaceIsAllowed = value

@ gnome.cy_gnome.cy_random_mover_3d.CyRandomMover3D.get_move
def get_move(self, model_time, step_len, ref_points, delta, LE_status, spill_type):
    N = len(ref_points)
    err = self.rand.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_rise_velocity_mover.CyRiseVelocityMover.__cinit__
def __cinit__(self):
    self.mover = RiseVelocity_c()
    self.rise_vel = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_rise_velocity_mover.CyRiseVelocityMover.__init__
def __init__(self):
    pass

@ gnome.cy_gnome.cy_rise_velocity_mover.CyRiseVelocityMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, rise_velocity, LE_status, spill_type):
    N = len(ref_points)
    err = self.rise_vel.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(rise_velocity[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        msg = "{0}: expected '{1}', got '{2}'"
        raise ValueError()

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.__cinit__
def __cinit__(self):
    self.mover = WindMover_c()
    self.wind = dynamic_cast_ptr(self.mover)

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.__init__
def __init__(self, uncertain_duration=10800, uncertain_time_delay=0, uncertain_speed_scale=2, uncertain_angle_scale=0.4):
    self.wind.fIsConstantWind = 1
    self.wind.fConstantValue.u = 0
    self.wind.fConstantValue.v = 0
    self.wind.fDuration = uncertain_duration
    self.wind.fUncertainStartTime = uncertain_time_delay
    self.wind.fSpeedScale = uncertain_speed_scale
    self.wind.fAngleScale = uncertain_angle_scale

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.__eq
def __eq(self, other):
    scalar_attrs = ('uncertain_duration', 'uncertain_time_delay', 'uncertain_speed_scale', 'uncertain_angle_scale')
    for a in scalar_attrs:
        if not getattr(self, a) == getattr(other, a):
            return False
    return True

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.__richcmp__
def __richcmp__(self, other, cmp):
    if cmp not in (2, 3):
        raise NotImplemented()
    if cmp == 2:
        return self.__eq(other)
    elif cmp == 3:
        return not self.__eq(other)

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.get_move
def get_move(self, model_time, step_len, ref_points, delta, windages, LE_status, spill_type):
    N = len(ref_points)
    err = self.wind.get_move(N, model_time, step_len, addr(ref_points[0]), addr(delta[0]), addr(windages[0]), addr(LE_status[0]), spill_type, 0)
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.set_constant_wind
def set_constant_wind(self, windU, windV):
    self.wind.fConstantValue.u = windU
    self.wind.fConstantValue.v = windV
    self.wind.fIsConstantWind = 1

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.set_ossm
def set_ossm(self, ossm):
    self.wind.SetTimeDep(ossm.time_dep)
    self.wind.fIsConstantWind = 0
    return True

@ gnome.cy_gnome.cy_wind_mover.CyWindMover.get_time_value
def get_time_value(self, modelTime):
    modelTimeArray = np.asarray(modelTime, basic_types.seconds).reshape((-1,))
    vel_rec = np.empty((modelTimeArray.size,), dtype=basic_types.velocity_rec)
    for i in range(0, modelTimeArray.size):
        err = self.wind.GetTimeValue(modelTimeArray[i], addr(vel_rec[i]))
        if err != 0:
            raise ValueError
    return vel_rec


## R9 native random movement
@ gnome.lib.Random_c.Random_c.__init__
def __init__(self):
    self.Init()

@ gnome.lib.Random_c.Random_c.Init
def Init(self):
    self.fDiffusionCoefficient = 100000
    self.fOptimize = allbytes(0)
    self.fUncertaintyFactor = 2
    self.bUseDepthDependent = False

@ gnome.lib.Random_c.Random_c.PrepareForModelRun
def PrepareForModelRun(self):
    self.fOptimize.isFirstStep = True
    return 0

@ gnome.lib.Random_c.Random_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    self.fOptimize.isOptimizedForStep = True
    self.fOptimize.value = math.sqrt(6 * (self.fDiffusionCoefficient / 10000) * abs(time_step)) / 111120.00024
    self.fOptimize.uncertaintyValue = math.sqrt(self.fUncertaintyFactor * 6 * (self.fDiffusionCoefficient / 10000) * abs(time_step)) / 111120.00024
    return 0

@ gnome.lib.Random_c.Random_c.ModelStepIsDone
def ModelStepIsDone(self):
    if self.fOptimize.isFirstStep == True:
        self.fOptimize.isFirstStep = False
    self.fOptimize = allbytes(0)

@ gnome.lib.Random_c.Random_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not delta or not ref:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.Random_c.Random_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    dLong = '?dLong'
    dLat = '?dLat'
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = copy.copy(theLE.p)
    rand1 = '?rand1'
    rand2 = '?rand2'
    diffusionCoefficient = '?diffusionCoefficient'
    if theLE.z > 0:
        return copy.copy(deltaPoint)
    if self.bUseDepthDependent:
        depth = 0
        localDiffusionCoefficient = '?localDiffusionCoefficient'
        factor = '?factor'
        if depth == 0:
            factor = 1
        else:
            factor = 1 + math.exp(1 - 1 / (0.1 * depth))
        if depth > 20:
            localDiffusionCoefficient = math.pow(10, factor)
        else:
            localDiffusionCoefficient = 0
        self.fOptimize.value = math.sqrt(6 * (localDiffusionCoefficient / 10000) * abs(timeStep)) / 111120.00024
        self.fOptimize.uncertaintyValue = math.sqrt(self.fUncertaintyFactor * 6 * (localDiffusionCoefficient / 10000) * abs(timeStep)) / 111120.00024
    if not self.fOptimize.isOptimizedForStep and (not self.bUseDepthDependent):
        self.fOptimize.value = math.sqrt(6 * (self.fDiffusionCoefficient / 10000) * abs(timeStep)) / 111120.00024
        self.fOptimize.uncertaintyValue = math.sqrt(self.fUncertaintyFactor * 6 * (self.fDiffusionCoefficient / 10000) * abs(timeStep)) / 111120.00024
    if leType == UNCERTAINTY_LE:
        diffusionCoefficient = self.fOptimize.uncertaintyValue
    else:
        diffusionCoefficient = self.fOptimize.value
    if self.fOptimize.isFirstStep:
        _, rand1, rand2 = GetRandomVectorInUnitCircle(rand1, rand2)
    else:
        rand1 = GetRandomFloat(-1, 1)
        rand2 = GetRandomFloat(-1, 1)
    dLong = rand1 * diffusionCoefficient / LongToLatRatio3(int(refPoint.pLat))
    dLat = rand2 * diffusionCoefficient
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)


## R10 native movers: the displacement of every element, its uncertainty and their renewal
@ gnome.lib.Mover_c.Mover_c.VelocityStrAtPoint
def VelocityStrAtPoint(self, wp, velStr):
    return False

@ gnome.lib.Mover_c.Mover_c.GetArrowDepth
def GetArrowDepth(self):
    return 0

@ gnome.lib.Mover_c.Mover_c.GetPointsHdl
def GetPointsHdl(self):
    return None

@ gnome.lib.Mover_c.Mover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return 0

@ gnome.lib.Mover_c.Mover_c.PrepareForModelStep
def PrepareForModelStep(self, _unused1, _unused2, _unused3, numLESets, LESetsSizesList):
    return 0

@ gnome.lib.Mover_c.Mover_c.ModelStepIsDone
def ModelStepIsDone(self):
    return

@ gnome.lib.Mover_c.Mover_c.ReallocateUncertainty
def ReallocateUncertainty(self, numLEs, LE_Status):
    return 0

@ gnome.lib.Mover_c.Mover_c.__init__
def __init__(self):
    self.bActive = True
    self.bOpen = False
    self.fUncertainStartTime = 0
    self.fDuration = 0
    self.fTimeUncertaintyWasSet = 0

@ gnome.lib.Mover_c.Mover_c.UpdateUncertainty
def UpdateUncertainty(self, elapsedTime, numLESets, LESetsSizesList):
    return 0

@ gnome.lib.Mover_c.Mover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    theLE3D = WorldPoint3D()
    theLE3D.p.pLat = theLE.p.pLat
    theLE3D.p.pLong = theLE.p.pLong
    theLE3D.z = theLE.z
    return copy.copy(theLE3D)

@ gnome.lib.WindMover_c.WindMover_c.GetTimeDep
def GetTimeDep(self):
    return self.timeDep

@ gnome.lib.WindMover_c.WindMover_c.SetIsConstantWind
def SetIsConstantWind(self, isConstantWind):
    self.fIsConstantWind = isConstantWind

@ gnome.lib.WindMover_c.WindMover_c.__init__
def __init__(self):
    self.Init()

@ gnome.lib.WindMover_c.WindMover_c.Init
def Init(self):
    self.timeDep = None
    self.fModelStartTime = 0
    self.fUncertainStartTime = 0
    self.fDuration = 3 * 3600
    self.fWindUncertaintyList = None
    self.fLESetSizes = None
    self.fSpeedScale = 2
    self.fMaxSpeed = 30
    self.fAngleScale = 0.4
    self.fMaxAngle = 60
    self.fSigma2 = 0
    self.fSigmaTheta = 0
    self.fGamma = 1
    self.fUncertaintyDiffusion = 0
    self.bTimeFileOpen = 0
    self.bIsFirstStep = False
    self.bUncertaintyPointOpen = False
    self.bSubsurfaceActive = False
    self.fIsConstantWind = False
    self.fConstantValue.v = 0
    self.fConstantValue.u = self.fConstantValue.v
    self.bShowWindBarb = True
    self.fWindBarbRect = allbytes(0)

@ gnome.lib.WindMover_c.WindMover_c.UpdateUncertaintyValues
def UpdateUncertaintyValues(self, elapsedTime):
    i = '?i'
    j = '?j'
    n = '?n'
    cosTerm = '?cosTerm'
    sinTerm = '?sinTerm'
    self.fTimeUncertaintyWasSet = elapsedTime
    if not self.fWindUncertaintyList:
        return
    n = _GetHandleSize(self.fWindUncertaintyList) // sizeof('LEWindUncertainRec')
    for i in range(0, n):
        _, cosTerm, sinTerm = rndv(cosTerm, sinTerm)
        for j in range(0, 10):
            if TermsLessThanMax(cosTerm, sinTerm, self.fMaxSpeed, self.fMaxAngle, self.fSigma2, self.fSigmaTheta):
                break
            _, cosTerm, sinTerm = rndv(cosTerm, sinTerm)
        self.fWindUncertaintyList[0][i].randCos = cosTerm
        self.fWindUncertaintyList[0][i].randSin = sinTerm

@ gnome.lib.WindMover_c.WindMover_c.ReallocateUncertainty
def ReallocateUncertainty(self, numLEs, statusCodes):
    i = '?i'
    numrec = 0
    uncertListSize = '?uncertListSize'
    numLESetsStored = '?numLESetsStored'
    if numLEs == 0 or not statusCodes:
        return -1
    if not self.fWindUncertaintyList or not self.fLESetSizes:
        return 0
    uncertListSize = _GetHandleSize(self.fWindUncertaintyList) // sizeof('LEWindUncertainRec')
    numLESetsStored = _GetHandleSize(self.fLESetSizes) // sizeof('long')
    if uncertListSize != numLEs:
        return -1
    if numLESetsStored != 1:
        return -1
    for i in range(0, numLEs):
        if statusCodes[i] == OILSTAT_TO_BE_REMOVED:
            pass
        else:
            self.fWindUncertaintyList[0][numrec] = copy.copy(self.fWindUncertaintyList[0][i])
            _old6 = numrec
            numrec += 1
    if numrec == 0:
        self.DisposeUncertainty()
        return 0
    if numrec < uncertListSize:
        _SetHandleSize(self.fWindUncertaintyList, numrec * sizeof('LEWindUncertainRec'))
    return 0

@ gnome.lib.WindMover_c.WindMover_c.AllocateUncertainty
def AllocateUncertainty(self, numLESets, LESetsSizesList):
    i = '?i'
    numrec = 0
    self.DisposeUncertainty()
    self.fLESetSizes = _NewHandle(sizeof('long') * numLESets)
    if not self.fLESetSizes:
        self.DisposeUncertainty()
        printf('"%s"', '"TWindMover_c::AllocateUncertainty()"')
        return memFullErr
    i = 0
    numrec = 0
    while i < numLESets:
        self.fLESetSizes[0][i] = numrec
        numrec = numrec + LESetsSizesList[i]
        i += 1
    self.fWindUncertaintyList = _NewHandle(sizeof('LEWindUncertainRec') * numrec)
    if not self.fWindUncertaintyList:
        self.DisposeUncertainty()
        printf('"%s"', '"TWindMover_c::AllocateUncertainty()"')
        return memFullErr
    return 0
    self.DisposeUncertainty()
    printf('"%s"', '"TWindMover_c::AllocateUncertainty()"')
    return memFullErr

@ gnome.lib.WindMover_c.WindMover_c.UpdateUncertainty
def UpdateUncertainty(self, elapsedTime, numLESets, LESetsSizesList):
    err = 0
    i = '?i'
    j = '?j'
    needToReInit = False
    needToReAllocate = False
    bAddUncertainty = elapsedTime >= self.fUncertainStartTime
    if not bAddUncertainty:
        if self.fWindUncertaintyList:
            self.DisposeUncertainty()
        return 0
    if not self.fWindUncertaintyList or not self.fLESetSizes:
        needToReInit = True
    if elapsedTime < self.fTimeUncertaintyWasSet:
        needToReInit = True
    if self.fLESetSizes:
        numrec = '?numrec'
        uncertListSize = 0
        numLESetsStored = '?numLESetsStored'
        numLESetsStored = _GetHandleSize(self.fLESetSizes) // sizeof('long')
        if numLESets != numLESetsStored:
            needToReInit = True
        else:
            i = 0
            numrec = 0
            while i < numLESets:
                if numrec != self.fLESetSizes[0][i]:
                    needToReInit = True
                    break
                numrec = numrec + LESetsSizesList[i]
                i += 1
            uncertListSize = _GetHandleSize(self.fWindUncertaintyList) // sizeof('LEWindUncertainRec')
            if numrec != uncertListSize:
                if numrec > uncertListSize:
                    needToReAllocate = True
                else:
                    needToReInit = True
        if needToReAllocate:
            cosTerm = '?cosTerm'
            sinTerm = '?sinTerm'
            _SetHandleSize(self.fWindUncertaintyList, numrec * sizeof('LEWindUncertainRec'))
            if numLESets != 1 or numLESetsStored != 1:
                printf('"%s"', '"num uncertainty spills not equal 1\\n"')
                return -1
            if needToReInit:
                printf('"%s"', '"Uncertainty arrays are being reset\\n"')
            for i in range(uncertListSize, numrec):
                _, cosTerm, sinTerm = rndv(cosTerm, sinTerm)
                for j in range(0, 10):
                    if TermsLessThanMax(cosTerm, sinTerm, self.fMaxSpeed, self.fMaxAngle, self.fSigma2, self.fSigmaTheta):
                        break
                    _, cosTerm, sinTerm = rndv(cosTerm, sinTerm)
                self.fWindUncertaintyList[0][i].randCos = cosTerm
                self.fWindUncertaintyList[0][i].randSin = sinTerm
    self.fSigma2 = self.fSpeedScale * 0.315 * math.pow(elapsedTime - self.fUncertainStartTime, 0.147)
    self.fSigma2 = self.fSigma2 * self.fSigma2 / 2
    self.fSigmaTheta = self.fAngleScale * 2.73 * math.sqrt(math.sqrt(elapsedTime - self.fUncertainStartTime))
    if needToReInit:
        err = self.AllocateUncertainty(numLESets, LESetsSizesList)
        if not err:
            self.UpdateUncertaintyValues(elapsedTime)
        if err:
            return err
    elif elapsedTime >= self.fTimeUncertaintyWasSet + self.fDuration:
        self.UpdateUncertaintyValues(elapsedTime)
    return err

@ gnome.lib.WindMover_c.WindMover_c.AddUncertainty
def AddUncertainty(self, setIndex, leIndex, patVel):
    err = 0
    sqs = '?sqs'
    m = '?m'
    dtheta = '?dtheta'
    x = '?x'
    w = '?w'
    s = '?s'
    t = '?t'
    costheta = '?costheta'
    sintheta = '?sintheta'
    norm = '?norm'
    rand1 = '?rand1'
    rand2 = '?rand2'
    tempV = copy.copy(patVel)
    unrec = LEWindUncertainRec()
    if not self.fWindUncertaintyList or not self.fLESetSizes:
        return 0
    norm = math.sqrt(tempV.v * tempV.v + tempV.u * tempV.u)
    if norm < 1:
        rand1 = GetRandomFloat(-1, 1)
        rand2 = GetRandomFloat(-1, 1)
        patVel.u = tempV.u + self.fUncertaintyDiffusion * rand1
        patVel.v = tempV.v + self.fUncertaintyDiffusion * rand2
        return 0
    unrec = copy.copy(self.fWindUncertaintyList[0][self.fLESetSizes[0][setIndex] + leIndex])
    w = norm
    s = w * w - self.fSigma2
    if s > 0:
        sqs = math.sqrt(s)
        m = math.sqrt(sqs)
    else:
        sqs = 0
        m = 0
    s = math.sqrt(w - sqs)
    x = unrec.randCos * s + m
    w = x * x
    dtheta = unrec.randSin * self.fSigmaTheta * 3.14159265359 / 180
    costheta = math.cos(dtheta)
    sintheta = math.sin(dtheta)
    w = w / (0.001 if costheta < 0.001 else costheta)
    t = w / norm
    tempV.u = tempV.u * t
    tempV.v = tempV.v * t
    patVel.u = tempV.u * costheta - tempV.v * sintheta
    patVel.v = tempV.v * costheta + tempV.u * sintheta
    return err

@ gnome.lib.WindMover_c.WindMover_c.ClearWindValues
def ClearWindValues(self):
    if self.timeDep:
        self.timeDep.Dispose()
    self.fConstantValue.v = 0
    self.fConstantValue.u = self.fConstantValue.v

@ gnome.lib.WindMover_c.WindMover_c.DeleteTimeDep
def DeleteTimeDep(self):
    if self.timeDep:
        self.timeDep.Dispose()
        delete(self.timeDep)
        self.timeDep = None

@ gnome.lib.WindMover_c.WindMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    self.bIsFirstStep = True
    self.DisposeUncertainty()
    return 0

@ gnome.lib.WindMover_c.WindMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if uncertain:
        elapsed_time = int(abs(model_time + time_step - self.fModelStartTime))
        eddyDiffusion = 1000000
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
        self.fUncertaintyDiffusion = math.sqrt(6 * (eddyDiffusion / 10000) / abs(time_step))
    err = self.GetTimeValue(model_time, self.current_time_value)
    return err

@ gnome.lib.WindMover_c.WindMover_c.GetTimeValue
def GetTimeValue(self, current_time, value):
    timeValue = VelocityRec(0, 0)
    err = 0
    if self.fIsConstantWind:
        timeValue = copy.copy(self.fConstantValue)
    elif self.timeDep:
        err = self.timeDep.GetTimeValue(current_time, timeValue)
    value = copy.copy(timeValue)
    return err

@ gnome.lib.WindMover_c.WindMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.bIsFirstStep = False

@ gnome.lib.WindMover_c.WindMover_c.CheckStartTime
def CheckStartTime(self, time):
    err = 0
    if self.fIsConstantWind:
        return -2
    elif self.timeDep:
        err = self.timeDep.CheckStartTime(time)
    return err

@ gnome.lib.WindMover_c.WindMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, windages, LE_status, spillType, spill_ID):
    if (not delta or not ref) or not windages:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.windage = windages[i]
        rec.p.pLat = rec.p.pLat * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.WindMover_c.WindMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    err = 0
    dLong = '?dLong'
    dLat = '?dLat'
    timeValue = VelocityRec(0, 0)
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = copy.copy(theLE.p)
    if theLE.z > 0:
        return copy.copy(deltaPoint)
    timeValue.u = self.current_time_value.u
    timeValue.v = self.current_time_value.v
    if err:
        return copy.copy(deltaPoint)
    if leType == UNCERTAINTY_LE:
        err = self.AddUncertainty(setIndex, leIndex, timeValue)
    timeValue.u = timeValue.u * theLE.windage
    timeValue.v = timeValue.v * theLE.windage
    dLong = timeValue.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.pLat))
    dLat = timeValue.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.WindMover_c.WindMover_c.SetTimeDep
def SetTimeDep(self, newTimeDep):
    self.timeDep = newTimeDep

@ func gnome.lib.WindMover_c.TermsLessThanMax
def TermsLessThanMax(cosTerm, sinTerm, speedMax, angleMax, sigma2, sigmaTheta):
    return abs(sigmaTheta * sinTerm) <= angleMax

@ func gnome.lib.WindMover_c.rndv
def rndv(rndv1, rndv2):
    cosArg = 2 * 3.14159265359 * GetRandomFloat(0, 1)
    srt = math.sqrt(-2 * math.log(GetRandomFloat(0.001, 0.999)))
    rndv1[0] = srt * math.cos(cosArg)
    rndv2[0] = srt * math.sin(cosArg)

@ gnome.lib.CurrentMover_c.CurrentMover_c.GetGridBounds
def GetGridBounds(self):
    theWorld = WorldRect(-360000000, -90000000, 360000000, 90000000)
    return copy.copy(theWorld)

@ gnome.lib.CurrentMover_c.CurrentMover_c.GetArrowDepth
def GetArrowDepth(self):
    return 0

@ gnome.lib.CurrentMover_c.CurrentMover_c.__init__
def __init__(self):
    self.fDuration = 48 * 3600
    self.fUncertainStartTime = 0
    self.fTimeUncertaintyWasSet = 0
    self.fDownCurUncertainty = -0.3
    self.fUpCurUncertainty = 0.3
    self.fRightCurUncertainty = 0.1
    self.fLeftCurUncertainty = -0.1
    self.fLESetSizesH = None
    self.fUncertaintyListH = None
    self.bIAmPartOfACompoundMover = False
    self.bIAmA3DMover = False
    self.bIsFirstStep = False
    self.fModelStartTime = 0

@ gnome.lib.CurrentMover_c.CurrentMover_c.UpdateUncertaintyValues
def UpdateUncertaintyValues(self, elapsedTime):
    i = '?i'
    n = '?n'
    self.fTimeUncertaintyWasSet = elapsedTime
    if not self.fUncertaintyListH:
        return
    n = _GetHandleSize(self.fUncertaintyListH) // sizeof('LEUncertainRec')
    for i in range(0, n):
        localCopy = LEUncertainRec()
        memset(localCopy, 0, sizeof('LEUncertainRec'))
        if self.fDownCurUncertainty < self.fUpCurUncertainty:
            localCopy.downStream = GetRandomFloat(self.fDownCurUncertainty, self.fUpCurUncertainty)
        else:
            localCopy.downStream = GetRandomFloat(self.fUpCurUncertainty, self.fDownCurUncertainty)
        if self.fLeftCurUncertainty < self.fRightCurUncertainty:
            localCopy.crossStream = GetRandomFloat(self.fLeftCurUncertainty, self.fRightCurUncertainty)
        else:
            localCopy.crossStream = GetRandomFloat(self.fRightCurUncertainty, self.fLeftCurUncertainty)
        self.fUncertaintyListH[0][i] = copy.copy(localCopy)

@ gnome.lib.CurrentMover_c.CurrentMover_c.ReallocateUncertainty
def ReallocateUncertainty(self, numLEs, statusCodes):
    i = '?i'
    numrec = 0
    uncertListSize = '?uncertListSize'
    numLESetsStored = '?numLESetsStored'
    if numLEs == 0 or not statusCodes:
        return -1
    if not self.fUncertaintyListH or not self.fLESetSizesH:
        return 0
    uncertListSize = _GetHandleSize(self.fUncertaintyListH) // sizeof('LEUncertainRec')
    numLESetsStored = _GetHandleSize(self.fLESetSizesH) // sizeof('long')
    if uncertListSize != numLEs:
        return -1
    if numLESetsStored != 1:
        return -1
    for i in range(0, numLEs):
        if statusCodes[i] == OILSTAT_TO_BE_REMOVED:
            continue
        else:
            self.fUncertaintyListH[0][numrec] = copy.copy(self.fUncertaintyListH[0][i])
            _old6 = numrec
            numrec += 1
    if numrec == 0:
        self.DisposeUncertainty()
        return 0
    if numrec < uncertListSize:
        _SetHandleSize(self.fUncertaintyListH, numrec * sizeof('LEUncertainRec'))
    return 0

@ gnome.lib.CurrentMover_c.CurrentMover_c.AllocateUncertainty
def AllocateUncertainty(self, numLESets, LESetsSizesList):
    i = '?i'
    numrec = 0
    self.DisposeUncertainty()
    self.fLESetSizesH = _NewHandle(sizeof('long') * numLESets)
    if not self.fLESetSizesH:
        self.DisposeUncertainty()
        printf('"%s"', '"TCurrentMover::AllocateUncertainty()"')
        return memFullErr
    i = 0
    numrec = 0
    while i < numLESets:
        self.fLESetSizesH[0][i] = numrec
        numrec = numrec + LESetsSizesList[i]
        i += 1
    self.fUncertaintyListH = _NewHandle(sizeof('LEUncertainRec') * numrec)
    if not self.fUncertaintyListH:
        self.DisposeUncertainty()
        printf('"%s"', '"TCurrentMover::AllocateUncertainty()"')
        return memFullErr
    return 0
    self.DisposeUncertainty()
    printf('"%s"', '"TCurrentMover::AllocateUncertainty()"')
    return memFullErr

@ gnome.lib.CurrentMover_c.CurrentMover_c.UpdateUncertainty
def UpdateUncertainty(self, elapsedTime, numLESets, LESetsSizesList):
    err = 0
    i = '?i'
    needToReInit = False
    needToReAllocate = False
    bAddUncertainty = elapsedTime >= self.fUncertainStartTime
    if not bAddUncertainty:
        if self.fUncertaintyListH:
            self.DisposeUncertainty()
        return 0
    if not self.fUncertaintyListH or not self.fLESetSizesH:
        needToReInit = True
    if elapsedTime < self.fTimeUncertaintyWasSet:
        needToReInit = True
    if self.fLESetSizesH:
        numrec = '?numrec'
        uncertListSize = 0
        numLESetsStored = '?numLESetsStored'
        numLESetsStored = _GetHandleSize(self.fLESetSizesH) // sizeof('long')
        if numLESets != numLESetsStored:
            needToReInit = True
        else:
            i = 0
            numrec = 0
            while i < numLESets:
                if numrec != self.fLESetSizesH[0][i]:
                    needToReInit = True
                    break
                numrec = numrec + LESetsSizesList[i]
                i += 1
            uncertListSize = _GetHandleSize(self.fUncertaintyListH) // sizeof('LEUncertainRec')
            if numrec != uncertListSize:
                if numrec > uncertListSize:
                    needToReAllocate = True
                else:
                    needToReInit = True
        if needToReAllocate:
            _SetHandleSize(self.fUncertaintyListH, numrec * sizeof('LEUncertainRec'))
            if numLESets != 1 or numLESetsStored != 1:
                printf('"%s"', '"num uncertainty spills not equal 1\\n"')
                return -1
            if needToReInit:
                printf('"%s"', '"Uncertainty arrays are being reset\\n"')
            for i in range(uncertListSize, numrec):
                localCopy = LEUncertainRec()
                memset(localCopy, 0, sizeof('LEUncertainRec'))
                if self.fDownCurUncertainty < self.fUpCurUncertainty:
                    localCopy.downStream = GetRandomFloat(self.fDownCurUncertainty, self.fUpCurUncertainty)
                else:
                    localCopy.downStream = GetRandomFloat(self.fUpCurUncertainty, self.fDownCurUncertainty)
                if self.fLeftCurUncertainty < self.fRightCurUncertainty:
                    localCopy.crossStream = GetRandomFloat(self.fLeftCurUncertainty, self.fRightCurUncertainty)
                else:
                    localCopy.crossStream = GetRandomFloat(self.fRightCurUncertainty, self.fLeftCurUncertainty)
                self.fUncertaintyListH[0][i] = copy.copy(localCopy)
    if needToReInit:
        err = self.AllocateUncertainty(numLESets, LESetsSizesList)
        if not err:
            self.UpdateUncertaintyValues(elapsedTime)
        if err:
            return err
    elif elapsedTime >= self.fTimeUncertaintyWasSet + self.fDuration:
        self.UpdateUncertaintyValues(elapsedTime)
    return err

@ gnome.lib.CurrentMover_c.CurrentMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    self.bIsFirstStep = True
    self.DisposeUncertainty()
    return 0

@ gnome.lib.CurrentMover_c.CurrentMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if uncertain:
        elapsed_time = int(abs(model_time - self.fModelStartTime))
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
    if err:
        printf('"%s"', '"An error occurred in TCurrentMover::PrepareForModelStep"')
    return err

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.__init__
def __init__(self):
    self.Init()

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.Init
def Init(self):
    pass

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.PrepareForModelRun
def PrepareForModelRun(self):
    return 0

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    return 0

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.ModelStepIsDone
def ModelStepIsDone(self):
    pass

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, rise_velocity, LE_status, spillType, spill_ID):
    if (not delta or not ref) or not rise_velocity:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.riseVelocity = rise_velocity[i]
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, rec, spillType)
    return 0

@ gnome.lib.RiseVelocity_c.RiseVelocity_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    deltaPoint.z = -1 * theLE.riseVelocity * timeStep
    return copy.copy(deltaPoint)

@ func gnome.lib.RiseVelocity_c.GetDropletSize
def GetDropletSize(riseVelocity, water_viscosity, water_density, oil_density):
    y0 = 0.5
    y1 = 1
    chk = 1
    i = 0
    while chk > 5e-05:
        y1 = y0 + (riseVelocity - GetRiseVelocity(oil_density, water_viscosity, water_density, y0)) / GetRiseVelocityDerivative(oil_density, water_viscosity, water_density, y0)
        chk = abs(y1 - y0)
        _old8 = i
        i += 1
        if i > 25:
            break
    return y1

@ func gnome.lib.RiseVelocity_c.GetRiseVelocity
def GetRiseVelocity(le_density, le_droplet_size, water_viscosity, water_density):
    g = 9.8
    riseVelocity = 0
    dfac = g * (water_density - le_density) / water_density
    d1 = 0.0002
    d2 = 0.01
    scaled_dropletSize = (le_droplet_size - d1) / (d2 - d1)
    a1 = '?a1'
    a2 = '?a2'
    a3 = '?a3'
    a4 = '?a4'
    c0 = '?c0'
    c1 = '?c1'
    c2 = '?c2'
    c3 = '?c3'
    if scaled_dropletSize < 0:
        ds = scaled_dropletSize * (d2 - d1) + d1
        riseVelocity = dfac * ds * ds / (18 * water_viscosity)
    elif scaled_dropletSize >= 1:
        df = scaled_dropletSize * (d2 - d1) + d1
        riseVelocity = math.sqrt(8 * dfac * df / 3)
    else:
        a1 = dfac * d1 * d1 / (18 * water_viscosity)
        a2 = a1 * (d2 - d1) / (2 * d1)
        a3 = math.sqrt(8 * dfac * d2 / 3)
        a4 = a3 * (d2 - d1) / (2 * d2)
        c3 = 2 * a1 + a2 - 2 * a3 + a4
        c2 = -3 * a1 - 2 * a2 + 3 * a3 - a4
        c1 = a2
        c0 = a1
        riseVelocity = ((c3 * scaled_dropletSize + c2) * scaled_dropletSize + c1) * scaled_dropletSize + c0
    return riseVelocity

@ func gnome.lib.RiseVelocity_c.GetRiseVelocityDerivative
def GetRiseVelocityDerivative(oil_density, water_viscosity, water_density, droplet_size):
    g = 9.8
    dfac = g * (water_density - oil_density) / water_density
    a1 = '?a1'
    a2 = '?a2'
    a3 = '?a3'
    a4 = '?a4'
    c1 = '?c1'
    c2 = '?c2'
    c3 = '?c3'
    d1 = 0.0002
    d2 = 0.01
    if droplet_size < 0:
        ds = droplet_size * (d2 - d1) + d1
        return 2 * dfac * ds / (18 * water_viscosity)
    if droplet_size >= 1:
        df = droplet_size * (d2 - d1) + d1
        return math.sqrt(8 * dfac * df / 3) / (2 * df)
    a1 = dfac * d1 * d1 / (18 * water_viscosity)
    a2 = a1 * (d2 - d1) / (2 * d1)
    a3 = math.sqrt(8 * dfac * d2 / 3)
    a4 = a3 * (d2 - d1) / (2 * d2)
    c3 = 2 * a1 + a2 - 2 * a3 + a4
    c2 = -3 * a1 - 2 * a2 + 3 * a3 - a4
    c1 = a2
    return (3 * c3 * droplet_size + 2 * c2) * droplet_size + c1

@ func gnome.lib.RiseVelocity_c.get_rise_velocity
def get_rise_velocity(n, rise_velocity, le_density, le_droplet_size, water_viscosity, water_density):
    for i in range(0, n):
        rise_velocity[i] = GetRiseVelocity(le_density[i], le_droplet_size[i], water_viscosity, water_density)
    return 0

@ gnome.lib.RandomVertical_c.RandomVertical_c.__init__
def __init__(self):
    self.Init()

@ gnome.lib.RandomVertical_c.RandomVertical_c.Init
def Init(self):
    self.fVerticalDiffusionCoefficient = 5
    self.fVerticalBottomDiffusionCoefficient = 0.11
    self.fMixedLayerDepth = 10
    self.bSurfaceIsAllowed = False
    self.fHorizontalDiffusionCoefficient = 100000
    self.fHorizontalDiffusionCoefficientBelowML = 126

@ gnome.lib.RandomVertical_c.RandomVertical_c.PrepareForModelRun
def PrepareForModelRun(self):
    return 0

@ gnome.lib.RandomVertical_c.RandomVertical_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    return 0

@ gnome.lib.RandomVertical_c.RandomVertical_c.ModelStepIsDone
def ModelStepIsDone(self):
    pass

@ gnome.lib.RandomVertical_c.RandomVertical_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not delta or not ref:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ func gnome.lib.RandomVertical_c.GetDepthAtPoint
def GetDepthAtPoint(p):
    depthAtPt = 5000
    return depthAtPt

@ gnome.lib.CATSMover_c.CATSMover_c.SetRefPosition
def SetRefPosition(self, pos):
    self.refPt3D = copy.copy(pos)

@ gnome.lib.CATSMover_c.CATSMover_c.GetRefPosition
def GetRefPosition(self, pos):
    pos = copy.copy(self.refPt3D)

@ gnome.lib.CATSMover_c.CATSMover_c.GetRefPosition__2
def GetRefPosition__2(self):
    return copy.copy(self.refPt3D)

@ gnome.lib.CATSMover_c.CATSMover_c.GetGridBounds
def GetGridBounds(self):
    return self.fGrid.GetBounds()

@ gnome.lib.CATSMover_c.CATSMover_c.GetTimeDep
def GetTimeDep(self):
    return self.timeDep

@ gnome.lib.CATSMover_c.CATSMover_c.__init__
def __init__(self):
    self.fDuration = 48 * 3600
    self.fTimeUncertaintyWasSet = 0
    self.fLESetSizesH = None
    self.fUncertaintyListH = None
    self.fGrid = None
    self.SetTimeDep(None)
    self.bTimeFileActive = False
    self.fEddyDiffusion = 0
    self.fEddyV0 = 0.1
    self.refPt3D.p.pLong = -999
    self.refPt3D.p.pLat = -999
    self.refPt3D.z = 0
    self.bApplyLogProfile = False
    self.current_tide_value.v = 1
    self.current_tide_value.u = self.current_tide_value.v
    self.fOptimize = allbytes(0)

@ gnome.lib.CATSMover_c.CATSMover_c.InitMover
def InitMover(self):
    err = self.ComputeVelocityScale(0)
    return err

@ gnome.lib.CATSMover_c.CATSMover_c.ComputeVelocityScale
def ComputeVelocityScale(self, model_time):
    length = '?length'
    myVelocity = VelocityRec()
    if self.timeDep and self.timeDep.fFileType == HYDROLOGYFILE:
        self.refScale = self.timeDep.fScaleFactor
        return 0
    if self.scaleType == SCALE_NONE:
        self.refScale = 1
        return 0
    elif self.scaleType == SCALE_CONSTANT:
        myVelocity = self.GetPatValue(copy.copy(self.refPt3D))
        length = math.sqrt(myVelocity.u * myVelocity.u + myVelocity.v * myVelocity.v)
        if abs(self.scaleValue) > length * 1000000 or length < 1e-05:
            self.refScale = 0
            return -2
        self.refScale = self.scaleValue / length
        return 0
    self.refScale = 0
    return -1

@ gnome.lib.CATSMover_c.CATSMover_c.AddUncertainty
def AddUncertainty(self, setIndex, leIndex, patVelocity, timeStep, useEddyUncertainty):
    err = 0
    rand1 = '?rand1'
    rand2 = '?rand2'
    u = '?u'
    v = '?v'
    lengthS = '?lengthS'
    alpha = '?alpha'
    beta = '?beta'
    v0 = '?v0'
    gammaScale = '?gammaScale'
    unrec = LEUncertainRec()
    if not self.fUncertaintyListH or not self.fLESetSizesH:
        return 0
    if useEddyUncertainty:
        if self.fOptimize.isFirstStep:
            _, rand1, rand2 = GetRandomVectorInUnitCircle(rand1, rand2)
        else:
            rand1 = GetRandomFloat(-1, 1)
            rand2 = GetRandomFloat(-1, 1)
    else:
        rand1 = 0
        rand2 = 0
    if self.fUncertaintyListH and self.fLESetSizesH:
        unrec = copy.copy(self.fUncertaintyListH[0][self.fLESetSizesH[0][setIndex] + leIndex])
        lengthS = math.sqrt(patVelocity.u * patVelocity.u + patVelocity.v * patVelocity.v)
        u = patVelocity.u
        v = patVelocity.v
        if not self.fOptimize.isOptimizedForStep:
            self.fOptimize.value = math.sqrt(6 * (self.fEddyDiffusion / 10000) / abs(timeStep))
        v0 = self.fEddyV0
        if lengthS > 1e-06:
            if useEddyUncertainty:
                gammaScale = self.fOptimize.value * v0 / (lengthS * (v0 + lengthS))
            else:
                gammaScale = 0
            alpha = unrec.downStream + gammaScale * rand1
            beta = unrec.crossStream + gammaScale * rand2
            patVelocity.u = u * (1 + alpha) + v * beta
            patVelocity.v = v * (1 + alpha) - u * beta
        elif useEddyUncertainty:
            patVelocity.u = self.fOptimize.value * rand1
            patVelocity.v = self.fOptimize.value * rand2
    else:
        printf('"%s"', '"TCATSMover::AddUncertainty()"')
        patVelocity.v = 0
        patVelocity.u = patVelocity.v
    return err

@ gnome.lib.CATSMover_c.CATSMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    self.fOptimize.isFirstStep = True
    self.current_tide_value.v = 1
    self.current_tide_value.u = self.current_tide_value.v
    return self.PrepareForModelRun()

@ gnome.lib.CATSMover_c.CATSMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    err = self.PrepareForModelStep(model_time, time_step, uncertain, numLESets, LESetsSizesList)
    if err:
        return err
    if not self.bActive:
        return 0
    err = self.ComputeVelocityScale(model_time)
    if err:
        printf('"%s"', '"An error occurred in TCATSMover::PrepareForModelStep"')
        return err
    self.fOptimize.isOptimizedForStep = True
    self.fOptimize.value = math.sqrt(6 * (self.fEddyDiffusion / 10000) / abs(time_step))
    if self.timeDep and self.bTimeFileActive:
        errVelocity = VelocityRec(0, 1)
        err = self.timeDep.GetTimeValue(model_time, self.current_tide_value)
        if err:
            self.current_tide_value = copy.copy(errVelocity)
    return err

@ gnome.lib.CATSMover_c.CATSMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fOptimize.isFirstStep = False
    self.fOptimize = allbytes(0)
    self.bIsFirstStep = False

@ gnome.lib.CATSMover_c.CATSMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not delta or not ref:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.CATSMover_c.CATSMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    useEddyUncertainty = False
    dLong = '?dLong'
    dLat = '?dLat'
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint3D = WorldPoint3D(WorldPoint(0, 0), 0)
    scaledPatVelocity = VelocityRec()
    refPoint3D.p = copy.copy(theLE.p)
    refPoint3D.z = theLE.z
    scaledPatVelocity, useEddyUncertainty = self.GetScaledPatValue(model_time, copy.copy(refPoint3D), useEddyUncertainty)
    if leType == UNCERTAINTY_LE:
        self.AddUncertainty(setIndex, leIndex, scaledPatVelocity, timeStep, useEddyUncertainty)
    dLong = scaledPatVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint3D.p.pLat))
    dLat = scaledPatVelocity.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.CATSMover_c.CATSMover_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, p, useEddyUncertainty):
    patVelocity = VelocityRec()
    timeValue = VelocityRec(1, 1)
    lengthSquaredBeforeTimeFactor = '?lengthSquaredBeforeTimeFactor'
    err = 0
    if not self.fOptimize.isOptimizedForStep and self.scaleType == SCALE_OTHERGRID:
        err = self.ComputeVelocityScale(model_time)
    if self.timeDep and self.bTimeFileActive:
        timeValue.u = self.current_tide_value.u
        timeValue.v = self.current_tide_value.v
    patVelocity = self.GetPatValue(copy.copy(p))
    patVelocity.u = patVelocity.u * self.refScale
    patVelocity.v = patVelocity.v * self.refScale
    if useEddyUncertainty:
        lengthSquaredBeforeTimeFactor = patVelocity.u * patVelocity.u + patVelocity.v * patVelocity.v
        if lengthSquaredBeforeTimeFactor < self.fEddyV0 * self.fEddyV0:
            useEddyUncertainty[0] = False
        else:
            useEddyUncertainty[0] = True
    patVelocity.u = patVelocity.u * timeValue.u
    patVelocity.v = patVelocity.v * timeValue.u
    return copy.copy(patVelocity)

@ gnome.lib.CATSMover_c.CATSMover_c.GetPatValue
def GetPatValue(self, p):
    depthAtPoint = 0
    scaleFactor = 1
    patVal = VelocityRec(0, 0)
    if p.z > 0 and (not self.bApplyLogProfile):
        return copy.copy(patVal)
    if p.z > 1 and self.bApplyLogProfile:
        depthAtPoint = self.fGrid.GetDepthAtPoint(copy.copy(p.p))
        if p.z >= depthAtPoint:
            scaleFactor = 0
        elif depthAtPoint > 0:
            scaleFactor = 1 - math.log(p.z) / math.log(depthAtPoint)
    patVal = self.fGrid.GetPatValue(copy.copy(p.p))
    patVal.u = patVal.u * scaleFactor
    patVal.v = patVal.v * scaleFactor
    return copy.copy(patVal)

@ gnome.lib.CATSMover_c.CATSMover_c.GetSmoothVelocity
def GetSmoothVelocity(self, p):
    return self.fGrid.GetSmoothVelocity(copy.copy(p))

@ gnome.lib.CATSMover_c.CATSMover_c.VelocityStrAtPoint
def VelocityStrAtPoint(self, wp, diagnosticStr):
    uStr = carray('char[32]')
    sStr = carray('char[32]')
    lengthU = '?lengthU'
    lengthS = '?lengthS'
    velocity = VelocityRec(0, 0)
    wp.z = self.arrowDepth
    velocity = self.GetPatValue(copy.copy(wp))
    lengthU = math.sqrt(velocity.u * velocity.u + velocity.v * velocity.v)
    lengthS = self.refScale * lengthU
    StringWithoutTrailingZeros(uStr, lengthU, 4)
    StringWithoutTrailingZeros(sStr, lengthS, 4)
    snprintf(diagnosticStr, sizeof('char *'), '" [grid: %s, unscaled: %s m/s, scaled: %s m/s]"', self.className, uStr, sStr)
    return True

@ gnome.lib.CATSMover_c.CATSMover_c.DeleteTimeDep
def DeleteTimeDep(self):
    if self.timeDep:
        self.timeDep.Dispose()
        delete(self.timeDep)
        self.timeDep = None
    return

@ gnome.lib.CATSMover_c.CATSMover_c.SetTimeDep
def SetTimeDep(self, newTimeDep):
    self.timeDep = newTimeDep

@ gnome.lib.CATSMover_c.CATSMover_c.GetVelocityHdl
def GetVelocityHdl(self):
    return self.fGrid.GetVelocityHdl()

@ gnome.lib.CATSMover_c.CATSMover_c.GetPointsHdl
def GetPointsHdl(self):
    return self.fGrid.GetPointsHdl()

@ gnome.lib.CATSMover_c.CATSMover_c.GetWorldPointsHdl
def GetWorldPointsHdl(self):
    return self.fGrid.GetWorldPointsHdl()

@ gnome.lib.CATSMover_c.CATSMover_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.fGrid.GetTopologyHdl()

@ gnome.lib.CATSMover_c.CATSMover_c.GetTriangleCenters
def GetTriangleCenters(self):
    return self.fGrid.GetCenterPointsHdl()

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetGridBounds
def GetGridBounds(self):
    return self.pattern1.GetGridBounds()

@ gnome.lib.ComponentMover_c.ComponentMover_c.SetRefPosition
def SetRefPosition(self, p):
    self.refPt3D = copy.copy(p)

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetRefPosition
def GetRefPosition(self, p):
    p = copy.copy(self.refPt3D)

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetRefPosition__2
def GetRefPosition__2(self):
    return copy.copy(self.refPt3D)

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetTimeFile
def GetTimeFile(self):
    return self.timeFile

@ gnome.lib.ComponentMover_c.ComponentMover_c.__init__
def __init__(self):
    self.pattern1 = None
    self.pattern2 = None
    self.timeFile = None
    self.refPt3D = allbytes(0)
    self.pat1Angle = 0
    self.pat2Angle = self.pat1Angle + 90
    self.pat1Speed = 10
    self.pat2Speed = 10
    self.pat1SpeedUnits = 2
    self.pat2SpeedUnits = 2
    self.pat1ScaleToValue = 0.1
    self.pat2ScaleToValue = 0.1
    self.scaleBy = NONE
    self.fOptimize = allbytes(0)
    self.timeMoverCode = kLinkToNone
    self.windMoverName[0] = 0
    self.bUseAveragedWinds = False
    self.bExtrapolateWinds = False
    self.bUseMainDialogScaleFactor = False
    self.fScaleFactorAveragedWinds = 1
    self.fPowerFactorAveragedWinds = 1
    self.fPastHoursToAverage = 24
    self.fAveragedWindVelocity.v = 0
    self.fAveragedWindVelocity.u = self.fAveragedWindVelocity.v
    self.timeMoverCode = kLinkToTimeFile
    return

@ gnome.lib.ComponentMover_c.ComponentMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fOptimize.isFirstStep = False
    self.fOptimize = allbytes(0)
    self.bIsFirstStep = False

@ gnome.lib.ComponentMover_c.ComponentMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    self.fOptimize.isFirstStep = True
    return self.PrepareForModelRun()

@ gnome.lib.ComponentMover_c.ComponentMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    errmsg = carray('char[256]')
    err = 0
    err = self.PrepareForModelStep(model_time, time_step, uncertain, numLESets, LESetsSizesList)
    errmsg[0] = 0
    err = self.SetOptimizeVariables(errmsg, model_time, time_step)
    self.fOptimize.isOptimizedForStep = True
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TComponentMover::PrepareForModelStep"')
        printf('"%s"', errmsg)
    return err

@ gnome.lib.ComponentMover_c.ComponentMover_c.CalculateAveragedWindsVelocity
def CalculateAveragedWindsVelocity(self, model_time, errmsg):
    err = 0
    j = '?j'
    wVel = VelocityRec(0, 0)
    pat1Theta = 3.14159265359 * -(0.5 + self.pat1Angle / 180)
    pat1ValRef = VelocityRec()
    pat1ValRefLength = '?pat1ValRefLength'
    pat1ValRef = self.pattern1.GetPatValue(copy.copy(self.refPt3D))
    pat1ValRefLength = math.sqrt(pat1ValRef.u * pat1ValRef.u + pat1ValRef.v * pat1ValRef.v)
    strcpy(errmsg, '""')
    averageTimeSteps = '?averageTimeSteps'
    averageSpeed = 0
    averageDir = 0
    timeToGetAverageFor = model_time
    startPastTime = timeToGetAverageFor - self.fPastHoursToAverage * 3600
    averageTimeSteps = self.fPastHoursToAverage
    if self.timeFile:
        err = self.timeFile.CheckStartTime(startPastTime)
    else:
        err = -1
        strcpy(errmsg, '"There is no wind data to average"')
        return err
    if err == -1:
        strcpy(errmsg, '"There is no wind data to average"')
        return err
    if err == -3:
        if self.bExtrapolateWinds:
            err = 0
        else:
            strcpy(errmsg, '"There is not enough data in your wind file for the averaging"')
            return err
    if err == -2:
        averageTimeSteps = 1
        startPastTime = timeToGetAverageFor
        err = 0
    if self.fPastHoursToAverage == 0:
        averageTimeSteps = 1
    for j in range(0, averageTimeSteps):
        timeToAddToAverage = startPastTime + j * 3600
        windSpeedToScale = '?windSpeedToScale'
        windDir = '?windDir'
        self.timeFile.GetTimeValue(timeToAddToAverage, wVel)
        windSpeedToScale = wVel.u * math.cos(pat1Theta) + wVel.v * math.sin(pat1Theta)
        windDir = math.atan2(wVel.u, wVel.v)
        averageSpeed = averageSpeed + windSpeedToScale
        averageDir = averageDir + windDir
    averageSpeed = averageSpeed / averageTimeSteps
    if averageSpeed < 0:
        averageSpeed = -1 * math.pow(abs(averageSpeed), self.fPowerFactorAveragedWinds)
    else:
        averageSpeed = math.pow(averageSpeed, self.fPowerFactorAveragedWinds)
    averageDir = averageDir / averageTimeSteps
    self.fAveragedWindVelocity.u = averageSpeed
    self.fAveragedWindVelocity.v = 0
    return err

@ gnome.lib.ComponentMover_c.ComponentMover_c.SetTimeFile
def SetTimeFile(self, newTimeFile):
    self.timeFile = newTimeFile

@ gnome.lib.ComponentMover_c.ComponentMover_c.SetOptimizeVariables
def SetOptimizeVariables(self, errmsg, model_time, time_step):
    wVel = VelocityRec(0, 0)
    err = 0
    ref1Wind = VelocityRec()
    ref2Wind = VelocityRec()
    pat1ValRef = VelocityRec()
    pat2ValRef = VelocityRec()
    dot1 = '?dot1'
    dot2 = '?dot2'
    pat1SpeedMPS = '?pat1SpeedMPS'
    pat2SpeedMPS = '?pat2SpeedMPS'
    pat1Theta = '?pat1Theta'
    pat2Theta = '?pat2Theta'
    pat1ValRefLength = '?pat1ValRefLength'
    pat2ValRefLength = '?pat2ValRefLength'
    windSpeedToScale = '?windSpeedToScale'
    strcpy(errmsg, '""')
    wVel.v = 0
    wVel.u = wVel.v
    if self.timeFile:
        if self.bUseAveragedWinds:
            err = self.CalculateAveragedWindsVelocity(model_time, errmsg)
            if err:
                return err
            wVel = copy.copy(self.fAveragedWindVelocity)
        else:
            err = self.timeFile.GetTimeValue(model_time, wVel)
        if err:
            strcpy(errmsg, '"Time outside of interval being modeled"')
            return err
    windSpeedToScale = math.sqrt(wVel.u * wVel.u + wVel.v * wVel.v)
    pat1SpeedMPS = self.pat1Speed * speedconversion(self.pat1SpeedUnits)
    pat2SpeedMPS = self.pat2Speed * speedconversion(self.pat2SpeedUnits)
    pat1Theta = 3.14159265359 * -(0.5 + self.pat1Angle / 180)
    pat2Theta = 3.14159265359 * -(0.5 + self.pat2Angle / 180)
    ref1Wind.u = math.cos(pat1Theta) * pat1SpeedMPS
    ref1Wind.v = math.sin(pat1Theta) * pat1SpeedMPS
    ref2Wind.u = math.cos(pat2Theta) * pat2SpeedMPS
    ref2Wind.v = math.sin(pat2Theta) * pat2SpeedMPS
    dot1 = wVel.u * ref1Wind.u + wVel.v * ref1Wind.v
    dot2 = wVel.u * ref2Wind.u + wVel.v * ref2Wind.v
    pat1ValRef = self.pattern1.GetPatValue(copy.copy(self.refPt3D))
    pat1ValRefLength = math.sqrt(pat1ValRef.u * pat1ValRef.u + pat1ValRef.v * pat1ValRef.v)
    if not self.bUseAveragedWinds:
        if self.scaleBy == WINDSPEED:
            self.fOptimize.pat1ValScale = dot1 * self.pat1ScaleToValue / (pat1SpeedMPS * pat1SpeedMPS * pat1ValRefLength)
        else:
            self.fOptimize.pat1ValScale = dot1 * self.pat1ScaleToValue * windSpeedToScale / (pat1SpeedMPS * pat1SpeedMPS * pat1SpeedMPS * pat1ValRefLength)
    elif self.bUseMainDialogScaleFactor:
        self.fOptimize.pat1ValScale = wVel.u * self.pat1ScaleToValue / (pat1SpeedMPS * pat1ValRefLength)
    else:
        self.fOptimize.pat1ValScale = wVel.u * self.fScaleFactorAveragedWinds
    if self.pattern2:
        pat2ValRef = self.pattern2.GetPatValue(copy.copy(self.refPt3D))
        pat2ValRefLength = math.sqrt(pat2ValRef.u * pat2ValRef.u + pat2ValRef.v * pat2ValRef.v)
        if not self.bUseAveragedWinds or (self.bUseAveragedWinds and self.bUseMainDialogScaleFactor):
            if self.scaleBy == WINDSPEED:
                self.fOptimize.pat2ValScale = dot2 * self.pat2ScaleToValue / (pat2SpeedMPS * pat2SpeedMPS * pat2ValRefLength)
            else:
                self.fOptimize.pat2ValScale = dot2 * self.pat2ScaleToValue * windSpeedToScale / (pat2SpeedMPS * pat2SpeedMPS * pat2SpeedMPS * pat2ValRefLength)
        else:
            self.fOptimize.pat2ValScale = (wVel.u * math.cos(pat2Theta) + wVel.v * math.sin(pat2Theta)) * self.fScaleFactorAveragedWinds
    else:
        self.fOptimize.pat2ValScale = 0
    return 0

@ gnome.lib.ComponentMover_c.ComponentMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not delta or not ref:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    dLat = '?dLat'
    dLong = '?dLong'
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = copy.copy(theLE.p)
    refPoint3D = WorldPoint3D(WorldPoint(0, 0), 0)
    finalVel = VelocityRec()
    pat1Val = VelocityRec()
    pat2Val = VelocityRec()
    err = 0
    errmsg = carray('char[256]')
    refPoint3D.p = copy.copy(refPoint)
    pat1Val = self.pattern1.GetPatValue(copy.copy(refPoint3D))
    if self.pattern2:
        pat2Val = self.pattern2.GetPatValue(copy.copy(refPoint3D))
    else:
        pat2Val.v = 0
        pat2Val.u = pat2Val.v
    if not self.fOptimize.isOptimizedForStep:
        err = self.SetOptimizeVariables(errmsg, model_time, timeStep)
        if err:
            return copy.copy(deltaPoint)
    finalVel.u = pat1Val.u * self.fOptimize.pat1ValScale + pat2Val.u * self.fOptimize.pat2ValScale
    finalVel.v = pat1Val.v * self.fOptimize.pat1ValScale + pat2Val.v * self.fOptimize.pat2ValScale
    if leType == UNCERTAINTY_LE:
        self.AddUncertainty(setIndex, leIndex, finalVel, timeStep)
    dLong = finalVel.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.pLat))
    dLat = finalVel.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.ComponentMover_c.ComponentMover_c.VelocityStrAtPoint
def VelocityStrAtPoint(self, wp, diagnosticStr):
    str1 = carray('char[32]')
    str2 = carray('char[32]')
    str3 = carray('char[32]')
    length1 = 0
    length2 = 0
    length3 = 0
    pat1Val = VelocityRec(0, 0)
    pat2Val = VelocityRec(0, 0)
    finalVel = VelocityRec()
    if self.pattern1:
        pat1Val = self.pattern1.GetPatValue(copy.copy(wp))
        length1 = math.sqrt(pat1Val.u * pat1Val.u + pat1Val.v * pat1Val.v)
        StringWithoutTrailingZeros(str1, length1, 6)
    if self.pattern2:
        pat2Val = self.pattern2.GetPatValue(copy.copy(wp))
        length2 = math.sqrt(pat2Val.u * pat2Val.u + pat2Val.v * pat2Val.v)
        StringWithoutTrailingZeros(str2, length2, 6)
    finalVel.u = pat1Val.u * self.fOptimize.pat1ValScale + pat2Val.u * self.fOptimize.pat2ValScale
    finalVel.v = pat1Val.v * self.fOptimize.pat1ValScale + pat2Val.v * self.fOptimize.pat2ValScale
    length3 = math.sqrt(finalVel.u * finalVel.u + finalVel.v * finalVel.v)
    StringWithoutTrailingZeros(str1, length1 * self.fOptimize.pat1ValScale, 4)
    StringWithoutTrailingZeros(str2, length2 * self.fOptimize.pat2ValScale, 4)
    StringWithoutTrailingZeros(str3, length3, 4)
    snprintf(diagnosticStr, sizeof('char *'), '" [grid: %s, pat1: %s m/s, pat2: %s m/s, total: %s m/s]"', '"component"', str1, str2, str3)
    return True

@ gnome.lib.ComponentMover_c.ComponentMover_c.AddUncertainty
def AddUncertainty(self, setIndex, leIndex, patVelocity, timeStep):
    u = '?u'
    v = '?v'
    lengthS = '?lengthS'
    alpha = '?alpha'
    beta = '?beta'
    unrec = LEUncertainRec()
    err = 0
    if not self.fUncertaintyListH or not self.fLESetSizesH:
        return 0
    if self.fUncertaintyListH and self.fLESetSizesH:
        unrec = copy.copy(self.fUncertaintyListH[0][self.fLESetSizesH[0][setIndex] + leIndex])
        lengthS = math.sqrt(patVelocity.u * patVelocity.u + patVelocity.v * patVelocity.v)
        u = patVelocity.u
        v = patVelocity.v
        if lengthS > 1e-06:
            alpha = unrec.downStream
            beta = unrec.crossStream
            patVelocity.u = u * (1 + alpha) + v * beta
            patVelocity.v = v * (1 + alpha) - u * beta
    else:
        printf('"%s"', '"TComponentMover::AddUncertainty()"')
        patVelocity.v = 0
        patVelocity.u = patVelocity.v
    return err

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetVelocityHdl
def GetVelocityHdl(self, pattern):
    if pattern == 1:
        if self.pattern1:
            return self.pattern1.GetVelocityHdl()
    elif pattern == 2:
        if self.pattern2:
            return self.pattern2.GetVelocityHdl()
    return None

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetPointsHdl
def GetPointsHdl(self):
    return self.pattern1.GetPointsHdl()

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetWorldPointsHdl
def GetWorldPointsHdl(self):
    return self.pattern1.GetWorldPointsHdl()

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.pattern1.GetTopologyHdl()

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetTriangleCenters
def GetTriangleCenters(self):
    return self.pattern1.GetTriangleCenters()

@ gnome.lib.ComponentMover_c.ComponentMover_c.GetOptimizeValue
def GetOptimizeValue(self, model_time, pattern):
    err = 0
    errmsg = carray('char[256]')
    time_step = 900
    if not self.fOptimize.isOptimizedForStep:
        err = self.SetOptimizeVariables(errmsg, model_time, time_step)
        if err:
            return 0
    if pattern == 1:
        return self.fOptimize.pat1ValScale
    if pattern == 2:
        return self.fOptimize.pat2ValScale
    else:
        return 0

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetGridBounds
def GetGridBounds(self):
    return self.timeGrid.GetGridBounds()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.SetTimeGrid
def SetTimeGrid(self, newTimeGrid):
    self.timeGrid = newTimeGrid

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.SetExtrapolationInTime
def SetExtrapolationInTime(self, extrapolate):
    self.timeGrid.SetExtrapolationInTime(extrapolate)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetExtrapolationInTime
def GetExtrapolationInTime(self):
    return self.timeGrid.GetExtrapolationInTime()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.SetTimeShift
def SetTimeShift(self, timeShift):
    self.timeGrid.SetTimeShift(timeShift)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetTimeShift
def GetTimeShift(self):
    return self.timeGrid.GetTimeShift()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetDataStartTime
def GetDataStartTime(self, startTime):
    return self.timeGrid.GetDataStartTime(startTime)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetDataEndTime
def GetDataEndTime(self, endTime):
    return self.timeGrid.GetDataEndTime(endTime)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.IsTriangleGrid
def IsTriangleGrid(self):
    return self.timeGrid.IsTriangleGrid()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.IsDataOnCells
def IsDataOnCells(self):
    return self.timeGrid.IsDataOnCells()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.IsRegularGrid
def IsRegularGrid(self):
    return self.timeGrid.IsRegularGrid()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.__init__
def __init__(self):
    self.timeGrid = None
    self.fUncertainParams = allbytes(0)
    self.fUncertainParams.alongCurUncertainty = 0.5
    self.fUncertainParams.crossCurUncertainty = 0.25
    self.fUncertainParams.durationInHrs = 24
    self.fUncertainParams.uncertMinimumInMPS = 0
    self.fCurScale = 1
    self.fUncertainParams.startTimeInHrs = 0
    self.fDownCurUncertainty = -self.fUncertainParams.alongCurUncertainty
    self.fUpCurUncertainty = self.fUncertainParams.alongCurUncertainty
    self.fRightCurUncertainty = self.fUncertainParams.crossCurUncertainty
    self.fLeftCurUncertainty = -self.fUncertainParams.crossCurUncertainty
    self.fDuration = self.fUncertainParams.durationInHrs * 3600
    self.fUncertainStartTime = int(self.fUncertainParams.startTimeInHrs * 3600)
    self.fIsOptimizedForStep = False
    self.fAllowVerticalExtrapolationOfCurrents = False
    self.fMaxDepthForExtrapolation = 0
    self.num_method = EULER

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.AddUncertainty
def AddUncertainty(self, setIndex, leIndex, velocity, timeStep, useEddyUncertainty):
    unrec = LEUncertainRec()
    u = '?u'
    v = '?v'
    lengthS = '?lengthS'
    alpha = '?alpha'
    beta = '?beta'
    err = 0
    if not self.fUncertaintyListH or not self.fLESetSizesH:
        return 0
    if self.fUncertaintyListH and self.fLESetSizesH:
        unrec = copy.copy(self.fUncertaintyListH[0][self.fLESetSizesH[0][setIndex] + leIndex])
        lengthS = math.sqrt(velocity.u * velocity.u + velocity.v * velocity.v)
        u = velocity.u
        v = velocity.v
        if lengthS < self.fUncertainParams.uncertMinimumInMPS:
            printf('"%s"', '"nonzero UNCERTMIN is unimplemented"')
        else:
            alpha = unrec.downStream
            beta = unrec.crossStream
            velocity.u = u * (1 + alpha) + v * beta
            velocity.v = v * (1 + alpha) - u * beta
    else:
        printf('"%s"', '"GridCurrentMover_c::AddUncertainty()"')
        err = -1
        velocity.v = 0
        velocity.u = velocity.v
    return err

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return self.PrepareForModelRun()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if not self.bActive:
        return 0
    if not self.timeGrid:
        return -1
    err = self.timeGrid.SetInterval(errmsg, model_time)
    if err:
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in GridCurrentMover_c::PrepareForModelStep"')
            printf('"%s"', errmsg)
        return err
    if uncertain:
        elapsed_time = model_time - self.fModelStartTime
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
    self.fIsOptimizedForStep = True
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in GridCurrentMover_c::PrepareForModelStep"')
        printf('"%s"', errmsg)
    return err

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fIsOptimizedForStep = False
    self.bIsFirstStep = False

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not ref or not delta:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.scale_WP
def scale_WP(self, point, scale):
    retval = WorldPoint3D()
    retval.p.pLat = point.p.pLat * scale
    retval.p.pLong = point.p.pLong * scale
    retval.z = point.z * scale
    return copy.copy(retval)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.add_two_WP3D
def add_two_WP3D(self, a, b):
    retval = copy.copy(a)
    retval.p.pLat = retval.p.pLat + b.p.pLat
    retval.p.pLong = retval.p.pLong + b.p.pLong
    retval.z = retval.z + b.z
    return copy.copy(retval)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    err = 0
    errmsg = carray('char[256]')
    if self.num_method == EULER:
        deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
        refPoint = WorldPoint3D()
        dLong = '?dLong'
        dLat = '?dLat'
        scaledPatVelocity = VelocityRec(0, 0)
        useEddyUncertainty = False
        if not self.fIsOptimizedForStep:
            err = self.timeGrid.SetInterval(errmsg, model_time)
            if err:
                return copy.copy(deltaPoint)
        refPoint.p = copy.copy(theLE.p)
        refPoint.z = theLE.z
        scaledPatVelocity = self.timeGrid.GetScaledPatValue(model_time, copy.copy(refPoint))
        scaledPatVelocity.u = scaledPatVelocity.u * self.fCurScale
        scaledPatVelocity.v = scaledPatVelocity.v * self.fCurScale
        if leType == UNCERTAINTY_LE:
            self.AddUncertainty(setIndex, leIndex, scaledPatVelocity, timeStep, useEddyUncertainty)
        dLong = scaledPatVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.p.pLat))
        dLat = scaledPatVelocity.v / 111120.00024 * timeStep
        deltaPoint.p.pLong = dLong * 1000000
        deltaPoint.p.pLat = dLat * 1000000
        return copy.copy(deltaPoint)
    elif self.num_method == TRAPEZOID:
        startPoint = WorldPoint3D()
        p1 = WorldPoint3D()
        deltaPoint_2 = WorldPoint3D()
        startPoint.p = copy.copy(theLE.p)
        startPoint.z = theLE.z
        p1.p = copy.copy(theLE.p)
        p1.z = theLE.z
        v0 = VelocityRec()
        v1 = VelocityRec()
        dLong_2 = '?dLong_2'
        dLat_2 = '?dLat_2'
        if not self.fIsOptimizedForStep:
            err = self.timeGrid.SetInterval(errmsg, model_time + timeStep)
            if err:
                return copy.copy(deltaPoint_2)
        v0 = self.timeGrid.GetScaledPatValue(model_time, copy.copy(startPoint))
        v0.u = v0.u * self.fCurScale
        v0.v = v0.v * self.fCurScale
        dLong_2 = v0.u / 111120.00024 * timeStep / LongToLatRatio3(int(startPoint.p.pLat))
        dLat_2 = v0.v / 111120.00024 * timeStep
        p1.p.pLong = p1.p.pLong + dLong_2 * 1000000
        p1.p.pLat = p1.p.pLat + dLat_2 * 1000000
        v1 = self.timeGrid.GetScaledPatValue(model_time + timeStep, copy.copy(p1))
        v1.u = v1.u * self.fCurScale
        v1.v = v1.v * self.fCurScale
        v1.u = v1.u + v0.u
        v1.v = v1.v + v0.v
        dLong_2 = v1.u / 111120.00024 * timeStep / 2 / LongToLatRatio3(int(startPoint.p.pLat))
        dLat_2 = v0.v / 111120.00024 * timeStep / 2
        deltaPoint_2.p.pLong = dLong_2 * 1000000
        deltaPoint_2.p.pLat = dLat_2 * 1000000
        return copy.copy(deltaPoint_2)
    else:
        deltaD = WorldPoint3D_5_()
        RK_dy_Factors = double_4_(0, 0.5, 0.5, 1)
        RK_Factors = double_4_(1 / 6, 1 / 3, 1 / 3, 1 / 6)
        finalDelta = WorldPoint3D(WorldPoint(0, 0), 0)
        startPoint_2 = WorldPoint3D()
        startPoint_2.p = copy.copy(theLE.p)
        startPoint_2.z = theLE.z
        scaledVel = VelocityRec_4_()
        dLong_3 = '?dLong_3'
        dLat_3 = '?dLat_3'
        for i in range(0, 4):
            RKDelta = self.scale_WP(copy.copy(deltaD[i]), RK_dy_Factors[i])
            err = self.timeGrid.SetInterval(errmsg, model_time + int(timeStep * RK_dy_Factors[i]))
            if err:
                return copy.copy(finalDelta)
            scaledVel[i] = self.timeGrid.GetScaledPatValue(model_time + int(timeStep * RK_dy_Factors[i]), self.add_two_WP3D(startPoint_2, RKDelta))
            scaledVel[i].u = scaledVel[i].u * self.fCurScale
            scaledVel[i].v = scaledVel[i].v * self.fCurScale
            dLong_3 = scaledVel[i].u / 111120.00024 * timeStep / LongToLatRatio3(int(startPoint_2.p.pLat))
            dLat_3 = scaledVel[i].v / 111120.00024 * timeStep
            deltaD[i + 1].p.pLong = dLong_3 * 1000000
            deltaD[i + 1].p.pLat = dLat_3 * 1000000
        for i_2 in range(0, 4):
            finalDelta = self.add_two_WP3D(finalDelta, self.scale_WP(copy.copy(deltaD[i_2 + 1]), RK_Factors[i_2]))
        return copy.copy(finalDelta)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, p, useEddyUncertainty):
    v = VelocityRec(0, 0)
    printf('"%s"', '"GridCurrentMover_c::GetScaledPatValue is unimplemented"')
    return copy.copy(v)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetPatValue
def GetPatValue(self, p):
    v = VelocityRec(0, 0)
    printf('"%s"', '"GridCurrentMover_c::GetPatValue is unimplemented"')
    return copy.copy(v)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetScaledVelocities
def GetScaledVelocities(self, model_time, velocities):
    return self.timeGrid.GetScaledVelocities(model_time, velocities)

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetPointsHdl
def GetPointsHdl(self):
    if self.timeGrid.IsRegularGrid():
        return self.timeGrid.GetPointsHdl()
    else:
        return self.timeGrid.fGrid.GetPointsHdl()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.timeGrid.fGrid.GetTopologyHdl()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetCellDataHdl
def GetCellDataHdl(self):
    return self.timeGrid.GetCellData()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetTriangleCenters
def GetTriangleCenters(self):
    if self.IsTriangleGrid():
        if self.IsDataOnCells():
            return self.timeGrid.fGrid.GetCenterPointsHdl()
        else:
            return self.timeGrid.fGrid.GetWorldPointsHdl()
    else:
        return self.timeGrid.GetCellCenters()

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetNumTriangles
def GetNumTriangles(self):
    numTriangles = 0
    topoH = self.GetTopologyHdl()
    if topoH:
        numTriangles = _GetHandleSize(topoH) // sizeof('Topology')
    return numTriangles

@ gnome.lib.GridCurrentMover_c.GridCurrentMover_c.GetNumPoints
def GetNumPoints(self):
    numPts = 0
    ptsH = self.GetPointsHdl()
    if ptsH:
        numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    return numPts

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetGridBounds
def GetGridBounds(self):
    return self.timeGrid.GetGridBounds()

@ gnome.lib.GridWindMover_c.GridWindMover_c.SetTimeGrid
def SetTimeGrid(self, newTimeGrid):
    self.timeGrid = newTimeGrid

@ gnome.lib.GridWindMover_c.GridWindMover_c.SetExtrapolationInTime
def SetExtrapolationInTime(self, extrapolate):
    self.timeGrid.SetExtrapolationInTime(extrapolate)

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetExtrapolationInTime
def GetExtrapolationInTime(self):
    return self.timeGrid.GetExtrapolationInTime()

@ gnome.lib.GridWindMover_c.GridWindMover_c.SetTimeShift
def SetTimeShift(self, timeShift):
    self.timeGrid.SetTimeShift(timeShift)

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetTimeShift
def GetTimeShift(self):
    return self.timeGrid.GetTimeShift()

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetDataStartTime
def GetDataStartTime(self, startTime):
    return self.timeGrid.GetDataStartTime(startTime)

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetDataEndTime
def GetDataEndTime(self, endTime):
    return self.timeGrid.GetDataEndTime(endTime)

@ gnome.lib.GridWindMover_c.GridWindMover_c.IsRegularGrid
def IsRegularGrid(self):
    return self.timeGrid.IsRegularGrid()

@ gnome.lib.GridWindMover_c.GridWindMover_c.__init__
def __init__(self):
    self.fIsOptimizedForStep = False
    self.fUserUnits = 2
    self.fWindScale = 1
    self.fArrowScale = 10
    self.timeGrid = None

@ gnome.lib.GridWindMover_c.GridWindMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return self.PrepareForModelRun()

@ gnome.lib.GridWindMover_c.GridWindMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if not self.bActive:
        return 0
    if not self.timeGrid:
        return -1
    err = self.timeGrid.SetInterval(errmsg, model_time)
    if err:
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in GridWindMover::PrepareForModelStep"')
            printf('"%s"', errmsg)
        return err
    if uncertain:
        elapsed_time = model_time + time_step - self.fModelStartTime
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
    self.fIsOptimizedForStep = True
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in GridWindMover::PrepareForModelStep"')
        printf('"%s"', errmsg)
    return err

@ gnome.lib.GridWindMover_c.GridWindMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.bIsFirstStep = False
    self.fIsOptimizedForStep = False

@ gnome.lib.GridWindMover_c.GridWindMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, windages, LE_status, spillType, spill_ID):
    if (not ref or not delta) or not windages:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.windage = windages[i]
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    err = 0
    errmsg = carray('char[256]')
    dLong = '?dLong'
    dLat = '?dLat'
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = WorldPoint3D()
    windVelocity = VelocityRec()
    errmsg[0] = 0
    if theLE.z > 0:
        return copy.copy(deltaPoint)
    if not self.fIsOptimizedForStep:
        err = self.timeGrid.SetInterval(errmsg, model_time)
        if err:
            return copy.copy(deltaPoint)
    refPoint.p = copy.copy(theLE.p)
    refPoint.z = theLE.z
    windVelocity = self.timeGrid.GetScaledPatValue(model_time, copy.copy(refPoint))
    windVelocity.u = windVelocity.u * self.fWindScale
    windVelocity.v = windVelocity.v * self.fWindScale
    if leType == UNCERTAINTY_LE:
        err = self.AddUncertainty(setIndex, leIndex, windVelocity)
    windVelocity.u = windVelocity.u * theLE.windage
    windVelocity.v = windVelocity.v * theLE.windage
    dLong = windVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.p.pLat))
    dLat = windVelocity.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetScaledVelocities
def GetScaledVelocities(self, model_time, velocities):
    return self.timeGrid.GetScaledVelocities(model_time, velocities)

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetPointsHdl
def GetPointsHdl(self):
    if self.timeGrid.fVar.gridType == CURVILINEAR:
        return self.timeGrid.fGrid.GetPointsHdl()
    else:
        return self.timeGrid.GetPointsHdl()

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetCellDataHdl
def GetCellDataHdl(self):
    return self.timeGrid.GetCellData()

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetCellCenters
def GetCellCenters(self):
    return self.timeGrid.GetCellCenters()

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetNumTriangles
def GetNumTriangles(self):
    numTriangles = 0
    topoH = self.timeGrid.fGrid.GetTopologyHdl()
    if topoH:
        numTriangles = _GetHandleSize(topoH) // sizeof('Topology')
    return numTriangles

@ gnome.lib.GridWindMover_c.GridWindMover_c.GetNumPoints
def GetNumPoints(self):
    numPoints = 0
    numPoints = self.timeGrid.fNumRows * self.timeGrid.fNumCols
    return numPoints

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetGridBounds
def GetGridBounds(self):
    return self.timeGrid.GetGridBounds()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.SetTimeDep
def SetTimeDep(self, newTimeDep):
    self.timeDep = newTimeDep

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.SetRefPosition
def SetRefPosition(self, refPt3D):
    self.refPt3D = copy.copy(refPt3D)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetRefPosition
def GetRefPosition(self):
    return copy.copy(self.refPt3D)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.IsTriangleGrid
def IsTriangleGrid(self):
    return self.timeGrid.IsTriangleGrid()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.IsDataOnCells
def IsDataOnCells(self):
    return self.timeGrid.IsDataOnCells()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.IsRegularGrid
def IsRegularGrid(self):
    return self.timeGrid.IsRegularGrid()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.__init__
def __init__(self):
    self.timeDep = None
    self.bTimeFileActive = True
    self.fPatternStartPoint = 1
    self.refPt3D.p.pLong = 0
    self.refPt3D.p.pLat = 0
    self.refPt3D.z = 0

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return self.PrepareForModelRun()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    ebbFloodType = '?ebbFloodType'
    offset = '?offset'
    fraction = '?fraction'
    fraction = 0
    offset = 0
    if not self.bActive:
        return 0
    if self.bIsFirstStep:
        self.timeGrid.fModelStartTime = model_time
        if self.timeDep and self.bTimeFileActive:
            errVelocity = VelocityRec(0, 1)
            timeValue = VelocityRec(1, 1)
            err = self.timeDep.GetTimeValue(model_time, timeValue)
            if err:
                timeValue = copy.copy(errVelocity)
    if self.timeDep and self.bTimeFileActive:
        _, ebbFloodType, fraction = self.timeDep.GetLocationInTideCycle(model_time, ebbFloodType, fraction)
        if ebbFloodType >= self.fPatternStartPoint:
            offset = ebbFloodType - self.fPatternStartPoint
        else:
            offset = ebbFloodType + 4 - self.fPatternStartPoint
    self.timeGrid.SetTimeCycleInfo(fraction, offset)
    return self.PrepareForModelStep(model_time, time_step, uncertain, numLESets, LESetsSizesList)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fIsOptimizedForStep = False
    self.bIsFirstStep = False

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not ref or not delta:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = WorldPoint3D()
    dLong = '?dLong'
    dLat = '?dLat'
    scaledPatVelocity = VelocityRec(0, 0)
    timeValue = VelocityRec(1, 1)
    useEddyUncertainty = False
    err = 0
    errmsg = carray('char[256]')
    if not self.fIsOptimizedForStep:
        err = self.timeGrid.SetInterval(errmsg, model_time)
        if err:
            return copy.copy(deltaPoint)
    refPoint.p = copy.copy(theLE.p)
    refPoint.z = theLE.z
    scaledPatVelocity = self.timeGrid.GetScaledPatValue(model_time, copy.copy(refPoint))
    scaledPatVelocity.u = scaledPatVelocity.u * self.fCurScale
    scaledPatVelocity.v = scaledPatVelocity.v * self.fCurScale
    if self.timeDep and self.bTimeFileActive:
        errVelocity = VelocityRec(0, 1)
        err = self.timeDep.GetTimeValue(model_time, timeValue)
        if err:
            timeValue = copy.copy(errVelocity)
    scaledPatVelocity.u = scaledPatVelocity.u * myfabs(timeValue.u)
    scaledPatVelocity.v = scaledPatVelocity.v * myfabs(timeValue.u)
    if leType == UNCERTAINTY_LE:
        self.AddUncertainty(setIndex, leIndex, scaledPatVelocity, timeStep, useEddyUncertainty)
    dLong = scaledPatVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.p.pLat))
    dLat = scaledPatVelocity.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, p, useEddyUncertainty):
    v = VelocityRec(0, 0)
    printf('"%s"', '"CurrentCycleMover_c::GetScaledPatValue is unimplemented"')
    return copy.copy(v)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetPatValue
def GetPatValue(self, p):
    v = VelocityRec(0, 0)
    printf('"%s"', '"CurrentCycleMover_c::GetPatValue is unimplemented"')
    return copy.copy(v)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetScaledVelocities
def GetScaledVelocities(self, model_time, velocities):
    return self.timeGrid.GetScaledVelocities(model_time, velocities)

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetPointsHdl
def GetPointsHdl(self):
    if self.timeGrid.IsRegularGrid():
        return self.timeGrid.GetPointsHdl()
    else:
        return self.timeGrid.fGrid.GetPointsHdl()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.timeGrid.fGrid.GetTopologyHdl()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetCellDataHdl
def GetCellDataHdl(self):
    return self.timeGrid.GetCellData()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetTriangleCenters
def GetTriangleCenters(self):
    if self.IsTriangleGrid():
        if self.IsDataOnCells():
            return self.timeGrid.fGrid.GetCenterPointsHdl()
        else:
            return self.timeGrid.fGrid.GetWorldPointsHdl()
    else:
        return self.timeGrid.GetCellCenters()

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetNumTriangles
def GetNumTriangles(self):
    numTriangles = 0
    topoH = self.GetTopologyHdl()
    if topoH:
        numTriangles = _GetHandleSize(topoH) // sizeof('Topology')
    return numTriangles

@ gnome.lib.CurrentCycleMover_c.CurrentCycleMover_c.GetNumPoints
def GetNumPoints(self):
    numPts = 0
    ptsH = self.GetPointsHdl()
    if ptsH:
        numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    return numPts

@ gnome.lib.IceMover_c.IceMover_c.SetTimeGrid
def SetTimeGrid(self, newTimeGrid):
    self.timeGrid = newTimeGrid

@ gnome.lib.IceMover_c.IceMover_c.__init__
def __init__(self):
    pass

@ gnome.lib.IceMover_c.IceMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return self.PrepareForModelRun()

@ gnome.lib.IceMover_c.IceMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if not self.bActive:
        return 0
    if not self.timeGrid:
        return -1
    err = self.timeGrid.SetInterval(errmsg, model_time)
    if err:
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in IceMover_c::PrepareForModelStep"')
            printf('"%s"', errmsg)
        return err
    if uncertain:
        elapsed_time = model_time - self.fModelStartTime
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
    self.fIsOptimizedForStep = True
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in IceMover_c::PrepareForModelStep"')
        printf('"%s"', errmsg)
    return err

@ gnome.lib.IceMover_c.IceMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fIsOptimizedForStep = False
    self.bIsFirstStep = False

@ gnome.lib.IceMover_c.IceMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, LE_status, spillType, spill_ID):
    if not ref or not delta:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.IceMover_c.IceMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = WorldPoint3D()
    dLong = '?dLong'
    dLat = '?dLat'
    scaledPatVelocity = VelocityRec(0, 0)
    useEddyUncertainty = False
    err = 0
    errmsg = carray('char[256]')
    if not self.fIsOptimizedForStep:
        err = self.timeGrid.SetInterval(errmsg, model_time)
        if err:
            return copy.copy(deltaPoint)
    refPoint.p = copy.copy(theLE.p)
    refPoint.z = theLE.z
    scaledPatVelocity = self.timeGrid.GetScaledPatValue(model_time, copy.copy(refPoint))
    scaledPatVelocity.u = scaledPatVelocity.u * self.fCurScale
    scaledPatVelocity.v = scaledPatVelocity.v * self.fCurScale
    if leType == UNCERTAINTY_LE:
        self.AddUncertainty(setIndex, leIndex, scaledPatVelocity, timeStep, useEddyUncertainty)
    dLong = scaledPatVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.p.pLat))
    dLat = scaledPatVelocity.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.IceMover_c.IceMover_c.GetIceFields
def GetIceFields(self, model_time, ice_fraction, ice_thickness):
    return self.timeGrid.GetIceFields(model_time, ice_thickness, ice_fraction)

@ gnome.lib.IceMover_c.IceMover_c.GetIceVelocities
def GetIceVelocities(self, model_time, ice_velocities):
    return self.timeGrid.GetIceVelocities(model_time, ice_velocities)

@ gnome.lib.IceMover_c.IceMover_c.GetMovementVelocities
def GetMovementVelocities(self, model_time, velocities):
    return self.timeGrid.GetMovementVelocities(model_time, velocities)

@ gnome.lib.IceWindMover_c.IceWindMover_c.SetTimeGrid
def SetTimeGrid(self, newTimeGrid):
    self.timeGrid = newTimeGrid

@ gnome.lib.IceWindMover_c.IceWindMover_c.__init__
def __init__(self):
    pass

@ gnome.lib.IceWindMover_c.IceWindMover_c.PrepareForModelRun
def PrepareForModelRun(self):
    return self.PrepareForModelRun()

@ gnome.lib.IceWindMover_c.IceWindMover_c.PrepareForModelStep
def PrepareForModelStep(self, model_time, time_step, uncertain, numLESets, LESetsSizesList):
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if self.bIsFirstStep:
        self.fModelStartTime = model_time
    if not self.bActive:
        return 0
    if not self.timeGrid:
        return -1
    err = self.timeGrid.SetInterval(errmsg, model_time)
    if err:
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in IceWindMover_c::PrepareForModelStep"')
            printf('"%s"', errmsg)
        return err
    if uncertain:
        elapsed_time = model_time - self.fModelStartTime
        err = self.UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList)
    self.fIsOptimizedForStep = True
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in IceWindMover_c::PrepareForModelStep"')
        printf('"%s"', errmsg)
    return err

@ gnome.lib.IceWindMover_c.IceWindMover_c.ModelStepIsDone
def ModelStepIsDone(self):
    self.fIsOptimizedForStep = False
    self.bIsFirstStep = False

@ gnome.lib.IceWindMover_c.IceWindMover_c.get_move
def get_move(self, n, model_time, step_len, ref, delta, windages, LE_status, spillType, spill_ID):
    if (not ref or not delta) or not windages:
        return 1
    if spillType < FORECAST_LE or spillType > UNCERTAINTY_LE:
        return 2
    rec = LERec()
    prec = rec
    zero_delta = WorldPoint3D(WorldPoint(0, 0), 0)
    for i in range(0, n):
        if LE_status[i] != OILSTAT_INWATER:
            delta[i] = copy.copy(zero_delta)
            continue
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.windage = windages[i]
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        delta[i] = self.GetMove(model_time, step_len, spill_ID, i, prec, spillType)
        delta[i].p.pLat = delta[i].p.pLat / 1000000
        delta[i].p.pLong = delta[i].p.pLong / 1000000
    return 0

@ gnome.lib.IceWindMover_c.IceWindMover_c.GetMove
def GetMove(self, model_time, timeStep, setIndex, leIndex, theLE, leType):
    deltaPoint = WorldPoint3D(WorldPoint(0, 0), 0)
    refPoint = WorldPoint3D()
    dLong = '?dLong'
    dLat = '?dLat'
    windVelocity = VelocityRec(0, 0)
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if theLE.z > 0:
        return copy.copy(deltaPoint)
    if not self.fIsOptimizedForStep:
        err = self.timeGrid.SetInterval(errmsg, model_time)
        if err:
            return copy.copy(deltaPoint)
    refPoint.p = copy.copy(theLE.p)
    refPoint.z = theLE.z
    windVelocity = self.timeGrid.GetScaledPatValue(model_time, copy.copy(refPoint))
    windVelocity.u = windVelocity.u * self.fWindScale
    windVelocity.v = windVelocity.v * self.fWindScale
    if leType == UNCERTAINTY_LE:
        self.AddUncertainty(setIndex, leIndex, windVelocity)
    windVelocity.u = windVelocity.u * theLE.windage
    windVelocity.v = windVelocity.v * theLE.windage
    dLong = windVelocity.u / 111120.00024 * timeStep / LongToLatRatio3(int(refPoint.p.pLat))
    dLat = windVelocity.v / 111120.00024 * timeStep
    deltaPoint.p.pLong = dLong * 1000000
    deltaPoint.p.pLat = dLat * 1000000
    return copy.copy(deltaPoint)

@ gnome.lib.IceWindMover_c.IceWindMover_c.GetIceFields
def GetIceFields(self, model_time, ice_fraction, ice_thickness):
    return self.timeGrid.GetIceFields(model_time, ice_thickness, ice_fraction)

@ gnome.lib.IceWindMover_c.IceWindMover_c.GetIceVelocities
def GetIceVelocities(self, model_time, ice_velocities):
    return self.timeGrid.GetIceVelocities(model_time, ice_velocities)

@ gnome.lib.IceWindMover_c.IceWindMover_c.GetMovementVelocities
def GetMovementVelocities(self, model_time, velocities):
    return self.timeGrid.GetMovementVelocities(model_time, velocities)

@ func gnome.lib.CompFunctions.AssertionCheckMassUnits
def AssertionCheckMassUnits(massUnits):
    b = (massUnits == KILOGRAMS or massUnits == METRICTONS) or massUnits == SHORTTONS
    str = carray('char[256]')
    if not b:
        snprintf(str, sizeof('char[256]'), '"AssertionCheckMassUnits failed: massUnits = %d"', massUnits)
        printf('"%s"', str)

@ func gnome.lib.CompFunctions.AssertionCheckMassVolUnits
def AssertionCheckMassVolUnits(massVolUnits):
    b = ((((massVolUnits == GALLONS or massVolUnits == BARRELS) or massVolUnits == CUBICMETERS) or massVolUnits == KILOGRAMS) or massVolUnits == METRICTONS) or massVolUnits == SHORTTONS
    str = carray('char[256]')
    if not b:
        snprintf(str, sizeof('char[256]'), '"AssertionCheckMassVolUnits failed: massVolUnits = %d"', massVolUnits)
        printf('"%s"', str)

@ func gnome.lib.CompFunctions.AssertionCheckVolUnits
def AssertionCheckVolUnits(volUnits):
    b = (volUnits == GALLONS or volUnits == BARRELS) or volUnits == CUBICMETERS
    str = carray('char[256]')
    if not b:
        snprintf(str, sizeof('char[256]'), '"AssertionCheckVolUnits failed: volUnits = %d"', volUnits)
        printf('"%s"', str)

@ func gnome.lib.CompFunctions.Assoc
def Assoc(key, table, n):
    i = '?i'
    for i in range(0, n):
        if table[i * 2] == key:
            return table[i * 2 + 1]
    return 0

@ func gnome.lib.CompFunctions.CM3ToVolumeMass
def CM3ToVolumeMass(val, density, massVolUnits):
    retval = -1
    AssertionCheckMassVolUnits(massVolUnits)
    if massVolUnits == KILOGRAMS or massVolUnits == METRICTONS or massVolUnits == SHORTTONS:
        retval = ConvertGramsToMass(ConvertCM3ToGrams(val, density), massVolUnits)
    elif massVolUnits == GALLONS or massVolUnits == BARRELS or massVolUnits == CUBICMETERS:
        retval = ConvertCM3ToVol(val, massVolUnits)
    return retval

@ func gnome.lib.CompFunctions.CheckYear
def CheckYear(year):
    if year[0] < 1900:
        if year[0] >= 40 and year[0] <= 99:
            year[0] = year[0] + 1900
        else:
            year[0] = year[0] + 2000

@ func gnome.lib.CompFunctions.ConvertCM3ToGrams
def ConvertCM3ToGrams(val, density):
    return val * density

@ func gnome.lib.CompFunctions.ConvertCM3ToVol
def ConvertCM3ToVol(val, VolUnits):
    retval = -1
    AssertionCheckVolUnits(VolUnits)
    if VolUnits == GALLONS:
        retval = val / 3785.41
    elif VolUnits == BARRELS:
        retval = val / 158987
    elif VolUnits == CUBICMETERS:
        retval = val / 1000000
    return retval

@ func gnome.lib.CompFunctions.ConvertGramsToCM3
def ConvertGramsToCM3(val, density):
    return val / density

@ func gnome.lib.CompFunctions.ConvertGramsToMass
def ConvertGramsToMass(val, massUnits):
    retval = -1
    AssertionCheckMassUnits(massUnits)
    if massUnits == KILOGRAMS:
        retval = val / 1000
    elif massUnits == METRICTONS:
        retval = val / 1000000
    elif massUnits == SHORTTONS:
        retval = val / 907185
    return retval

@ func gnome.lib.CompFunctions.ConvertMassToGrams
def ConvertMassToGrams(val, massUnits):
    retval = -1
    AssertionCheckMassUnits(massUnits)
    if massUnits == KILOGRAMS:
        retval = val * 1000
    elif massUnits == METRICTONS:
        retval = val * 1000000
    elif massUnits == SHORTTONS:
        retval = val * 907185
    return retval

@ func gnome.lib.CompFunctions.ConvertVolToCM3
def ConvertVolToCM3(val, VolUnits):
    retval = -1
    AssertionCheckVolUnits(VolUnits)
    if VolUnits == GALLONS:
        retval = val * 3785.41
    elif VolUnits == BARRELS:
        retval = val * 158987
    elif VolUnits == CUBICMETERS:
        retval = val * 1000000
    return retval

@ func gnome.lib.CompFunctions.EarlierThan
def EarlierThan(time1, time2):
    return time1 < time2

@ func gnome.lib.CompFunctions.GetLEMass
def GetLEMass(theLE, halfLife):
    return theLE.mass

@ func gnome.lib.CompFunctions.GetPollutantDensity
def GetPollutantDensity(num):
    density = 1
    if num == OIL_GAS:
        density = 0.75
    elif num == OIL_JETFUELS:
        density = 0.81
    elif num == OIL_DIESEL:
        density = 0.87
    elif num == OIL_4:
        density = 0.9
    elif num == OIL_CRUDE:
        density = 0.9
    elif num == OIL_6:
        density = 0.99
    elif num == OIL_CONSERVATIVE:
        density = 1
    elif num == CHEMICAL:
        density = 1
    else:
        printf('"%s"', '"Pollutant type not found"')
    return density

@ func gnome.lib.CompFunctions.GetRandom
def GetRandom(low, high):
    scale = '?scale'
    n = '?n'
    scale = (high - low) / 2147483647
    n = low + rand() * scale
    return int(n)

@ func gnome.lib.CompFunctions.GetRandomFloat
def GetRandomFloat(low, high):
    scale = '?scale'
    n = '?n'
    scale = (high - low) / 2147483647
    n = low + rand() * scale
    return n

@ func gnome.lib.CompFunctions.GetRandomVectorInUnitCircle
def GetRandomVectorInUnitCircle(u, v):
    while True:
        u[0] = GetRandomFloat(-1, 1)
        v[0] = GetRandomFloat(-1, 1)
        if not u[0] * u[0] + v[0] * v[0] > 1:
            break

@ func gnome.lib.CompFunctions.Hermite
def Hermite(v1, s1, t1, v2, s2, t2, time):
    h = '?h'
    dt = '?dt'
    x = '?x'
    dt = t2 - t1
    if dt < 0:
        dt = -dt
    if dt < 1e-05:
        return v2
    x = (time - t1) / (t2 - t1)
    s1 = s1 * (t2 - t1)
    s2 = s2 * (t2 - t1)
    h = (2 * v1 - 2 * v2 + s1 + s2) * x * x * x + (-3 * v1 + 3 * v2 - 2 * s1 - s2) * x * x + s1 * x + v1 * 1
    return h

@ func gnome.lib.CompFunctions.Hermite__2
def Hermite__2(v1, s1, t1, v2, s2, t2, theTime, vTime):
    x = '?x'
    dt = '?dt'
    dt = t2 - t1
    if dt < 1e-06:
        vTime[0] = v2
        return
    dt = t2 - t1
    x = (theTime - t1) / dt
    s1 = s1 * dt
    s2 = s2 * dt
    vTime[0] = (2 * v1 - 2 * v2 + s1 + s2) * x * x * x + (-3 * v1 + 3 * v2 - 2 * s1 - s2) * x * x + s1 * x + v1
    return

@ func gnome.lib.CompFunctions.LaterThan
def LaterThan(time1, time2):
    return time1 > time2

@ func gnome.lib.CompFunctions.NumDecimals
def NumDecimals(str):
    str2 = carray('char[256]')
    i = '?i'
    c = 0
    strcpy(str2, str)
    i = strlen(str2) - 1
    while str2[i] == 48:
        _old4 = i
        i -= 1
        str2[_old4] = 0
    while i >= 0:
        _old5 = i
        i -= 1
        if str2[_old5] == 46:
            return c
        _old6 = c
        c += 1
    return 0

@ func gnome.lib.CompFunctions.ScaleToShort
def ScaleToShort(n):
    if n < -32000:
        return -32000
    if n > 32000:
        return 32000
    return n

@ func gnome.lib.CompFunctions.ScanDepth
def ScanDepth(startChar, DepthPtr):
    j = '?j'
    k = '?k'
    num = carray('char[64]')
    err = 0
    j = 0
    keepGoing = True
    k = 0
    while keepGoing:
        if startChar[j] == 0:
            keepGoing = False
        elif startChar[j] == 46:
            _old7 = k
            k += 1
            num[_old7] = startChar[j]
        elif startChar[j] == 45 or startChar[j] == 48 or startChar[j] == 49 or (startChar[j] == 50) or (startChar[j] == 51) or (startChar[j] == 52) or (startChar[j] == 53) or (startChar[j] == 54) or (startChar[j] == 55) or (startChar[j] == 56) or (startChar[j] == 57):
            _old8 = k
            k += 1
            num[_old8] = startChar[j]
            if k >= 32:
                err = -1
                return err
        elif startChar[j] == 32 or startChar[j] == 9:
            if k == 0:
                j += 1
                continue
            while startChar[j + 1] == 32 or startChar[j + 1] == 9:
                _old9 = j
                j += 1
            keepGoing = False
        else:
            err = -1
            return err
        j += 1
    _old11 = k
    k += 1
    num[_old11] = 0
    DepthPtr[0] = atof(num)
    return err

@ func gnome.lib.CompFunctions.SetSign
def SetSign(n, code):
    if n[0] == 0:
        n[0] = 0
    else:
        n[0] = abs(n[0])
        if code == 2:
            n[0] = -n[0]

@ func gnome.lib.CompFunctions.SwapN
def SwapN(s, n):
    c = '?c'
    i = '?i'
    for i in range(0, n // 2):
        c = s[i]
        s[i] = s[n - (i + 1)]
        s[n - (i + 1)] = c
    return s

@ func gnome.lib.CompFunctions.SwitchLongs
def SwitchLongs(a, b):
    temp = a[0]
    a[0] = b[0]
    b[0] = temp

@ func gnome.lib.CompFunctions.SwitchShorts
def SwitchShorts(a, b):
    temp = a[0]
    a[0] = b[0]
    b[0] = temp

@ func gnome.lib.CompFunctions.UorV
def UorV(vector, index):
    return vector.u if index == 0 else vector.v

@ func gnome.lib.CompFunctions.UorV__2
def UorV__2(vector, index):
    return vector.u if index == 0 else vector.v

@ func gnome.lib.CompFunctions.VolumeMassToCM3
def VolumeMassToCM3(val, density, massVolUnits):
    retval = -1
    AssertionCheckMassVolUnits(massVolUnits)
    if massVolUnits == KILOGRAMS or massVolUnits == METRICTONS or massVolUnits == SHORTTONS:
        retval = ConvertGramsToCM3(ConvertMassToGrams(val, massVolUnits), density)
    elif massVolUnits == GALLONS or massVolUnits == BARRELS or massVolUnits == CUBICMETERS:
        retval = ConvertVolToCM3(val, massVolUnits)
    return retval

@ func gnome.lib.CompFunctions.VolumeMassToGrams
def VolumeMassToGrams(val, density, massVolUnits):
    retval = -1
    AssertionCheckMassVolUnits(massVolUnits)
    if massVolUnits == KILOGRAMS or massVolUnits == METRICTONS or massVolUnits == SHORTTONS:
        retval = ConvertMassToGrams(val, massVolUnits)
    elif massVolUnits == GALLONS or massVolUnits == BARRELS or massVolUnits == CUBICMETERS:
        retval = ConvertCM3ToGrams(ConvertVolToCM3(val, massVolUnits), density)
    return retval

@ func gnome.lib.CompFunctions.VolumeMassToKilograms
def VolumeMassToKilograms(val, density, massVolUnits):
    retval = -1
    AssertionCheckMassVolUnits(massVolUnits)
    if massVolUnits == KILOGRAMS or massVolUnits == METRICTONS or massVolUnits == SHORTTONS:
        retval = ConvertMassToGrams(val, massVolUnits) / 1000
    elif massVolUnits == GALLONS or massVolUnits == BARRELS or massVolUnits == CUBICMETERS:
        retval = ConvertCM3ToGrams(ConvertVolToCM3(val, massVolUnits), density) / 1000
    return retval

@ func gnome.lib.CompFunctions.VolumeMassToVolumeMass
def VolumeMassToVolumeMass(val, density, massVolUnits, desiredMassVolUnits):
    retval = -1
    AssertionCheckMassVolUnits(massVolUnits)
    AssertionCheckMassVolUnits(desiredMassVolUnits)
    if massVolUnits == desiredMassVolUnits:
        return val
    retval = CM3ToVolumeMass(VolumeMassToCM3(val, density, massVolUnits), density, desiredMassVolUnits)
    return retval

@ func gnome.lib.CompFunctions.hypotenuse
def hypotenuse(a, b):
    return math.sqrt(a * a + b * b)

@ func gnome.lib.CompFunctions.logB
def logB(b, x):
    return math.log10(x) / math.log10(b)

@ func gnome.lib.CompFunctions.max4
def max4(f1, f2, f3, f4):
    x = f1 if f1 > f2 else f2
    y = f3 if f3 > f4 else f4
    return x if x > y else y

@ func gnome.lib.CompFunctions.min4
def min4(f1, f2, f3, f4):
    x = f1 if f1 < f2 else f2
    y = f3 if f3 < f4 else f4
    return x if x < y else y

@ func gnome.lib.CompFunctions.myfabs
def myfabs(x):
    return -x if x < 0 else x

@ func gnome.lib.GEOMETRY.AddWPointToWRect
def AddWPointToWRect(pLat, pLong, w):
    SetWorldRect(w, w.loLat if w.loLat < pLat else pLat, w.loLong if w.loLong < pLong else pLong, w.hiLat if w.hiLat > pLat else pLat, w.hiLong if w.hiLong > pLong else pLong)
    return w

@ func gnome.lib.GEOMETRY.AddWRectBorders
def AddWRectBorders(w, fraction):
    d = 0
    if fraction > 0:
        d = (w.hiLong - w.loLong if w.hiLong - w.loLong > w.hiLat - w.loLat else w.hiLat - w.loLat) // fraction
    InsetWRect(w, -d, -d)
    return copy.copy(w)

@ func gnome.lib.GEOMETRY.DistanceBetweenWorldPoints
def DistanceBetweenWorldPoints(p1, p2):
    d = '?d'
    c = '?c'
    x1 = '?x1'
    y1 = '?y1'
    z1 = '?z1'
    x2 = '?x2'
    y2 = '?y2'
    z2 = '?z2'
    w = '?w'
    R = EarthRadius()
    radLong1 = p1.pLong / 1000000 * (3.14159265359 / 180)
    radLat1 = p1.pLat / 1000000 * (3.14159265359 / 180)
    radLong2 = p2.pLong / 1000000 * (3.14159265359 / 180)
    radLat2 = p2.pLat / 1000000 * (3.14159265359 / 180)
    x1 = math.cos(radLat1) * math.cos(radLong1)
    x2 = math.cos(radLat2) * math.cos(radLong2)
    y1 = math.cos(radLat1) * math.sin(radLong1)
    y2 = math.cos(radLat2) * math.sin(radLong2)
    z1 = math.sin(radLat1)
    z2 = math.sin(radLat2)
    c = x1 * x2 + y1 * y2 + z1 * z2
    x1 = c
    if c > 1:
        c = 1
    w = math.acos(c)
    d = R * w
    return d

@ func gnome.lib.GEOMETRY.EarthRadius
def EarthRadius():
    radius = 3958.7602
    if KILOMETERS == FEET:
        radius = radius * 5280
    elif KILOMETERS == YARDS:
        radius = radius * 1760
    elif KILOMETERS == METERS:
        radius = radius * 1609.344
    elif KILOMETERS == KILOMETERS:
        radius = radius * 1.609344
    elif KILOMETERS == NAUTICALMILES:
        radius = radius * 0.86897624
    return radius

@ func gnome.lib.GEOMETRY.EqualWPoints
def EqualWPoints(p1, p2):
    return p1.pLong == p2.pLong and p1.pLat == p2.pLat

@ func gnome.lib.GEOMETRY.EqualWRects
def EqualWRects(wr1, wr2):
    return ((wr1.loLong == wr2.loLong and wr1.loLat == wr2.loLat) and wr1.hiLong == wr2.hiLong) and wr1.hiLat == wr2.hiLat

@ func gnome.lib.GEOMETRY.InsetWRect
def InsetWRect(w, dh, dv):
    w.loLat = w.loLat + dv
    w.loLong = w.loLong + dh
    w.hiLat = w.hiLat - dv
    w.hiLong = w.hiLong - dh

@ func gnome.lib.GEOMETRY.MilesPerDegreeLat
def MilesPerDegreeLat():
    return 69

@ func gnome.lib.GEOMETRY.OffsetWRect
def OffsetWRect(w, dh, dv):
    w.loLat = w.loLat + dv
    w.loLong = w.loLong + dh
    w.hiLat = w.hiLat + dv
    w.hiLong = w.hiLong + dh

@ func gnome.lib.GEOMETRY.OutsetWRect
def OutsetWRect(w, dh, dv):
    w.loLat = w.loLat - dv
    w.loLong = w.loLong - dh
    w.hiLat = w.hiLat + dv
    w.hiLong = w.hiLong + dh

@ func gnome.lib.GEOMETRY.SetWorldRect
def SetWorldRect(w, loLat, loLong, hiLat, hiLong):
    w.loLat = loLat
    w.loLong = loLong
    w.hiLat = hiLat
    w.hiLong = hiLong

@ func gnome.lib.GEOMETRY.UnionWRect
def UnionWRect(w1, w2):
    w = WorldRect()
    SetWorldRect(w, w1.loLat if w1.loLat < w2.loLat else w2.loLat, w1.loLong if w1.loLong < w2.loLong else w2.loLong, w1.hiLat if w1.hiLat > w2.hiLat else w2.hiLat, w1.hiLong if w1.hiLong > w2.hiLong else w2.hiLong)
    return copy.copy(w)

@ func gnome.lib.GEOMETRY.WorldRectCenter
def WorldRectCenter(w):
    p = WorldPoint()
    p.pLong = (w.loLong + w.hiLong) // 2
    p.pLat = (w.loLat + w.hiLat) // 2
    return copy.copy(p)

## R11 native grids: the velocity at a point is that of its cell or the interpolation of its neighbours, in space and time
@ gnome.lib.TriGridVel_c.TriGridVel_c.__init__
def __init__(self):
    self.fDagTree = None
    self.fBathymetryH = None
    self.CenterPtsH = None
    self.WPtH = None

@ gnome.lib.TriGridVel_c.TriGridVel_c.SetDagTree
def SetDagTree(self, dagTree):
    self.fDagTree = dagTree

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetDagTree
def GetDagTree(self):
    return self.fDagTree

@ gnome.lib.TriGridVel_c.TriGridVel_c.SetWorldPointsHdl
def SetWorldPointsHdl(self, worldPts):
    self.WPtH = worldPts

@ gnome.lib.TriGridVel_c.TriGridVel_c.SetCenterPointsHdl
def SetCenterPointsHdl(self, centerPts):
    self.CenterPtsH = centerPts

@ gnome.lib.TriGridVel_c.TriGridVel_c.SetBathymetry
def SetBathymetry(self, depthsH):
    self.fBathymetryH = depthsH

@ gnome.lib.TriGridVel_c.TriGridVel_c.SetDepths
def SetDepths(self, depthsH):
    self.fBathymetryH = depthsH

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetBathymetry
def GetBathymetry(self):
    return self.fBathymetryH

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetDepths
def GetDepths(self):
    return self.fBathymetryH

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetPointsHdl
def GetPointsHdl(self):
    if not self.fDagTree:
        return None
    return self.fDagTree.GetPointsHdl()

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetTopologyHdl
def GetTopologyHdl(self):
    if not self.fDagTree:
        return None
    return self.fDagTree.GetTopologyHdl()

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetVelocityHdl
def GetVelocityHdl(self):
    if not self.fDagTree:
        return None
    return self.fDagTree.GetVelocityHdl()

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetDagTreeHdl
def GetDagTreeHdl(self):
    if not self.fDagTree:
        return None
    return self.fDagTree.GetDagTreeHdl()

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetNumTriangles
def GetNumTriangles(self):
    numTriangles = 0
    topoH = self.fDagTree.GetTopologyHdl()
    if topoH:
        numTriangles = _GetHandleSize(topoH) // sizeof('Topology')
    return numTriangles

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetWorldPointsHdl
def GetWorldPointsHdl(self):
    err = 0
    numPts = 0
    numTri = 0
    wp = WorldPoint()
    lp = LongPoint()
    if self.WPtH:
        return self.WPtH
    ptsH = self.GetPointsHdl()
    topoH = self.GetTopologyHdl()
    if ptsH:
        numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    if topoH:
        numTri = _GetHandleSize(topoH) // sizeof('Topology')
    self.WPtH = _NewHandle(numPts * sizeof('WorldPoint'))
    if not self.WPtH:
        err = -1
        printf('"%s"', '"TriGridVel_c::GetWorldPointsHdl()"')
        return self.WPtH
    for i in range(0, numPts):
        lp = copy.copy(ptsH[0][i])
        wp.pLong = lp.h / 1000000
        wp.pLat = lp.v / 1000000
        self.WPtH[0][i] = copy.copy(wp)
    return self.WPtH

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetCenterPointsHdl
def GetCenterPointsHdl(self):
    err = 0
    ptsH = None
    wp1 = LongPoint()
    wp2 = LongPoint()
    wp3 = LongPoint()
    wp = WorldPoint()
    numPts = 0
    numTri = 0
    if self.CenterPtsH:
        return self.CenterPtsH
    topH = self.GetTopologyHdl()
    ptsH = self.GetPointsHdl()
    numTri = _GetHandleSize(topH) // sizeof('Topology')
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    self.CenterPtsH = _NewHandle(numTri * sizeof('WorldPoint'))
    if not self.CenterPtsH:
        err = -1
        printf('"%s"', '"TriGridVel_c::GetCenterPointsHdl()"')
        return self.CenterPtsH
    for i in range(0, numTri):
        wp1 = copy.copy(ptsH[0][topH[0][i].vertex1])
        wp2 = copy.copy(ptsH[0][topH[0][i].vertex2])
        wp3 = copy.copy(ptsH[0][topH[0][i].vertex3])
        wp.pLong = (wp1.h + wp2.h + wp3.h) / 3000000
        wp.pLat = (wp1.v + wp2.v + wp3.v) / 3000000
        self.CenterPtsH[0][i] = copy.copy(wp)
    return self.CenterPtsH

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetNumDepths
def GetNumDepths(self):
    numDepths = 0
    if self.fBathymetryH:
        numDepths = _GetHandleSize(self.fBathymetryH) // sizeof('float')
    return numDepths

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetBilinearInterpolationValues
def GetBilinearInterpolationValues(self, refPoint):
    interpolationVal = InterpolationValBilinear()
    lp = LongPoint()
    ntri = '?ntri'
    adj_tri = '?adj_tri'
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    ptIndex4 = '?ptIndex4'
    vertex1 = ExPoint()
    vertex2 = ExPoint()
    vertex3 = ExPoint()
    vertex4 = ExPoint()
    largest_lat = '?largest_lat'
    smallest_lat = '?smallest_lat'
    largest_lon = '?largest_lon'
    smallest_lon = '?smallest_lon'
    denom = '?denom'
    refLon = '?refLon'
    refLat = '?refLat'
    num1 = '?num1'
    num2 = '?num2'
    num3 = '?num3'
    num4 = '?num4'
    memset(interpolationVal, 0, sizeof('InterpolationValBilinear'))
    if not self.fDagTree:
        return copy.copy(interpolationVal)
    lp.h = int(refPoint.pLong)
    lp.v = int(refPoint.pLat)
    ntri = self.fDagTree.WhatTriAmIIn(copy.copy(lp))
    if ntri < 0:
        interpolationVal.ptIndex1 = ntri
        return copy.copy(interpolationVal)
    if (ntri + 1) % 2 == 0:
        adj_tri = ntri - 1
    else:
        adj_tri = ntri + 1
    refLon = lp.h / 1000000
    refLat = lp.v / 1000000
    topH = self.fDagTree.GetTopologyHdl()
    ptsH = self.fDagTree.GetPointsHdl()
    if not topH or not ptsH:
        return copy.copy(interpolationVal)
    if (ntri + 1) % 2 == 0:
        ptIndex1 = topH[0][ntri].vertex1
        ptIndex2 = topH[0][ntri].vertex2
        ptIndex4 = topH[0][ntri].vertex3
        ptIndex3 = topH[0][adj_tri].vertex2
    else:
        ptIndex4 = topH[0][ntri].vertex1
        ptIndex3 = topH[0][ntri].vertex2
        ptIndex1 = topH[0][ntri].vertex3
        ptIndex2 = topH[0][adj_tri].vertex2
    interpolationVal.ptIndex1 = ptIndex1
    interpolationVal.ptIndex2 = ptIndex2
    interpolationVal.ptIndex3 = ptIndex3
    interpolationVal.ptIndex4 = ptIndex4
    vertex1.h = ptsH[0][ptIndex1].h / 1000000
    vertex1.v = ptsH[0][ptIndex1].v / 1000000
    vertex2.h = ptsH[0][ptIndex2].h / 1000000
    vertex2.v = ptsH[0][ptIndex2].v / 1000000
    vertex3.h = ptsH[0][ptIndex3].h / 1000000
    vertex3.v = ptsH[0][ptIndex3].v / 1000000
    vertex4.h = ptsH[0][ptIndex4].h / 1000000
    vertex4.v = ptsH[0][ptIndex4].v / 1000000
    largest_lat = vertex1.v
    smallest_lat = vertex1.v
    if vertex2.v > largest_lat:
        largest_lat = vertex2.v
    if vertex2.v < smallest_lat:
        smallest_lat = vertex2.v
    if vertex3.v > largest_lat:
        largest_lat = vertex3.v
    if vertex3.v < smallest_lat:
        smallest_lat = vertex3.v
    if vertex4.v > largest_lat:
        largest_lat = vertex4.v
    if vertex4.v < smallest_lat:
        smallest_lat = vertex4.v
    largest_lon = vertex1.h
    smallest_lon = vertex1.h
    if vertex2.h > largest_lon:
        largest_lon = vertex2.h
    if vertex2.h < smallest_lat:
        smallest_lon = vertex2.h
    if vertex3.h > largest_lon:
        largest_lon = vertex3.h
    if vertex3.h < smallest_lon:
        smallest_lon = vertex3.h
    if vertex4.h > largest_lon:
        largest_lon = vertex4.h
    if vertex4.h < smallest_lon:
        smallest_lon = vertex4.h
    denom = (largest_lon - smallest_lon) * (largest_lat - smallest_lat)
    num1 = (largest_lon - refLon) * (largest_lat - refLat)
    num2 = (refLon - smallest_lon) * (largest_lat - refLat)
    num3 = (largest_lon - refLon) * (refLat - smallest_lat)
    num4 = (refLon - smallest_lon) * (refLat - smallest_lat)
    interpolationVal.alpha1 = num1 / denom
    interpolationVal.alpha2 = num2 / denom
    interpolationVal.alpha3 = num3 / denom
    interpolationVal.alpha4 = num4 / denom
    return copy.copy(interpolationVal)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetInterpolationValues
def GetInterpolationValues(self, refPoint):
    interpolationVal = InterpolationVal()
    lp = LongPoint()
    ntri = '?ntri'
    vertex1 = ExPoint()
    vertex2 = ExPoint()
    vertex3 = ExPoint()
    denom = '?denom'
    refLon = '?refLon'
    refLat = '?refLat'
    num1 = '?num1'
    num2 = '?num2'
    num3 = '?num3'
    memset(interpolationVal, 0, sizeof('InterpolationVal'))
    if not self.fDagTree:
        return copy.copy(interpolationVal)
    lp.h = int(refPoint.pLong)
    lp.v = int(refPoint.pLat)
    ntri = self.fDagTree.WhatTriAmIIn(copy.copy(lp))
    if ntri < 0:
        interpolationVal.ptIndex1 = ntri
        return copy.copy(interpolationVal)
    refLon = lp.h / 1000000
    refLat = lp.v / 1000000
    topH = self.fDagTree.GetTopologyHdl()
    ptsH = self.fDagTree.GetPointsHdl()
    if not topH or not ptsH:
        return copy.copy(interpolationVal)
    interpolationVal.ptIndex1 = topH[0][ntri].vertex1
    interpolationVal.ptIndex2 = topH[0][ntri].vertex2
    interpolationVal.ptIndex3 = topH[0][ntri].vertex3
    vertex1.h = ptsH[0][interpolationVal.ptIndex1].h / 1000000
    vertex1.v = ptsH[0][interpolationVal.ptIndex1].v / 1000000
    vertex2.h = ptsH[0][interpolationVal.ptIndex2].h / 1000000
    vertex2.v = ptsH[0][interpolationVal.ptIndex2].v / 1000000
    vertex3.h = ptsH[0][interpolationVal.ptIndex3].h / 1000000
    vertex3.v = ptsH[0][interpolationVal.ptIndex3].v / 1000000
    denom = (vertex3.v - vertex1.v) * (vertex2.h - vertex1.h) - (vertex3.h - vertex1.h) * (vertex2.v - vertex1.v)
    num1 = (refLat - vertex3.v) * (vertex3.h - vertex2.h) - (refLon - vertex3.h) * (vertex3.v - vertex2.v)
    num2 = (refLon - vertex1.h) * (vertex3.v - vertex1.v) - (refLat - vertex1.v) * (vertex3.h - vertex1.h)
    num3 = (refLat - vertex1.v) * (vertex2.h - vertex1.h) - (refLon - vertex1.h) * (vertex2.v - vertex1.v)
    interpolationVal.alpha1 = num1 / denom
    interpolationVal.alpha2 = num2 / denom
    interpolationVal.alpha3 = num3 / denom
    return copy.copy(interpolationVal)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetInterpolationValuesFromIndex
def GetInterpolationValuesFromIndex(self, triNum):
    interpolationVal = InterpolationVal()
    lp = LongPoint()
    vertex1 = ExPoint()
    vertex2 = ExPoint()
    vertex3 = ExPoint()
    denom = '?denom'
    refLon = '?refLon'
    refLat = '?refLat'
    num1 = '?num1'
    num2 = '?num2'
    num3 = '?num3'
    memset(interpolationVal, 0, sizeof('InterpolationVal'))
    if not self.fDagTree:
        return copy.copy(interpolationVal)
    if triNum < 0:
        interpolationVal.ptIndex1 = triNum
        return copy.copy(interpolationVal)
    refLon = lp.h / 1000000
    refLat = lp.v / 1000000
    topH = self.fDagTree.GetTopologyHdl()
    ptsH = self.fDagTree.GetPointsHdl()
    if not topH or not ptsH:
        return copy.copy(interpolationVal)
    interpolationVal.ptIndex1 = topH[0][triNum].vertex1
    interpolationVal.ptIndex2 = topH[0][triNum].vertex2
    interpolationVal.ptIndex3 = topH[0][triNum].vertex3
    vertex1.h = ptsH[0][interpolationVal.ptIndex1].h / 1000000
    vertex1.v = ptsH[0][interpolationVal.ptIndex1].v / 1000000
    vertex2.h = ptsH[0][interpolationVal.ptIndex2].h / 1000000
    vertex2.v = ptsH[0][interpolationVal.ptIndex2].v / 1000000
    vertex3.h = ptsH[0][interpolationVal.ptIndex3].h / 1000000
    vertex3.v = ptsH[0][interpolationVal.ptIndex3].v / 1000000
    denom = (vertex3.v - vertex1.v) * (vertex2.h - vertex1.h) - (vertex3.h - vertex1.h) * (vertex2.v - vertex1.v)
    num1 = (refLat - vertex3.v) * (vertex3.h - vertex2.h) - (refLon - vertex3.h) * (vertex3.v - vertex2.v)
    num2 = (refLon - vertex1.h) * (vertex3.v - vertex1.v) - (refLat - vertex1.v) * (vertex3.h - vertex1.h)
    num3 = (refLat - vertex1.v) * (vertex2.h - vertex1.h) - (refLon - vertex1.h) * (vertex2.v - vertex1.v)
    interpolationVal.alpha1 = num1 / denom
    interpolationVal.alpha2 = num2 / denom
    interpolationVal.alpha3 = num3 / denom
    return copy.copy(interpolationVal)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetRectIndexFromTriIndex2
def GetRectIndexFromTriIndex2(self, triIndex, ptrVerdatToNetCDFH, numCols_ext):
    i = '?i'
    ntri = triIndex
    index = -1
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    iIndex = carray('long[3]')
    jIndex = carray('long[3]')
    largestI = '?largestI'
    smallestJ = '?smallestJ'
    if not self.fDagTree:
        return -1
    if ntri < 0:
        return ntri
    topH = self.fDagTree.GetTopologyHdl()
    if not topH:
        return -1
    ptIndex1 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex1]
    ptIndex2 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex2]
    ptIndex3 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex3]
    iIndex[0] = ptIndex1 // numCols_ext
    jIndex[0] = ptIndex1 % numCols_ext
    iIndex[1] = ptIndex2 // numCols_ext
    jIndex[1] = ptIndex2 % numCols_ext
    iIndex[2] = ptIndex3 // numCols_ext
    jIndex[2] = ptIndex3 % numCols_ext
    largestI = iIndex[0]
    smallestJ = jIndex[0]
    for i in range(0, 2):
        if iIndex[i + 1] > largestI:
            largestI = iIndex[i + 1]
        if jIndex[i + 1] < smallestJ:
            smallestJ = jIndex[i + 1]
    index = (largestI - 1) * (numCols_ext - 1) + smallestJ
    return index

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetRectIndexFromTriIndex
def GetRectIndexFromTriIndex(self, refPoint, ptrVerdatToNetCDFH, numCols_ext):
    lp = LongPoint()
    i = '?i'
    ntri = '?ntri'
    index = -1
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    iIndex = carray('long[3]')
    jIndex = carray('long[3]')
    largestI = '?largestI'
    smallestJ = '?smallestJ'
    if not self.fDagTree:
        return -1
    lp.h = int(refPoint.pLong)
    lp.v = int(refPoint.pLat)
    ntri = self.fDagTree.WhatTriAmIIn(copy.copy(lp))
    if ntri < 0:
        index = ntri
        return index
    topH = self.fDagTree.GetTopologyHdl()
    if not topH:
        return -1
    ptIndex1 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex1]
    ptIndex2 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex2]
    ptIndex3 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex3]
    iIndex[0] = ptIndex1 // numCols_ext
    jIndex[0] = ptIndex1 % numCols_ext
    iIndex[1] = ptIndex2 // numCols_ext
    jIndex[1] = ptIndex2 % numCols_ext
    iIndex[2] = ptIndex3 // numCols_ext
    jIndex[2] = ptIndex3 % numCols_ext
    largestI = iIndex[0]
    smallestJ = jIndex[0]
    for i in range(0, 2):
        if iIndex[i + 1] > largestI:
            largestI = iIndex[i + 1]
        if jIndex[i + 1] < smallestJ:
            smallestJ = jIndex[i + 1]
    index = (largestI - 1) * (numCols_ext - 1) + smallestJ
    return index

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetRectCornersFromTriIndexOrPoint
def GetRectCornersFromTriIndexOrPoint(self, index1, index2, index3, index4, refPoint, triNum, useTriNum, ptrVerdatToNetCDFH, numCols_ext):
    lp = LongPoint()
    i = '?i'
    ntri = '?ntri'
    index = -1
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    debug_ptIndex1 = '?debug_ptIndex1'
    debug_ptIndex2 = '?debug_ptIndex2'
    debug_ptIndex3 = '?debug_ptIndex3'
    iIndex = carray('long[3]')
    jIndex = carray('long[3]')
    largestI = '?largestI'
    smallestJ = '?smallestJ'
    numCols = numCols_ext - 1
    if not self.fDagTree:
        return -1
    if not useTriNum:
        lp.h = int(refPoint.pLong)
        lp.v = int(refPoint.pLat)
        ntri = self.fDagTree.WhatTriAmIIn(copy.copy(lp))
    else:
        ntri = triNum
    if ntri < 0:
        index = ntri
        return index
    topH = self.fDagTree.GetTopologyHdl()
    if not topH:
        return -1
    debug_ptIndex1 = topH[0][ntri].vertex1
    debug_ptIndex2 = topH[0][ntri].vertex2
    debug_ptIndex3 = topH[0][ntri].vertex3
    ptIndex1 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex1]
    ptIndex2 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex2]
    ptIndex3 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex3]
    iIndex[0] = ptIndex1 // numCols_ext
    jIndex[0] = ptIndex1 % numCols_ext
    iIndex[1] = ptIndex2 // numCols_ext
    jIndex[1] = ptIndex2 % numCols_ext
    iIndex[2] = ptIndex3 // numCols_ext
    jIndex[2] = ptIndex3 % numCols_ext
    largestI = iIndex[0]
    smallestJ = jIndex[0]
    for i in range(0, 2):
        if iIndex[i + 1] > largestI:
            largestI = iIndex[i + 1]
        if jIndex[i + 1] < smallestJ:
            smallestJ = jIndex[i + 1]
    if smallestJ >= numCols - 1:
        if smallestJ == numCols:
            index1[0] = 0
    if largestI <= 1:
        if largestI == 0:
            index2[0] = -1
    index1[0] = (largestI - 2) * (numCols_ext - 1) + smallestJ
    index2[0] = (largestI - 1) * (numCols_ext - 1) + smallestJ
    index3[0] = (largestI - 2) * (numCols_ext - 1) + smallestJ + 1
    index4[0] = (largestI - 1) * (numCols_ext - 1) + smallestJ + 1
    if largestI == 1:
        index1[0] = -1
        index3[0] = -1
    if smallestJ == numCols - 1:
        index3[0] = -1
        index4[0] = -1
    return 0

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetRectIndicesFromTriIndex
def GetRectIndicesFromTriIndex(self, refPoint, ptrVerdatToNetCDFH, numCols_ext):
    lp = LongPoint(-1, -1)
    indices = LongPoint()
    i = '?i'
    ntri = '?ntri'
    index = -1
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    iIndex = carray('long[3]')
    jIndex = carray('long[3]')
    largestI = '?largestI'
    smallestJ = '?smallestJ'
    if not self.fDagTree:
        return copy.copy(lp)
    lp.h = int(refPoint.pLong)
    lp.v = int(refPoint.pLat)
    ntri = self.fDagTree.WhatTriAmIIn(copy.copy(lp))
    if ntri < 0:
        index = ntri
        return copy.copy(lp)
    topH = self.fDagTree.GetTopologyHdl()
    if not topH:
        return copy.copy(lp)
    ptIndex1 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex1]
    ptIndex2 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex2]
    ptIndex3 = ptrVerdatToNetCDFH[0][topH[0][ntri].vertex3]
    iIndex[0] = ptIndex1 // numCols_ext
    jIndex[0] = ptIndex1 % numCols_ext
    iIndex[1] = ptIndex2 // numCols_ext
    jIndex[1] = ptIndex2 % numCols_ext
    iIndex[2] = ptIndex3 // numCols_ext
    jIndex[2] = ptIndex3 % numCols_ext
    largestI = iIndex[0]
    smallestJ = jIndex[0]
    for i in range(0, 2):
        if iIndex[i + 1] > largestI:
            largestI = iIndex[i + 1]
        if jIndex[i + 1] < smallestJ:
            smallestJ = jIndex[i + 1]
    indices.h = smallestJ
    indices.v = largestI - 1
    return copy.copy(indices)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetSmoothVelocity
def GetSmoothVelocity(self, p):
    r = VelocityRec()
    lp = LongPoint()
    lp.h = int(p.pLong)
    lp.v = int(p.pLat)
    self.fDagTree.GetVelocity(copy.copy(lp), r)
    return copy.copy(r)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetPatValue
def GetPatValue(self, p):
    r = VelocityRec()
    lp = LongPoint()
    lp.h = int(p.pLong)
    lp.v = int(p.pLat)
    self.fDagTree.GetVelocity(copy.copy(lp), r)
    return copy.copy(r)

@ gnome.lib.TriGridVel_c.TriGridVel_c.GetDepthAtPoint
def GetDepthAtPoint(self, p):
    depthAtPoint = 0
    depth1 = '?depth1'
    depth2 = '?depth2'
    depth3 = '?depth3'
    interpolationVal = InterpolationVal()
    interpolationVal = self.GetInterpolationValues(copy.copy(p))
    if interpolationVal.ptIndex1 < 0:
        return depthAtPoint
    if not self.fBathymetryH:
        return depthAtPoint
    depth1 = self.fBathymetryH[0][interpolationVal.ptIndex1]
    depth2 = self.fBathymetryH[0][interpolationVal.ptIndex2]
    depth3 = self.fBathymetryH[0][interpolationVal.ptIndex3]
    depthAtPoint = interpolationVal.alpha1 * depth1 + interpolationVal.alpha2 * depth2 + interpolationVal.alpha3 * depth3
    return depthAtPoint

@ gnome.lib.TriGridVel_c.GridVel_c.SetBounds
def SetBounds(self, bounds):
    self.fGridBounds = copy.copy(bounds)

@ gnome.lib.TriGridVel_c.GridVel_c.GetBounds
def GetBounds(self):
    return copy.copy(self.fGridBounds)

@ gnome.lib.TriGridVel_c.GridVel_c.GetBilinearInterpolationValues
def GetBilinearInterpolationValues(self, ref):
    ival = InterpolationValBilinear()
    memset(ival, 0, sizeof('InterpolationValBilinear'))
    return copy.copy(ival)

@ gnome.lib.TriGridVel_c.GridVel_c.GetInterpolationValues
def GetInterpolationValues(self, ref):
    ival = InterpolationVal()
    memset(ival, 0, sizeof('InterpolationVal'))
    return copy.copy(ival)

@ gnome.lib.TriGridVel_c.GridVel_c.GetPointsHdl
def GetPointsHdl(self):
    return None

@ gnome.lib.TriGridVel_c.GridVel_c.GetWorldPointsHdl
def GetWorldPointsHdl(self):
    return None

@ gnome.lib.TriGridVel_c.GridVel_c.GetTopologyHdl
def GetTopologyHdl(self):
    return None

@ gnome.lib.TriGridVel_c.GridVel_c.GetCenterPointsHdl
def GetCenterPointsHdl(self):
    return None

@ gnome.lib.TriGridVel_c.GridVel_c.GetDepthAtPoint
def GetDepthAtPoint(self, p):
    return 0

@ gnome.lib.TriGridVel_c.GridVel_c.__init__
def __init__(self):
    emptyRect = WorldRect(0, 0, 0, 0)
    self.fGridBounds = copy.copy(emptyRect)

@ gnome.lib.DagTree.TDagTree.GetPointsHdl
def GetPointsHdl(self):
    return self.fPtsH

@ gnome.lib.DagTree.TDagTree.GetTopologyHdl
def GetTopologyHdl(self):
    return self.fTopH

@ gnome.lib.DagTree.TDagTree.GetVelocityHdl
def GetVelocityHdl(self):
    return self.fVelH

@ gnome.lib.DagTree.TDagTree.GetDagTreeHdl
def GetDagTreeHdl(self):
    return self.fTreeH

@ gnome.lib.DagTree.TDagTree.GetVelocity
def GetVelocity(self, ntri, r):
    if self.fVelH:
        r.u = self.fVelH[0][ntri].u
        r.v = self.fVelH[0][ntri].v
    else:
        r.u = 0
        r.v = 0

@ gnome.lib.DagTree.TDagTree.GetVelocity__2
def GetVelocity__2(self, lp, r):
    ntri = self.WhatTriAmIIn(copy.copy(lp))
    if ntri > -1 and self.fVelH:
        r.u = self.fVelH[0][ntri].u
        r.v = self.fVelH[0][ntri].v
    else:
        r.v = 0
        r.u = r.v

@ gnome.lib.DagTree.TDagTree.__init__
def __init__(self, ptsHdl, topHdl, tree, velocityH, nBranches):
    self.fPtsH = ptsHdl
    self.fTopH = topHdl
    self.fTreeH = tree
    self.fVelH = velocityH
    self.fNumBranches = nBranches

@ gnome.lib.DagTree.TDagTree.FindThirdPoint
def FindThirdPoint(self, p1, p2, index):
    return FindTriThirdPoint(self.fTopH, p1, p2, index)

@ gnome.lib.DagTree.TDagTree.WhatTriAmIIn
def WhatTriAmIIn(self, pt):
    return WhatTriIsPtIn(self.fTreeH, self.fTopH, self.fPtsH, copy.copy(pt))

@ gnome.lib.DagTree.TDagTree.Right_or_Left_Point
def Right_or_Left_Point(self, ref_p1, ref_p2, test_p1):
    return Right_or_Left_of_Segment(self.fPtsH, ref_p1, ref_p2, copy.copy(test_p1))

@ gnome.lib.RectGridVeL_c.RectGridVel_c.__init__
def __init__(self):
    self.fGridHdl = None
    self.fNumRows = 0
    self.fNumCols = 0

@ gnome.lib.RectGridVeL_c.RectGridVel_c.NumVelsInGridHdl
def NumVelsInGridHdl(self):
    numInHdl = 0
    if self.fGridHdl:
        numInHdl = _GetHandleSize(self.fGridHdl) // sizeof('VelocityRec')
    return numInHdl

@ gnome.lib.RectGridVeL_c.RectGridVel_c.SetBounds
def SetBounds(self, bounds):
    if EqualWRects(copy.copy(self.fGridBounds), copy.copy(emptyWorldRect)):
        self.fGridBounds = copy.copy(bounds)

@ gnome.lib.RectGridVeL_c.RectGridVel_c.GetPatValue
def GetPatValue(self, p):
    rowNum = '?rowNum'
    colNum = '?colNum'
    velocity = VelocityRec()
    gridLRect = LongRect()
    geoRect = LongRect()
    thisScaleRec = ScaleRec()
    SetLRect(gridLRect, 0, self.fNumRows, self.fNumCols, 0)
    SetLRect(geoRect, self.fGridBounds.loLong, self.fGridBounds.loLat, self.fGridBounds.hiLong, self.fGridBounds.hiLat)
    GetLScaleAndOffsets(geoRect, gridLRect, thisScaleRec)
    colNum = int(p.pLong * thisScaleRec.XScale + thisScaleRec.XOffset)
    rowNum = int(p.pLat * thisScaleRec.YScale + thisScaleRec.YOffset)
    if (((not self.fGridHdl or colNum < 0) or colNum >= self.fNumCols) or rowNum < 0) or rowNum >= self.fNumRows:
        velocity.u = 0
        velocity.v = 0
        return copy.copy(velocity)
    return copy.copy(self.fGridHdl[0][rowNum * self.fNumCols + colNum])

@ gnome.lib.RectGridVeL_c.RectGridVel_c.GetSmoothVelocity
def GetSmoothVelocity(self, p):
    rowNum = '?rowNum'
    colNum = '?colNum'
    velocity = VelocityRec()
    velNew = VelocityRec()
    gridLRect = LongRect()
    geoRect = LongRect()
    thisScaleRec = ScaleRec()
    SetLRect(gridLRect, 0, self.fNumRows, self.fNumCols, 0)
    SetLRect(geoRect, self.fGridBounds.loLong, self.fGridBounds.loLat, self.fGridBounds.hiLong, self.fGridBounds.hiLat)
    GetLScaleAndOffsets(geoRect, gridLRect, thisScaleRec)
    colNum = int(p.pLong * thisScaleRec.XScale + thisScaleRec.XOffset)
    rowNum = int(p.pLat * thisScaleRec.YScale + thisScaleRec.YOffset)
    velocity = self.GetPatValue(copy.copy(p))
    if ((colNum > 0 and colNum < self.fNumCols - 1) and rowNum > 0) and rowNum < self.fNumRows - 1:
        topV = VelocityRec()
        leftV = VelocityRec()
        bottomV = VelocityRec()
        rightV = VelocityRec()
        topV = copy.copy(self.fGridHdl[0][rowNum + 1 * self.fNumCols + colNum])
        bottomV = copy.copy(self.fGridHdl[0][rowNum - 1 * self.fNumCols + colNum])
        leftV = copy.copy(self.fGridHdl[0][rowNum * self.fNumCols + colNum - 1])
        rightV = copy.copy(self.fGridHdl[0][rowNum * self.fNumCols + colNum + 1])
        velNew.u = 0.5 * velocity.u + 0.125 * (topV.u + bottomV.u + leftV.u + rightV.u)
        velNew.v = 0.5 * velocity.v + 0.125 * (topV.v + bottomV.v + leftV.v + rightV.v)
    else:
        velNew = copy.copy(velocity)
    return copy.copy(velNew)

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, p):
    vRec = VelocityRec(0, 0)
    return copy.copy(vRec)

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetGridBounds
def GetGridBounds(self):
    return copy.copy(self.fGridBounds)

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.SetGridBounds
def SetGridBounds(self, gridBounds):
    self.fGridBounds = copy.copy(gridBounds)

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.SetExtrapolationInTime
def SetExtrapolationInTime(self, extrapolate):
    self.fAllowExtrapolationInTime = extrapolate

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetExtrapolationInTime
def GetExtrapolationInTime(self):
    return self.fAllowExtrapolationInTime

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.SetTimeShift
def SetTimeShift(self, timeShift):
    self.fTimeShift = timeShift

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetTimeShift
def GetTimeShift(self):
    return self.fTimeShift

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.SetTimeCycleInfo
def SetTimeCycleInfo(self, fraction, offset):
    self.fFraction = fraction
    self.fOffset = offset

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetScaledVelocities
def GetScaledVelocities(self, time, velocity):
    return -1

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetCellData
def GetCellData(self):
    return None

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetCellCenters
def GetCellCenters(self):
    return None

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetPointsHdl
def GetPointsHdl(self):
    return None

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.IsTriangleGrid
def IsTriangleGrid(self):
    return False

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.IsRegularGrid
def IsRegularGrid(self):
    return False

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.IsDataOnCells
def IsDataOnCells(self):
    return True

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.get_values
def get_values(self, n, model_time, ref, vels):
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.__init__
def __init__(self):
    self.fVar = allbytes(0)
    self.fVar.fileScaleFactor = 1
    self.fVar.gridType = TWO_D
    self.fVar.maxNumDepths = 1
    self.fGrid = None
    self.fTimeHdl = None
    self.fTimeShift = 0
    self.fOverLap = False
    self.fOverLapStartTime = 0
    self.fFillValue = -1e+34
    self.fOffset = 0
    self.fFraction = 0
    self.fTimeAlpha = -1
    self.bIsCycleMover = False
    self.fModelStartTime = 0
    self.fStartData = allbytes(0)
    self.fStartData.timeIndex = -1
    self.fStartData.dataHdl = None
    self.fEndData = allbytes(0)
    self.fEndData.timeIndex = -1
    self.fEndData.dataHdl = None
    self.fInputFilesHdl = None
    self.fAllowExtrapolationInTime = False
    self.fAllowVerticalExtrapolationOfCurrents = False
    self.fMaxDepthForExtrapolation = 0
    self.fNumRows = 0
    self.fNumCols = self.fNumRows

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetNumTimesInFile
def GetNumTimesInFile(self):
    numTimes = 0
    if self.fTimeHdl:
        numTimes = _GetHandleSize(self.fTimeHdl) // sizeof('long')
    return numTimes

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetNumFiles
def GetNumFiles(self):
    numFiles = 0
    if self.fInputFilesHdl:
        numFiles = _GetHandleSize(self.fInputFilesHdl) // sizeof('PtCurFileInfo')
    return numFiles

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.CheckInterval
def CheckInterval(self, timeDataInterval, model_time):
    time = model_time
    startTime = '?startTime'
    endTime = '?endTime'
    i = '?i'
    numTimes = '?numTimes'
    numFiles = self.GetNumFiles()
    numTimes = self.GetNumTimesInFile()
    if numTimes == 0:
        timeDataInterval = 0
        return False
    if numTimes == 1 and (not self.GetNumFiles() > 1):
        timeDataInterval = -1
        if self.fStartData.timeIndex == 0 and self.fStartData.dataHdl:
            return True
        else:
            return False
    if self.bIsCycleMover:
        numTimes_2 = self.GetNumTimesInFile()
        index1 = '?index1'
        index2 = '?index2'
        numSegmentsPerFloodEbb = numTimes_2 / 4
        if self.fFraction == 0 and self.fOffset == 0:
            if self.fModelStartTime == 0:
                time = self.fTimeHdl[0][0]
            else:
                time = time - self.fModelStartTime
            self.fTimeAlpha = -1
            if self.fStartData.timeIndex != -1 and self.fEndData.timeIndex != -1:
                if time >= self.fTimeHdl[0][self.fStartData.timeIndex] and time <= self.fTimeHdl[0][self.fEndData.timeIndex]:
                    timeDataInterval = self.fEndData.timeIndex
                    return True
            for i in range(0, numTimes_2):
                if time >= self.fTimeHdl[0][i] and time <= self.fTimeHdl[0][i + 1]:
                    timeDataInterval = i + 1
                    return False
            if time < self.fTimeHdl[0][0]:
                timeDataInterval = 0
            if time > self.fTimeHdl[0][numTimes_2 - 1]:
                timeDataInterval = numTimes_2
            return False
        index1 = int(math.floor(numSegmentsPerFloodEbb * (self.fFraction + self.fOffset)))
        index2 = int(math.ceil(numSegmentsPerFloodEbb * (self.fFraction + self.fOffset)))
        timeDataInterval = index2
        if self.fFraction == 0:
            _old13 = timeDataInterval
            timeDataInterval += 1
        self.fTimeAlpha = timeDataInterval - numSegmentsPerFloodEbb * (self.fFraction + self.fOffset)
        if index2 == 12:
            index2 = 0
        if self.fStartData.timeIndex == index1 and self.fEndData.timeIndex == index2:
            return True
        return False
    if self.fStartData.timeIndex != -1 and self.fEndData.timeIndex != -1:
        if time >= self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift and time <= self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift:
            timeDataInterval = self.fEndData.timeIndex
            return True
    if self.GetNumFiles() > 1 and self.fOverLap:
        if time >= self.fOverLapStartTime + self.fTimeShift and time <= self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift:
            return True
        else:
            self.fOverLap = False
    for i in range(0, numTimes - 1):
        if time >= self.fTimeHdl[0][i] + self.fTimeShift and time <= self.fTimeHdl[0][i + 1] + self.fTimeShift:
            timeDataInterval = i + 1
            return False
    if time < self.fTimeHdl[0][0] + self.fTimeShift:
        timeDataInterval = 0
        if numFiles > 0:
            startTime = self.fInputFilesHdl[0][0].startTime
            if self.fTimeHdl[0][0] != startTime:
                return False
        if (self.fAllowExtrapolationInTime and self.fEndData.timeIndex == -1) and (not self.fStartData.timeIndex == -1):
            return True
    if time > self.fTimeHdl[0][numTimes - 1] + self.fTimeShift:
        timeDataInterval = numTimes
        if numFiles > 0:
            endTime = self.fInputFilesHdl[0][numFiles - 1].endTime
            if self.fTimeHdl[0][numTimes - 1] != endTime:
                return False
        if (self.fAllowExtrapolationInTime and self.fEndData.timeIndex == -1) and (not self.fStartData.timeIndex == -1):
            return True
    return False

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.ClearLoadedData
def ClearLoadedData(self, dataPtr):
    dataPtr.dataHdl = None
    dataPtr.timeIndex = -1

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.ClearLoadedData__2
def ClearLoadedData__2(self, dataPtr):
    dataPtr.dataHdl = None
    dataPtr.timeIndex = -1

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.SetInterval
def SetInterval(self, errmsg, model_time):
    err = 0
    timeDataInterval = 0
    intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
    indexOfStart = timeDataInterval - 1
    indexOfEnd = timeDataInterval
    numTimesInFile = self.GetNumTimesInFile()
    errmsg[0] = 0
    if intervalLoaded:
        return 0
    if numTimesInFile == 1 and (not self.GetNumFiles() > 1):
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 and self.fAllowExtrapolationInTime:
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 or timeDataInterval == numTimesInFile:
        if self.GetNumFiles() > 1:
            err = self.CheckAndScanFile(errmsg, model_time)
            if err or self.fOverLap:
                if err:
                    if not errmsg[0]:
                        strcpy(errmsg, '"Error in TimeGridVel::SetInterval()"')
                    self.DisposeLoadedData(self.fStartData)
                    self.DisposeLoadedData(self.fEndData)
                return err
            intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
            indexOfStart = timeDataInterval - 1
            indexOfEnd = timeDataInterval
            numTimesInFile = self.GetNumTimesInFile()
            if self.fAllowExtrapolationInTime and (timeDataInterval == numTimesInFile or timeDataInterval == 0):
                if intervalLoaded:
                    return 0
                indexOfEnd = -1
                if timeDataInterval == 0:
                    indexOfStart = 0
        elif self.fTimeAlpha >= 0 and timeDataInterval == numTimesInFile:
            indexOfEnd = 0
        elif self.fAllowExtrapolationInTime and timeDataInterval == numTimesInFile:
            self.fStartData.timeIndex = numTimesInFile - 1
            self.fEndData.timeIndex = -1
        elif self.fAllowExtrapolationInTime and timeDataInterval == 0:
            self.fStartData.timeIndex = 0
            self.fEndData.timeIndex = -1
        else:
            err = -1
            strcpy(errmsg, '"Time outside of interval being modeled"')
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVel::SetInterval()"')
                self.DisposeLoadedData(self.fStartData)
                self.DisposeLoadedData(self.fEndData)
            return err
    self.DisposeLoadedData(self.fStartData)
    if indexOfStart == self.fEndData.timeIndex:
        self.fStartData = copy.copy(self.fEndData)
        self.ClearLoadedData(self.fEndData)
    else:
        self.DisposeLoadedData(self.fEndData)
    if not self.fStartData.dataHdl and indexOfStart >= 0:
        err = self.ReadTimeData(indexOfStart, addr(self.fStartData.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVel::SetInterval()"')
                self.DisposeLoadedData(self.fStartData)
                self.DisposeLoadedData(self.fEndData)
            return err
        self.fStartData.timeIndex = indexOfStart
    if indexOfEnd < numTimesInFile and indexOfEnd != -1:
        err = self.ReadTimeData(indexOfEnd, addr(self.fEndData.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVel::SetInterval()"')
                self.DisposeLoadedData(self.fStartData)
                self.DisposeLoadedData(self.fEndData)
            return err
        self.fEndData.timeIndex = indexOfEnd
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"Error in TimeGridVel::SetInterval()"')
        self.DisposeLoadedData(self.fStartData)
        self.DisposeLoadedData(self.fEndData)
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.CheckAndScanFile
def CheckAndScanFile(self, errmsg, model_time):
    err = 0
    time = model_time
    startTime = '?startTime'
    endTime = '?endTime'
    lastEndTime = '?lastEndTime'
    testTime = '?testTime'
    firstStartTime = '?firstStartTime'
    i = '?i'
    numFiles = self.GetNumFiles()
    errmsg[0] = 0
    if self.fEndData.timeIndex != -1:
        testTime = self.fTimeHdl[0][self.fEndData.timeIndex]
    firstStartTime = self.fInputFilesHdl[0][0].startTime + self.fTimeShift
    for i in range(0, numFiles):
        startTime = self.fInputFilesHdl[0][i].startTime + self.fTimeShift
        endTime = self.fInputFilesHdl[0][i].endTime + self.fTimeShift
        if (startTime <= time and time <= endTime) and (not startTime == endTime):
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            self.fOverLap = False
            return err
        if startTime == endTime and startTime == time:
            fileNum = '?fileNum'
            if i < numFiles - 1:
                fileNum = i + 1
            else:
                fileNum = i
            self.fOverLapStartTime = self.fInputFilesHdl[0][fileNum - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum - 1].pathName, addr(self.fTimeHdl))
            self.DisposeLoadedData(self.fEndData)
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum - 1].pathName)
            err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
            if err:
                return err
            self.fStartData.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fOverLap = True
            return 0
        if i > 0 and (lastEndTime < time and time < startTime):
            self.fOverLapStartTime = self.fInputFilesHdl[0][i - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            if self.fOverLapStartTime == testTime:
                self.fStartData = copy.copy(self.fEndData)
                self.ClearLoadedData(self.fEndData)
            else:
                self.DisposeTimeHdl()
                err = ScanFileForTimes(self.fInputFilesHdl[0][i - 1].pathName, addr(self.fTimeHdl))
                self.DisposeLoadedData(self.fEndData)
                strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i - 1].pathName)
                err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
                if err:
                    return err
            self.fStartData.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fOverLap = True
            return 0
        lastEndTime = endTime
    if self.fAllowExtrapolationInTime and time > lastEndTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][numFiles - 1].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][numFiles - 1].pathName)
        self.fOverLap = False
        return err
    if self.fAllowExtrapolationInTime and time < firstStartTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][0].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][0].pathName)
        self.fOverLap = False
        return err
    strcpy(errmsg, '"Time outside of interval being modeled"')
    return -1

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetTimeValue
def GetTimeValue(self, index):
    if index < 0:
        printf('"%s"', '"Access violation in TimeGridVel_c::GetTimeValue()"')
    time = self.fTimeHdl[0][index] + self.fTimeShift
    return time

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetStartTimeValue
def GetStartTimeValue(self, index):
    if index < 0 or not self.fInputFilesHdl:
        printf('"%s"', '"Access violation in TimeGridVel_c::GetStartTimeValue()"')
    time = self.fInputFilesHdl[0][index].startTime + self.fTimeShift
    return time

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetVelocityIndex
def GetVelocityIndex(self, p):
    rowNum = '?rowNum'
    colNum = '?colNum'
    dRowNum = '?dRowNum'
    dColNum = '?dColNum'
    gridLRect = LongRect()
    geoRect = LongRect()
    thisScaleRec = ScaleRec()
    bounds = self.GetGridBounds()
    SetLRect(gridLRect, 0, self.fNumRows, self.fNumCols, 0)
    SetLRect(geoRect, bounds.loLong, bounds.loLat, bounds.hiLong, bounds.hiLat)
    GetLScaleAndOffsets(geoRect, gridLRect, thisScaleRec)
    dColNum = p.pLong * thisScaleRec.XScale + thisScaleRec.XOffset - 0.5
    dRowNum = p.pLat * thisScaleRec.YScale + thisScaleRec.YOffset - 0.5
    colNum = int(round(dColNum))
    rowNum = int(round(dRowNum))
    if ((colNum < 0 or colNum >= self.fNumCols) or rowNum < 0) or rowNum >= self.fNumRows:
        return -1
    return rowNum * self.fNumCols + colNum

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetVelocityIndices
def GetVelocityIndices(self, p):
    rowNum = '?rowNum'
    colNum = '?colNum'
    dRowNum = '?dRowNum'
    dColNum = '?dColNum'
    indices = LongPoint(-1, -1)
    gridLRect = LongRect()
    geoRect = LongRect()
    thisScaleRec = ScaleRec()
    rectGrid = self.fGrid
    bounds = rectGrid.GetBounds()
    SetLRect(gridLRect, 0, self.fNumRows, self.fNumCols, 0)
    SetLRect(geoRect, bounds.loLong, bounds.loLat, bounds.hiLong, bounds.hiLat)
    GetLScaleAndOffsets(geoRect, gridLRect, thisScaleRec)
    dColNum = round(p.pLong * thisScaleRec.XScale + thisScaleRec.XOffset - 0.5)
    dRowNum = round(p.pLat * thisScaleRec.YScale + thisScaleRec.YOffset - 0.5)
    colNum = int(dColNum)
    rowNum = int(dRowNum)
    if ((colNum < 0 or colNum >= self.fNumCols) or rowNum < 0) or rowNum >= self.fNumRows:
        return copy.copy(indices)
    indices.h = colNum
    indices.v = rowNum
    return copy.copy(indices)

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetStartUVelocity
def GetStartUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fStartData.dataHdl:
            u = self.fStartData.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetEndUVelocity
def GetEndUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fEndData.dataHdl:
            u = self.fEndData.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetStartVVelocity
def GetStartVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fStartData.dataHdl:
            v = self.fStartData.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetEndVVelocity
def GetEndVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fEndData.dataHdl:
            v = self.fEndData.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetStartTime
def GetStartTime(self, startTime):
    startTime[0] = 0
    if self.fStartData.timeIndex != -1:
        startTime[0] = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
    else:
        return -1
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetEndTime
def GetEndTime(self, endTime):
    endTime[0] = 0
    if self.fEndData.timeIndex != -1:
        endTime[0] = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
    else:
        return -1
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetFileStartTime
def GetFileStartTime(self, startTime):
    path = carray('char[256]')
    err = 0
    numScanned = '?numScanned'
    status = '?status'
    ncid = '?ncid'
    recid = '?recid'
    timeid = '?timeid'
    recs = '?recs'
    t_len = '?t_len'
    timeVal = '?timeVal'
    recname = carray('char[256]')
    timeUnits = None
    timeIndex = '?timeIndex'
    startTime2 = '?startTime2'
    timeConversion = 1
    strcpy(path, self.fVar.pathName)
    if not path[0]:
        return -1
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        err = -2
        return err
    status, recid = nc_inq_dimid(ncid, '"time"', recid)
    if status != 0:
        status, recid = nc_inq_unlimdim(ncid, recid)
        if status != 0:
            err = -2
            return err
    status, timeid = nc_inq_varid(ncid, '"time"', timeid)
    if status != 0:
        err = -2
        return err
    status, t_len = nc_inq_attlen(ncid, timeid, '"units"', t_len)
    if status != 0:
        err = -2
        return err
    else:
        time = DateTimeRec()
        unitStr = carray('char[24]')
        junk = carray('char[10]')
        timeUnits = new('char *', t_len + 1)
        status = nc_get_att_text(ncid, timeid, '"units"', timeUnits)
        if status != 0:
            err = -2
            return err
        timeUnits[t_len] = 0
        StringSubstitute(timeUnits, 58, 32)
        StringSubstitute(timeUnits, 45, 32)
        StringSubstitute(timeUnits, 84, 32)
        StringSubstitute(timeUnits, 90, 32)
        numScanned = sscanf(timeUnits, '"%s %s %hd %hd %hd %hd %hd %hd"', unitStr, junk, addr(time.year), addr(time.month), addr(time.day), addr(time.hour), addr(time.minute), addr(time.second))
        if numScanned == 5:
            time.hour = 0
            time.minute = 0
            time.second = 0
        elif numScanned == 7:
            time.second = 0
        elif numScanned < 8:
            err = -1
            printf('"%s"', '"TimeGridVel::ReadInputFileNames()"')
            return err
        _, startTime2 = DateToSeconds(time, startTime2)
        if not strcmpnocase(unitStr, '"HOURS"') or not strcmpnocase(unitStr, '"HOUR"'):
            timeConversion = 3600
        elif not strcmpnocase(unitStr, '"MINUTES"') or not strcmpnocase(unitStr, '"MINUTE"'):
            timeConversion = 60
        elif not strcmpnocase(unitStr, '"SECONDS"') or not strcmpnocase(unitStr, '"SECOND"'):
            timeConversion = 1
        elif not strcmpnocase(unitStr, '"DAYS"') or not strcmpnocase(unitStr, '"DAY"'):
            timeConversion = 24 * 3600
    status, recs = nc_inq_dim(ncid, recid, recname, recs)
    if status != 0:
        err = -2
        return err
    newTime = '?newTime'
    timeIndex = 0
    status, timeIndex, timeVal = nc_get_var1_double(ncid, timeid, timeIndex, timeVal)
    if status != 0:
        err = -1
        return err
    newTime = RoundDateSeconds(int(round(startTime2 + timeVal * timeConversion)))
    startTime[0] = newTime
    status = nc_close(ncid)
    if status != 0:
        err = -2
        return err
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetFileEndTime
def GetFileEndTime(self, endTime):
    path = carray('char[256]')
    err = 0
    numScanned = '?numScanned'
    status = '?status'
    ncid = '?ncid'
    recid = '?recid'
    timeid = '?timeid'
    recs = '?recs'
    t_len = '?t_len'
    timeVal = '?timeVal'
    recname = carray('char[256]')
    timeUnits = None
    timeIndex = '?timeIndex'
    startTime2 = '?startTime2'
    timeConversion = 1
    strcpy(path, self.fVar.pathName)
    if not path[0]:
        return -1
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        err = -2
        return err
    status, recid = nc_inq_dimid(ncid, '"time"', recid)
    if status != 0:
        status, recid = nc_inq_unlimdim(ncid, recid)
        if status != 0:
            err = -2
            return err
    status, timeid = nc_inq_varid(ncid, '"time"', timeid)
    if status != 0:
        err = -2
        return err
    status, t_len = nc_inq_attlen(ncid, timeid, '"units"', t_len)
    if status != 0:
        err = -2
        return err
    else:
        time = DateTimeRec()
        unitStr = carray('char[24]')
        junk = carray('char[10]')
        timeUnits = new('char *', t_len + 1)
        status = nc_get_att_text(ncid, timeid, '"units"', timeUnits)
        if status != 0:
            err = -2
            return err
        timeUnits[t_len] = 0
        StringSubstitute(timeUnits, 58, 32)
        StringSubstitute(timeUnits, 45, 32)
        StringSubstitute(timeUnits, 84, 32)
        StringSubstitute(timeUnits, 90, 32)
        numScanned = sscanf(timeUnits, '"%s %s %hd %hd %hd %hd %hd %hd"', unitStr, junk, addr(time.year), addr(time.month), addr(time.day), addr(time.hour), addr(time.minute), addr(time.second))
        if numScanned == 5:
            time.hour = 0
            time.minute = 0
            time.second = 0
        elif numScanned == 7:
            time.second = 0
        elif numScanned < 8:
            err = -1
            printf('"%s"', '"TimeGridVel::ReadInputFileNames()"')
            return err
        _, startTime2 = DateToSeconds(time, startTime2)
        if not strcmpnocase(unitStr, '"HOURS"') or not strcmpnocase(unitStr, '"HOUR"'):
            timeConversion = 3600
        elif not strcmpnocase(unitStr, '"MINUTES"') or not strcmpnocase(unitStr, '"MINUTE"'):
            timeConversion = 60
        elif not strcmpnocase(unitStr, '"SECONDS"') or not strcmpnocase(unitStr, '"SECOND"'):
            timeConversion = 1
        elif not strcmpnocase(unitStr, '"DAYS"') or not strcmpnocase(unitStr, '"DAY"'):
            timeConversion = 24 * 3600
    status, recs = nc_inq_dim(ncid, recid, recname, recs)
    if status != 0:
        err = -2
        return err
    newTime = '?newTime'
    timeIndex = recs - 1
    status, timeIndex, timeVal = nc_get_var1_double(ncid, timeid, timeIndex, timeVal)
    if status != 0:
        err = -1
        return err
    newTime = RoundDateSeconds(int(round(startTime2 + timeVal * timeConversion)))
    endTime[0] = newTime
    status = nc_close(ncid)
    if status != 0:
        err = -2
        return err
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetDataStartTime
def GetDataStartTime(self, startTime):
    err = 0
    startTime[0] = 0
    numTimesInFile = self.GetNumTimesInFile()
    if self.GetNumFiles() > 1:
        startTime[0] = self.fInputFilesHdl[0][0].startTime + self.fTimeShift
        return err
    elif numTimesInFile > 0:
        err = self.GetFileStartTime(startTime)
        if err:
            startTime[0] = self.fTimeHdl[0][0] + self.fTimeShift
    else:
        err = -1
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVel_c.GetDataEndTime
def GetDataEndTime(self, endTime):
    err = 0
    endTime[0] = 0
    numTimesInFile = self.GetNumTimesInFile()
    if self.GetNumFiles() > 1:
        endTime[0] = self.fInputFilesHdl[0][self.GetNumFiles() - 1].endTime + self.fTimeShift
        return err
    elif numTimesInFile > 0:
        err = self.GetFileEndTime(endTime)
        if err:
            endTime[0] = self.fTimeHdl[0][numTimesInFile - 1] + self.fTimeShift
    else:
        err = -1
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.SetVerticalExtrapolation
def SetVerticalExtrapolation(self, extrapolate):
    self.fAllowVerticalExtrapolationOfCurrents = extrapolate

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetVerticalExtrapolation
def GetVerticalExtrapolation(self):
    return self.fAllowVerticalExtrapolationOfCurrents

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.IsRegularGrid
def IsRegularGrid(self):
    return True

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetNumDepthLevelsInFile
def GetNumDepthLevelsInFile(self):
    numDepthLevels = 0
    if self.fDepthLevelsHdl:
        numDepthLevels = _GetHandleSize(self.fDepthLevelsHdl) // sizeof('float')
    return numDepthLevels

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetNumDepthLevels
def GetNumDepthLevels(self):
    numDepthLevels = 0
    if self.fDepthLevelsHdl:
        numDepthLevels = _GetHandleSize(self.fDepthLevelsHdl) // sizeof('float')
    else:
        numDepthLevels_2 = 0
        err = 0
        path = carray('char[256]')
        status = '?status'
        ncid = '?ncid'
        sigmaid = '?sigmaid'
        sigmavarid = '?sigmavarid'
        sigmaLength = 0
        strcpy(path, self.fVar.pathName)
        if not path[0]:
            return -1
        status, ncid = nc_open(path, 0, ncid)
        if status != 0:
            if status != 0:
                err = -1
                return -1
        status, sigmaid = nc_inq_dimid(ncid, '"sigma"', sigmaid)
        if status != 0:
            numDepthLevels_2 = 1
        else:
            status, sigmavarid = nc_inq_varid(ncid, '"sigma"', sigmavarid)
            if status != 0:
                numDepthLevels_2 = 1
            status, sigmaLength = nc_inq_dimlen(ncid, sigmaid, sigmaLength)
            if status != 0:
                numDepthLevels_2 = 1
            numDepthLevels_2 = sigmaLength
    return numDepthLevels

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetNumDepths
def GetNumDepths(self):
    numDepths = 0
    if self.fDepthsH:
        numDepths = _GetHandleSize(self.fDepthsH) // sizeof('float')
    return numDepths

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    depthAlpha = '?depthAlpha'
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    index = '?index'
    depthIndex1 = '?depthIndex1'
    depthIndex2 = '?depthIndex2'
    startTime = '?startTime'
    endTime = '?endTime'
    scaledPatVelocity = VelocityRec(0, 0)
    index = self.GetVelocityIndex(copy.copy(refPoint.p))
    if refPoint.z > 0 and self.fVar.gridType == TWO_D:
        if not self.fAllowVerticalExtrapolationOfCurrents:
            return copy.copy(scaledPatVelocity)
    _, depthIndex1, depthIndex2 = self.GetDepthIndices(0, refPoint.z, depthIndex1, depthIndex2)
    if depthIndex2 != -1:
        topDepth = self.fDepthLevelsHdl[0][depthIndex1]
        bottomDepth = self.fDepthLevelsHdl[0][depthIndex2]
        depthAlpha = (bottomDepth - refPoint.z) / (bottomDepth - topDepth)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            if depthIndex2 == -1:
                scaledPatVelocity.u = self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v
            else:
                scaledPatVelocity.u = depthAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - depthAlpha) * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = depthAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - depthAlpha) * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            if depthIndex2 == -1:
                scaledPatVelocity.u = timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v
            else:
                scaledPatVelocity.u = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u)
                scaledPatVelocity.u = scaledPatVelocity.u + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u)
                scaledPatVelocity.v = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v)
                scaledPatVelocity.v = scaledPatVelocity.v + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v)
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetDepthAtIndex
def GetDepthAtIndex(self, depthIndex, totalDepth):
    depth = 0
    sc_r = '?sc_r'
    Cs_r = '?Cs_r'
    if self.fVar.gridType == SIGMA_ROMS:
        sc_r = self.fDepthLevelsHdl[0][depthIndex]
        Cs_r = self.fDepthLevelsHdl2[0][depthIndex]
        depth = abs(totalDepth * (self.hc * sc_r + totalDepth * Cs_r)) / (totalDepth + self.hc)
    else:
        depth = self.fDepthLevelsHdl[0][depthIndex] * totalDepth
    return depth

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetMaxDepth
def GetMaxDepth(self):
    maxDepth = 0
    if self.fDepthsH:
        depth = 0
        i = '?i'
        numDepths = _GetHandleSize(self.fDepthsH) // sizeof('float')
        for i in range(0, numDepths):
            depth = self.fDepthsH[0][i]
            if depth > maxDepth:
                maxDepth = depth
        return maxDepth
    else:
        numDepthLevels = self.GetNumDepthLevelsInFile()
        if numDepthLevels <= 0:
            return maxDepth
        if self.fDepthLevelsHdl:
            maxDepth = self.fDepthLevelsHdl[0][numDepthLevels - 1]
    return maxDepth

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetTotalDepth
def GetTotalDepth(self, wp, triNum):
    numDepthLevels = self.GetNumDepthLevelsInFile()
    totalDepth = 0
    if self.fDepthLevelsHdl and numDepthLevels > 0:
        totalDepth = self.fDepthLevelsHdl[0][numDepthLevels - 1]
    return totalDepth

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetDepthIndices
def GetDepthIndices(self, ptIndex, depthAtPoint, depthIndex1, depthIndex2):
    indexToDepthData = 0
    numDepthLevels = self.GetNumDepthLevelsInFile()
    totalDepth = 0
    if self.fDepthLevelsHdl and numDepthLevels > 0:
        totalDepth = self.fDepthLevelsHdl[0][numDepthLevels - 1]
    else:
        depthIndex1[0] = indexToDepthData
        depthIndex2[0] = -1
        return
    if depthAtPoint <= totalDepth:
        j = '?j'
        for j in range(0, numDepthLevels - 1):
            if self.fDepthLevelsHdl[0][indexToDepthData + j] < depthAtPoint and depthAtPoint <= self.fDepthLevelsHdl[0][indexToDepthData + j + 1]:
                depthIndex1[0] = indexToDepthData + j
                depthIndex2[0] = indexToDepthData + j + 1
            elif self.fDepthLevelsHdl[0][indexToDepthData + j] == depthAtPoint:
                depthIndex1[0] = indexToDepthData + j
                depthIndex2[0] = -1
        if self.fDepthLevelsHdl[0][indexToDepthData] == depthAtPoint:
            depthIndex1[0] = indexToDepthData
            depthIndex2[0] = -1
        elif self.fDepthLevelsHdl[0][indexToDepthData + numDepthLevels - 1] < depthAtPoint:
            depthIndex1[0] = indexToDepthData + numDepthLevels - 1
            depthIndex2[0] = -1
        elif self.fDepthLevelsHdl[0][indexToDepthData] > depthAtPoint:
            depthIndex1[0] = indexToDepthData
            depthIndex2[0] = -1
    else:
        depthIndex1[0] = -1
        depthIndex2[0] = -1

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.__init__
def __init__(self):
    self.fDepthLevelsHdl = None
    self.fDepthLevelsHdl2 = None
    self.hc = 1
    self.fStartData = allbytes(0)
    self.fStartData.timeIndex = -1
    self.fStartData.dataHdl = None
    self.fEndData = allbytes(0)
    self.fEndData.timeIndex = -1
    self.fEndData.dataHdl = None
    self.fDepthsH = None
    self.fDepthDataInfo = None
    self.fNumDepthLevels = 1
    self.fPtsH = None
    self.fGridCellInfoH = None
    self.fCenterPtsH = None

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetPointsHdl
def GetPointsHdl(self):
    i = '?i'
    j = '?j'
    numPoints = '?numPoints'
    fLat = '?fLat'
    fLong = '?fLong'
    dLong = '?dLong'
    dLat = '?dLat'
    gridBounds = copy.copy(self.fGridBounds)
    vertex = LongPoint()
    err = 0
    if self.fPtsH:
        return self.fPtsH
    numPoints = self.fNumRows * self.fNumCols
    dLong = (gridBounds.hiLong - gridBounds.loLong) // (self.fNumCols - 1)
    dLat = (gridBounds.hiLat - gridBounds.loLat) // (self.fNumRows - 1)
    self.fPtsH = _NewHandle(numPoints * sizeof('LongPoint'))
    if not self.fPtsH:
        err = -1
        printf('"%s"', '"TriGridVelRect_c::GetPointsHdl()"')
        return self.fPtsH
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            fLat = gridBounds.loLat + i * dLat
            fLong = gridBounds.loLong + j * dLong
            vertex.v = int(fLat)
            vertex.h = int(fLong)
            self.fPtsH[0][i * self.fNumCols + j] = copy.copy(vertex)
    return self.fPtsH

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    longPt = LongPoint()
    wp = WorldPoint()
    numPoints = '?numPoints'
    i = '?i'
    j = '?j'
    index = -1
    ptsHdl = None
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    ptsHdl = self.GetPointsHdl()
    if ptsHdl:
        numPoints = _GetHandleSize(ptsHdl) // sizeof('LongPoint')
    else:
        numPoints = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            longPt = copy.copy(ptsHdl[0][i * self.fNumCols + j])
            wp.pLat = longPt.v
            wp.pLong = longPt.h
            index = i * self.fNumCols + j
            if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
                velocity.u = self.GetStartUVelocity(index)
                velocity.v = self.GetStartVVelocity(index)
            elif index != -1:
                velocity.u = timeAlpha * self.GetStartUVelocity(index) + (1 - timeAlpha) * self.GetEndUVelocity(index)
                velocity.v = timeAlpha * self.GetStartVVelocity(index) + (1 - timeAlpha) * self.GetEndVVelocity(index)
            if velocity.u == self.fFillValue:
                velocity.u = 0
            if velocity.v == self.fFillValue:
                velocity.v = 0
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].u = velocity.u * self.fVar.fileScaleFactor
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetCellCenters
def GetCellCenters(self):
    err = 0
    ptsH = None
    wp = WorldPoint()
    i = '?i'
    numPts = 0
    numCells = '?numCells'
    if self.fCenterPtsH:
        return self.fCenterPtsH
    ptsH = self.GetPointsHdl()
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    self.fCenterPtsH = _NewHandle(numPts * sizeof('WorldPoint'))
    if not self.fCenterPtsH:
        err = -1
        printf('"%s"', '"TriGridVelRect_c::GetCellCenters()"')
        return self.fCenterPtsH
    for i in range(0, numPts):
        wp.pLong = ptsH[0][i].h / 1000000
        wp.pLat = ptsH[0][i].v / 1000000
        self.fCenterPtsH[0][i] = copy.copy(wp)
    return self.fCenterPtsH

@ gnome.lib.TimeGridVel_c.TimeGridVelRect_c.GetCellData
def GetCellData(self):
    err = 0
    i = '?i'
    j = '?j'
    numCells = '?numCells'
    if self.fGridCellInfoH:
        return self.fGridCellInfoH
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    fGridCellInfoH = _NewHandleClear(numCells * sizeof('GridCellInfo'))
    if not fGridCellInfoH:
        err = memFullErr
        if err:
            if fGridCellInfoH:
                _DisposeHandleReally(fGridCellInfoH)
                fGridCellInfoH = None
        return fGridCellInfoH
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].cellNum = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topLeft = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topRight = i * self.fNumCols + j + 1
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomRight = (i + 1) * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomLeft = (i + 1) * self.fNumCols + j + 1
    if err:
        if fGridCellInfoH:
            _DisposeHandleReally(fGridCellInfoH)
            fGridCellInfoH = None
    return fGridCellInfoH

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.IsRegularGrid
def IsRegularGrid(self):
    return False

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.IsDataOnCells
def IsDataOnCells(self):
    return not self.bVelocitiesOnNodes

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.__init__
def __init__(self):
    self.fVerdatToNetCDFH = None
    self.fVertexPtsH = None
    self.bVelocitiesOnNodes = False

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetPointsHdl
def GetPointsHdl(self):
    return self.fGrid.GetPointsHdl()

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.fGrid.GetTopologyHdl()

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetVelocityIndex
def GetVelocityIndex(self, wp):
    index = -1
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols)
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols + 1)
    return index

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetVelocityIndices
def GetVelocityIndices(self, wp):
    indices = LongPoint(-1, -1)
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            indices = self.fGrid.GetRectIndicesFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols)
        else:
            indices = self.fGrid.GetRectIndicesFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols + 1)
    return copy.copy(indices)

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    depthAlpha = '?depthAlpha'
    depth = refPoint.z
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    index = -1
    depthIndex1 = '?depthIndex1'
    depthIndex2 = '?depthIndex2'
    totalDepth = '?totalDepth'
    startTime = '?startTime'
    endTime = '?endTime'
    scaledPatVelocity = VelocityRec(0, 0)
    interpolationVal = InterpolationValBilinear()
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            interpolationVal = self.fGrid.GetBilinearInterpolationValues(copy.copy(refPoint.p))
            if interpolationVal.ptIndex1 < 0:
                return copy.copy(scaledPatVelocity)
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return copy.copy(scaledPatVelocity)
    if self.bVelocitiesOnNodes > 0 and interpolationVal.ptIndex1 >= 0:
        totalDepth = self.GetInterpolatedTotalDepth(copy.copy(refPoint.p))
        scaledPatVelocity = self.GetInterpolatedValue(model_time, copy.copy(interpolationVal), depth, totalDepth)
        scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
        scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
        return copy.copy(scaledPatVelocity)
    totalDepth = self.GetTotalDepth(copy.copy(refPoint.p), index)
    if index >= 0:
        _, depthIndex1, depthIndex2 = self.GetDepthIndices(index, depth, totalDepth, depthIndex1, depthIndex2)
    else:
        return copy.copy(scaledPatVelocity)
    if depthIndex1 == -1 and depthIndex2 == -1:
        return copy.copy(scaledPatVelocity)
    if depthIndex2 != -1:
        topDepth = self.GetDepthAtIndex(depthIndex1, totalDepth)
        bottomDepth = self.GetDepthAtIndex(depthIndex2, totalDepth)
        if totalDepth == 0:
            depthAlpha = 1
        else:
            depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0 and depthIndex1 >= 0:
            if depthIndex2 == -1:
                scaledPatVelocity.u = self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v
            else:
                scaledPatVelocity.u = depthAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - depthAlpha) * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = depthAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - depthAlpha) * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0 and depthIndex1 >= 0:
            if depthIndex2 == -1:
                scaledPatVelocity.u = timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u
                scaledPatVelocity.v = timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v
            else:
                scaledPatVelocity.u = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].u)
                scaledPatVelocity.u = scaledPatVelocity.u + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].u)
                scaledPatVelocity.v = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex1 * self.fNumRows * self.fNumCols].v)
                scaledPatVelocity.v = scaledPatVelocity.v + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index + depthIndex2 * self.fNumRows * self.fNumCols].v)
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetInterpolatedValue
def GetInterpolatedValue(self, model_time, interpolationVal, depth, totalDepth):
    pt1depthIndex1 = '?pt1depthIndex1'
    pt1depthIndex2 = '?pt1depthIndex2'
    pt2depthIndex1 = '?pt2depthIndex1'
    pt2depthIndex2 = '?pt2depthIndex2'
    pt3depthIndex1 = '?pt3depthIndex1'
    pt3depthIndex2 = '?pt3depthIndex2'
    pt4depthIndex1 = '?pt4depthIndex1'
    pt4depthIndex2 = '?pt4depthIndex2'
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    ptIndex4 = '?ptIndex4'
    amtOfDepthData = 0
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    depthAlpha = '?depthAlpha'
    timeAlpha = '?timeAlpha'
    pt1interp = VelocityRec(0, 0)
    pt2interp = VelocityRec(0, 0)
    pt3interp = VelocityRec(0, 0)
    pt4interp = VelocityRec(0, 0)
    scaledPatVelocity = VelocityRec(0, 0)
    startTime = '?startTime'
    endTime = '?endTime'
    relTime = '?relTime'
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        ptIndex4 = interpolationVal.ptIndex4
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
            ptIndex4 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex4]
    else:
        return copy.copy(scaledPatVelocity)
    if self.fDepthLevelsHdl:
        amtOfDepthData = _GetHandleSize(self.fDepthLevelsHdl) // sizeof('float')
    if amtOfDepthData > 0:
        _, pt1depthIndex1, pt1depthIndex2 = self.GetDepthIndices(ptIndex1, depth, totalDepth, pt1depthIndex1, pt1depthIndex2)
        _, pt2depthIndex1, pt2depthIndex2 = self.GetDepthIndices(ptIndex2, depth, totalDepth, pt2depthIndex1, pt2depthIndex2)
        _, pt3depthIndex1, pt3depthIndex2 = self.GetDepthIndices(ptIndex3, depth, totalDepth, pt3depthIndex1, pt3depthIndex2)
        _, pt4depthIndex1, pt4depthIndex2 = self.GetDepthIndices(ptIndex4, depth, totalDepth, pt4depthIndex1, pt4depthIndex2)
    else:
        pt1depthIndex1 = 0
        pt1depthIndex2 = -1
        pt2depthIndex1 = 0
        pt2depthIndex2 = -1
        pt3depthIndex1 = 0
        pt3depthIndex2 = -1
        pt4depthIndex1 = 0
        pt4depthIndex2 = -1
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].u)
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].v)
            else:
                pt1interp.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u
                pt1interp.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].u)
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].v)
            else:
                pt2interp.u = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u
                pt2interp.v = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].u)
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].v)
            else:
                pt3interp.u = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u
                pt3interp.v = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v
        if pt4depthIndex1 != -1:
            if pt4depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt4depthIndex1]
                bottomDepth = self.fDepthsH[0][pt4depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt4interp.u = depthAlpha * (interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u) + (1 - depthAlpha) * (interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].u)
                pt4interp.v = depthAlpha * (interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v) + (1 - depthAlpha) * (interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].v)
            else:
                pt4interp.u = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u
                pt4interp.v = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if self.fTimeAlpha == -1:
            relTime = model_time - self.fModelStartTime
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex]
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex]
            timeAlpha = (endTime - relTime) / (endTime - startTime)
        else:
            timeAlpha = self.fTimeAlpha
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].u))
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex2 * self.fNumRows * self.fNumCols].v))
            else:
                pt1interp.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].u)
                pt1interp.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1 + pt1depthIndex1 * self.fNumRows * self.fNumCols].v)
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].u))
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex2 * self.fNumRows * self.fNumCols].v))
            else:
                pt2interp.u = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].u)
                pt2interp.v = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2 + pt2depthIndex1 * self.fNumRows * self.fNumCols].v)
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].u))
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex2 * self.fNumRows * self.fNumCols].v))
            else:
                pt3interp.u = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].u)
                pt3interp.v = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3 + pt3depthIndex1 * self.fNumRows * self.fNumCols].v)
        if pt4depthIndex1 != -1:
            if pt4depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt4depthIndex1]
                bottomDepth = self.fDepthsH[0][pt4depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt4interp.u = depthAlpha * (interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u)) + (1 - depthAlpha) * (interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].u))
                pt4interp.v = depthAlpha * (interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v)) + (1 - depthAlpha) * (interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex2 * self.fNumRows * self.fNumCols].v))
            else:
                pt4interp.u = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].u)
                pt4interp.v = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4 + pt4depthIndex1 * self.fNumRows * self.fNumCols].v)
    scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u + pt4interp.u
    scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v + pt4interp.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetInterpolatedTotalDepth
def GetInterpolatedTotalDepth(self, refPoint):
    interpolationVal = InterpolationValBilinear()
    totalDepth = 0
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    ptIndex4 = '?ptIndex4'
    if self.fGrid:
        interpolationVal = self.fGrid.GetBilinearInterpolationValues(copy.copy(refPoint))
    else:
        return totalDepth
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        ptIndex4 = interpolationVal.ptIndex4
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
            ptIndex4 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex4]
    else:
        return totalDepth
    if self.fDepthsH:
        debugDepth1 = '?debugDepth1'
        debugDepth2 = '?debugDepth2'
        debugDepth3 = '?debugDepth3'
        debugDepth4 = '?debugDepth4'
        debugDepth1 = self.fDepthsH[0][ptIndex1]
        debugDepth2 = self.fDepthsH[0][ptIndex2]
        debugDepth3 = self.fDepthsH[0][ptIndex3]
        debugDepth4 = self.fDepthsH[0][ptIndex4]
        totalDepth = interpolationVal.alpha1 * self.fDepthsH[0][ptIndex1] + interpolationVal.alpha2 * self.fDepthsH[0][ptIndex2] + interpolationVal.alpha3 * self.fDepthsH[0][ptIndex3] + interpolationVal.alpha4 * self.fDepthsH[0][ptIndex4]
    return totalDepth

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetTotalDepth
def GetTotalDepth(self, refPoint, ptIndex):
    index1 = '?index1'
    index2 = '?index2'
    index3 = '?index3'
    index4 = '?index4'
    numDepths = '?numDepths'
    err = 0
    totalDepth = 0
    useTriNum = False
    triNum = 0
    if self.fVar.gridType == SIGMA_ROMS:
        if self.bVelocitiesOnNodes:
            totalDepth = self.GetInterpolatedTotalDepth(copy.copy(refPoint))
            return totalDepth
        else:
            err, index1, index2, index3, index4 = self.fGrid.GetRectCornersFromTriIndexOrPoint(index1, index2, index3, index4, copy.copy(refPoint), triNum, useTriNum, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if err:
            return -1
        if self.fDepthsH:
            numCorners = 4
            numDepths = _GetHandleSize(self.fDepthsH) // sizeof('float')
            if index1 < numDepths and index1 >= 0:
                totalDepth = totalDepth + self.fDepthsH[0][index1]
            else:
                _old12 = numCorners
                numCorners -= 1
            if index2 < numDepths and index2 >= 0:
                totalDepth = totalDepth + self.fDepthsH[0][index2]
            else:
                _old13 = numCorners
                numCorners -= 1
            if index3 < numDepths and index3 >= 0:
                totalDepth = totalDepth + self.fDepthsH[0][index3]
            else:
                _old14 = numCorners
                numCorners -= 1
            if index4 < numDepths and index4 >= 0:
                totalDepth = totalDepth + self.fDepthsH[0][index4]
            else:
                _old15 = numCorners
                numCorners -= 1
            if numCorners > 0:
                totalDepth = totalDepth / numCorners
    elif self.fDepthsH:
        totalDepth = self.fDepthsH[0][ptIndex]
    return totalDepth

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.ReorderPoints
def ReorderPoints(self, landmaskH, errmsg):
    i = '?i'
    j = '?j'
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_ext = self.fNumRows + 1
    fNumCols_ext = self.fNumCols + 1
    nv = self.fNumRows * self.fNumCols
    nv_ext = fNumRows_ext * fNumCols_ext
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    err = 0
    landWaterInfo = _NewHandleClear(self.fNumRows * self.fNumCols * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv_ext * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv_ext * sizeof('long'))
    gridCellInfo = _NewHandleClear(nv * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landmaskH[0][i * self.fNumCols + j] == 0:
                landWaterInfo[0][i * self.fNumCols + j] = -1
            else:
                landWaterInfo[0][i * self.fNumCols + j] = 1
                ptIndexHdl[0][i * fNumCols_ext + j] = -2
                ptIndexHdl[0][i * fNumCols_ext + j + 1] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1] = -2
    for i in range(0, fNumRows_ext):
        for j in range(0, fNumCols_ext):
            if ptIndexHdl[0][i * fNumCols_ext + j] == -2:
                ptIndexHdl[0][i * fNumCols_ext + j] = ptIndex
                _old33 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * fNumCols_ext + j] = -1
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] > 0:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = cellNum
                _old36 = cellNum
                cellNum += 1
                gridCellInfo[0][i * self.fNumCols + j].topLeft = ptIndexHdl[0][i * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].topRight = ptIndexHdl[0][i * fNumCols_ext + j + 1]
                gridCellInfo[0][i * self.fNumCols + j].bottomLeft = ptIndexHdl[0][(i + 1) * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].bottomRight = ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1]
            else:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, nv_ext):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old39 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        fDepth = '?fDepth'
        dLon = '?dLon'
        dLat = '?dLat'
        dLon1 = '?dLon1'
        dLon2 = '?dLon2'
        dLat1 = '?dLat1'
        dLat2 = '?dLat2'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // fNumCols_ext
            jIndex = n % fNumCols_ext
            if iIndex == 0:
                if jIndex < self.fNumCols:
                    dLat = self.fVertexPtsH[0][self.fNumCols + jIndex].pLat - self.fVertexPtsH[0][jIndex].pLat
                    fLat = self.fVertexPtsH[0][jIndex].pLat - dLat
                    dLon = self.fVertexPtsH[0][self.fNumCols + jIndex].pLong - self.fVertexPtsH[0][jIndex].pLong
                    fLong = self.fVertexPtsH[0][jIndex].pLong - dLon
                else:
                    dLat1 = self.fVertexPtsH[0][jIndex - 1].pLat - self.fVertexPtsH[0][jIndex - 2].pLat
                    dLat2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLat
                    fLat = 2 * (self.fVertexPtsH[0][jIndex - 1].pLat + dLat1) - (self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat + dLat2)
                    dLon1 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][jIndex - 1].pLong
                    dLon2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLong - self.fVertexPtsH[0][jIndex - 2].pLong
                    fLong = 2 * (self.fVertexPtsH[0][jIndex - 1].pLong - dLon1) - (self.fVertexPtsH[0][jIndex - 2].pLong - dLon2)
            elif jIndex < self.fNumCols:
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLat
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLong
            else:
                dLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLat
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat + dLat
                dLon = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLong
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong + dLon
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            fDepth = 1
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * self.fNumCols + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * self.fNumCols + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * self.fNumCols + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * self.fNumCols + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * self.fNumCols + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * self.fNumCols + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * self.fNumCols + j].topRight
            if j == self.fNumCols - 1 or gridCellInfo[0][i * self.fNumCols + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * self.fNumCols + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 1 or gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelCurv_c::ReorderPoints()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    self.SetGridBounds(copy.copy(triBounds))
    triGrid.SetBounds(copy.copy(triBounds))
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.ReorderPointsNoMask
def ReorderPointsNoMask(self, errmsg):
    i = '?i'
    j = '?j'
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_ext = self.fNumRows + 1
    fNumCols_ext = self.fNumCols + 1
    nv = self.fNumRows * self.fNumCols
    nv_ext = fNumRows_ext * fNumCols_ext
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    indexOfStart = 0
    err = 0
    landWaterInfo = _NewHandleClear(self.fNumRows * self.fNumCols * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv_ext * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv_ext * sizeof('long'))
    gridCellInfo = _NewHandleClear(nv * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    velocityH = None
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    err, velocityH = self.ReadTimeData(indexOfStart, velocityH, errmsg)
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if velocityH[0][i * self.fNumCols + j].u == 0 and velocityH[0][i * self.fNumCols + j].v == 0:
                landWaterInfo[0][i * self.fNumCols + j] = -1
            else:
                landWaterInfo[0][i * self.fNumCols + j] = 1
                ptIndexHdl[0][i * fNumCols_ext + j] = -2
                ptIndexHdl[0][i * fNumCols_ext + j + 1] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1] = -2
    for i in range(0, fNumRows_ext):
        for j in range(0, fNumCols_ext):
            if ptIndexHdl[0][i * fNumCols_ext + j] == -2:
                ptIndexHdl[0][i * fNumCols_ext + j] = ptIndex
                _old33 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * fNumCols_ext + j] = -1
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] > 0:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = cellNum
                _old36 = cellNum
                cellNum += 1
                gridCellInfo[0][i * self.fNumCols + j].topLeft = ptIndexHdl[0][i * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].topRight = ptIndexHdl[0][i * fNumCols_ext + j + 1]
                gridCellInfo[0][i * self.fNumCols + j].bottomLeft = ptIndexHdl[0][(i + 1) * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].bottomRight = ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1]
            else:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    for i in range(0, nv_ext):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old39 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        dLon = '?dLon'
        dLat = '?dLat'
        dLon1 = '?dLon1'
        dLon2 = '?dLon2'
        dLat1 = '?dLat1'
        dLat2 = '?dLat2'
        vertex = LongPoint()
        if i < numVerdatPts:
            n = verdatPtsH[0][i]
            iIndex = n // fNumCols_ext
            jIndex = n % fNumCols_ext
            if iIndex == 0:
                if jIndex < self.fNumCols:
                    dLat = self.fVertexPtsH[0][self.fNumCols + jIndex].pLat - self.fVertexPtsH[0][jIndex].pLat
                    fLat = self.fVertexPtsH[0][jIndex].pLat - dLat
                    dLon = self.fVertexPtsH[0][self.fNumCols + jIndex].pLong - self.fVertexPtsH[0][jIndex].pLong
                    fLong = self.fVertexPtsH[0][jIndex].pLong - dLon
                else:
                    dLat1 = self.fVertexPtsH[0][jIndex - 1].pLat - self.fVertexPtsH[0][jIndex - 2].pLat
                    dLat2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLat
                    fLat = 2 * (self.fVertexPtsH[0][jIndex - 1].pLat + dLat1) - (self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat + dLat2)
                    dLon1 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][jIndex - 1].pLong
                    dLon2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLong - self.fVertexPtsH[0][jIndex - 2].pLong
                    fLong = 2 * (self.fVertexPtsH[0][jIndex - 1].pLong - dLon1) - (self.fVertexPtsH[0][jIndex - 2].pLong - dLon2)
            elif jIndex < self.fNumCols:
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLat
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLong
            else:
                dLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLat
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat + dLat
                dLon = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLong
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong + dLon
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * self.fNumCols + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * self.fNumCols + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * self.fNumCols + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * self.fNumCols + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * self.fNumCols + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * self.fNumCols + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * self.fNumCols + j].topRight
            if j == self.fNumCols - 1 or gridCellInfo[0][i * self.fNumCols + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * self.fNumCols + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 1 or gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelCurv_c::ReorderPoints()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPoints"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    if velocityH:
        _DisposeHandleReally(velocityH)
        velocityH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.ReorderPointsCOOPSMaskOld
def ReorderPointsCOOPSMaskOld(self, landmaskH, errmsg):
    err = 0
    i = '?i'
    j = '?j'
    index1 = 0
    errmsg[0] = 0
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_minus1 = self.fNumRows - 1
    fNumCols_minus1 = self.fNumCols - 1
    nv = self.fNumRows * self.fNumCols
    nCells = fNumRows_minus1 * fNumCols_minus1
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    landWaterInfo = _NewHandleClear(nCells * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    gridCellInfo = _NewHandleClear(nCells * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    if not landmaskH:
        return -1
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    index1 = 0
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            if landmaskH[0][i * self.fNumCols + j] == 0:
                landWaterInfo[0][i * fNumCols_minus1 + j] = -1
            elif (landmaskH[0][(i + 1) * self.fNumCols + j] == 0 or landmaskH[0][i * self.fNumCols + j + 1] == 0) or landmaskH[0][(i + 1) * self.fNumCols + j + 1] == 0:
                landWaterInfo[0][i * fNumCols_minus1 + j] = -1
            else:
                landWaterInfo[0][i * fNumCols_minus1 + j] = 1
                ptIndexHdl[0][i * self.fNumCols + j] = -2
                ptIndexHdl[0][i * self.fNumCols + j + 1] = -2
                ptIndexHdl[0][(i + 1) * self.fNumCols + j] = -2
                ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1] = -2
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if ptIndexHdl[0][i * self.fNumCols + j] == -2:
                ptIndexHdl[0][i * self.fNumCols + j] = ptIndex
                _old34 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * self.fNumCols + j] = -1
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] > 0:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = cellNum
                _old37 = cellNum
                cellNum += 1
                gridCellInfo[0][i * fNumCols_minus1 + j].topLeft = ptIndexHdl[0][i * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].topRight = ptIndexHdl[0][i * self.fNumCols + j + 1]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft = ptIndexHdl[0][(i + 1) * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight = ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1]
            else:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, nv):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old40 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // self.fNumCols
            jIndex = n % self.fNumCols
            fLat = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLat
            fLong = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, fNumRows_minus1):
        for j in range(0, fNumCols_minus1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * fNumCols_minus1 + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            if j == self.fNumCols - 2 or gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 2 or gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelCurv_c::ReorderPointsCOOPSMask()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.ReorderPointsCOOPSMask
def ReorderPointsCOOPSMask(self, landmaskH, errmsg):
    err = 0
    i = '?i'
    j = '?j'
    index1 = 0
    errmsg[0] = 0
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_minus1 = self.fNumRows - 1
    fNumCols_minus1 = self.fNumCols - 1
    nv = self.fNumRows * self.fNumCols
    nCells = fNumRows_minus1 * fNumCols_minus1
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    landWaterInfo = _NewHandleClear(nCells * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    gridCellInfo = _NewHandleClear(nCells * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    if not landmaskH:
        return -1
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    index1 = 0
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            landWaterInfo[0][i * fNumCols_minus1 + j] = 1
            ptIndexHdl[0][i * self.fNumCols + j] = -2
            ptIndexHdl[0][i * self.fNumCols + j + 1] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1] = -2
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if ptIndexHdl[0][i * self.fNumCols + j] == -2:
                ptIndexHdl[0][i * self.fNumCols + j] = ptIndex
                _old34 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * self.fNumCols + j] = -1
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] > 0:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = cellNum
                _old37 = cellNum
                cellNum += 1
                gridCellInfo[0][i * fNumCols_minus1 + j].topLeft = ptIndexHdl[0][i * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].topRight = ptIndexHdl[0][i * self.fNumCols + j + 1]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft = ptIndexHdl[0][(i + 1) * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight = ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1]
            else:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, nv):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old40 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // self.fNumCols
            jIndex = n % self.fNumCols
            fLat = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLat
            fLong = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, fNumRows_minus1):
        for j in range(0, fNumCols_minus1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * fNumCols_minus1 + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            if j == self.fNumCols - 2 or gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 2 or gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelCurv_c::ReorderPointsCOOPSMask()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.ReorderPointsCOOPSNoMask
def ReorderPointsCOOPSNoMask(self, errmsg):
    err = 0
    i = '?i'
    j = '?j'
    index1 = 0
    errmsg[0] = 0
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_minus1 = self.fNumRows - 1
    fNumCols_minus1 = self.fNumCols - 1
    nv = self.fNumRows * self.fNumCols
    nCells = fNumRows_minus1 * fNumCols_minus1
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    landWaterInfo = _NewHandleClear(nCells * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    gridCellInfo = _NewHandleClear(nCells * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    index1 = 0
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            landWaterInfo[0][i * fNumCols_minus1 + j] = 1
            ptIndexHdl[0][i * self.fNumCols + j] = -2
            ptIndexHdl[0][i * self.fNumCols + j + 1] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1] = -2
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if ptIndexHdl[0][i * self.fNumCols + j] == -2:
                ptIndexHdl[0][i * self.fNumCols + j] = ptIndex
                _old33 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * self.fNumCols + j] = -1
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] > 0:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = cellNum
                _old36 = cellNum
                cellNum += 1
                gridCellInfo[0][i * fNumCols_minus1 + j].topLeft = ptIndexHdl[0][i * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].topRight = ptIndexHdl[0][i * self.fNumCols + j + 1]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft = ptIndexHdl[0][(i + 1) * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight = ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1]
            else:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, nv):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old39 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // self.fNumCols
            jIndex = n % self.fNumCols
            fLat = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLat
            fLong = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, fNumRows_minus1):
        for j in range(0, fNumCols_minus1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * fNumCols_minus1 + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            if j == self.fNumCols - 2 or gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 2 or gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelCurv_c::ReorderPointsCOOPSMask()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelCurv_c::ReorderPointsCOOPSMask"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetLatLonFromIndex
def GetLatLonFromIndex(self, iIndex, jIndex, wp):
    dLat = '?dLat'
    dLon = '?dLon'
    dLat1 = '?dLat1'
    dLon1 = '?dLon1'
    dLat2 = '?dLat2'
    dLon2 = '?dLon2'
    fLat = '?fLat'
    fLong = '?fLong'
    if iIndex < 0 or jIndex > self.fNumCols:
        return -1
    if iIndex == 0:
        if jIndex < self.fNumCols:
            dLat = self.fVertexPtsH[0][self.fNumCols + jIndex].pLat - self.fVertexPtsH[0][jIndex].pLat
            fLat = self.fVertexPtsH[0][jIndex].pLat - dLat
            dLon = self.fVertexPtsH[0][self.fNumCols + jIndex].pLong - self.fVertexPtsH[0][jIndex].pLong
            fLong = self.fVertexPtsH[0][jIndex].pLong - dLon
        else:
            dLat1 = self.fVertexPtsH[0][jIndex - 1].pLat - self.fVertexPtsH[0][jIndex - 2].pLat
            dLat2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLat
            fLat = 2 * (self.fVertexPtsH[0][jIndex - 1].pLat + dLat1) - (self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat + dLat2)
            dLon1 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][jIndex - 1].pLong
            dLon2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLong - self.fVertexPtsH[0][jIndex - 2].pLong
            fLong = 2 * (self.fVertexPtsH[0][jIndex - 1].pLong - dLon1) - (self.fVertexPtsH[0][jIndex - 2].pLong - dLon2)
    elif jIndex < self.fNumCols:
        fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLat
        fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLong
    else:
        dLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLat
        fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat + dLat
        dLon = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLong
        fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong + dLon
    wp.pLat = int(fLat * 1000000)
    wp.pLong = int(fLong * 1000000)
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetNumDepthLevels
def GetNumDepthLevels(self):
    numDepthLevels = 0
    err = 0
    path = carray('char[256]')
    status = '?status'
    ncid = '?ncid'
    sigmaid = '?sigmaid'
    sigmavarid = '?sigmavarid'
    sigmaLength = 0
    strcpy(path, self.fVar.pathName)
    if not path[0]:
        return -1
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        if status != 0:
            err = -1
            return -1
    status, sigmaid = nc_inq_dimid(ncid, '"sigma"', sigmaid)
    if status != 0:
        numDepthLevels = 1
    else:
        status, sigmavarid = nc_inq_varid(ncid, '"sigma"', sigmavarid)
        if status != 0:
            status, sigmavarid = nc_inq_varid(ncid, '"sc_r"', sigmavarid)
            status, sigmaLength = nc_inq_dimlen(ncid, sigmaid, sigmaLength)
            if status != 0:
                numDepthLevels = 1
            else:
                numDepthLevels = sigmaLength
        else:
            status, sigmaLength = nc_inq_dimlen(ncid, sigmaid, sigmaLength)
            if status != 0:
                numDepthLevels = 1
            else:
                numDepthLevels = sigmaLength
    return numDepthLevels

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    i = '?i'
    numTri = '?numTri'
    index = -1
    vel_index = 0
    interpolationVal = InterpolationVal()
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    i = 0
    while i < numTri:
        if self.bVelocitiesOnNodes:
            interpolationVal = triGrid.GetInterpolationValuesFromIndex(i)
            if interpolationVal.ptIndex1 < 0:
                scaled_velocity[i].u = 0
                scaled_velocity[i].v = 0
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            scaled_velocity[i].u = 0
            scaled_velocity[i].v = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            velocity.u = self.GetStartUVelocity(index)
            velocity.v = self.GetStartVVelocity(index)
        elif index != -1:
            velocity.u = timeAlpha * self.GetStartUVelocity(index) + (1 - timeAlpha) * self.GetEndUVelocity(index)
            velocity.v = timeAlpha * self.GetStartVVelocity(index) + (1 - timeAlpha) * self.GetEndVVelocity(index)
        if velocity.u == self.fFillValue:
            velocity.u = 0
        if velocity.v == self.fFillValue:
            velocity.v = 0
        scaled_velocity[vel_index].u = velocity.u * self.fVar.fileScaleFactor
        scaled_velocity[vel_index].v = velocity.v * self.fVar.fileScaleFactor
        _old17 = vel_index
        vel_index += 1
        i = i + 2
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetCellCenters
def GetCellCenters(self):
    err = 0
    ptsH = None
    wp1 = LongPoint()
    wp2 = LongPoint()
    wp3 = LongPoint()
    wp4 = LongPoint()
    wp = WorldPoint()
    numPts = 0
    numTri = 0
    numCells = '?numCells'
    i = '?i'
    index1 = '?index1'
    index2 = '?index2'
    tri1 = Topology()
    tri2 = Topology()
    if self.fCenterPtsH:
        return self.fCenterPtsH
    topH = self.GetTopologyHdl()
    ptsH = self.GetPointsHdl()
    numTri = _GetHandleSize(topH) // sizeof('Topology')
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    numCells = numTri // 2
    self.fCenterPtsH = _NewHandle(numCells * sizeof('WorldPoint'))
    if not self.fCenterPtsH:
        err = -1
        printf('"%s"', '"TriGridVel_c::GetCenterPointsHdl()"')
        return self.fCenterPtsH
    for i in range(0, numCells):
        index1 = i * 2
        index2 = i * 2 + 1
        tri1 = copy.copy(topH[0][index1])
        tri2 = copy.copy(topH[0][index2])
        wp1 = copy.copy(ptsH[0][topH[0][index1].vertex1])
        wp2 = copy.copy(ptsH[0][topH[0][index1].vertex2])
        wp3 = copy.copy(ptsH[0][topH[0][index1].vertex3])
        wp4 = copy.copy(ptsH[0][topH[0][index2].vertex2])
        wp.pLong = (wp1.h + wp2.h + wp3.h + wp4.h) / 4000000
        wp.pLat = (wp1.v + wp2.v + wp3.v + wp4.v) / 4000000
        self.fCenterPtsH[0][i] = copy.copy(wp)
    return self.fCenterPtsH

@ gnome.lib.TimeGridVel_c.TimeGridVelCurv_c.GetCellData
def GetCellData(self):
    err = 0
    i = '?i'
    numTri = '?numTri'
    numCells = '?numCells'
    index1 = '?index1'
    index2 = '?index2'
    topH = None
    tri1 = Topology()
    tri2 = Topology()
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if self.fGridCellInfoH:
        return self.fGridCellInfoH
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    numCells = numTri // 2
    fGridCellInfoH = _NewHandleClear(numCells * sizeof('GridCellInfo'))
    if not fGridCellInfoH:
        err = memFullErr
        if err:
            if fGridCellInfoH:
                _DisposeHandleReally(fGridCellInfoH)
                fGridCellInfoH = None
        return fGridCellInfoH
    for i in range(0, numCells):
        index1 = i * 2
        index2 = i * 2 + 1
        tri1 = copy.copy(topH[0][index1])
        tri2 = copy.copy(topH[0][index2])
        fGridCellInfoH[0][i].cellNum = i
        fGridCellInfoH[0][i].topLeft = tri1.vertex2
        fGridCellInfoH[0][i].topRight = tri1.vertex1
        fGridCellInfoH[0][i].bottomLeft = tri2.vertex2
        fGridCellInfoH[0][i].bottomRight = tri1.vertex3
    if err:
        if fGridCellInfoH:
            _DisposeHandleReally(fGridCellInfoH)
            fGridCellInfoH = None
    return fGridCellInfoH

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.IsTriangleGrid
def IsTriangleGrid(self):
    return True

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.IsRegularGrid
def IsRegularGrid(self):
    return False

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.IsDataOnCells
def IsDataOnCells(self):
    return self.bVelocitiesOnTriangles

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.__init__
def __init__(self):
    self.fNumNodes = 0
    self.fNumEles = 0
    self.bVelocitiesOnTriangles = False

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetPointsHdl
def GetPointsHdl(self):
    return self.fGrid.GetPointsHdl()

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetTotalDepth
def GetTotalDepth(self, refPoint, triNum):
    totalDepth = 0
    if self.fDepthDataInfo:
        totalDepth = self.fDepthDataInfo[0][triNum].totalDepth
    return totalDepth

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetDepthIndices
def GetDepthIndices(self, ptIndex, depthAtPoint, depthIndex1, depthIndex2):
    indexToDepthData = '?indexToDepthData'
    numDepths = '?numDepths'
    totalDepth = '?totalDepth'
    if self.fDepthDataInfo:
        indexToDepthData = self.fDepthDataInfo[0][ptIndex].indexToDepthData
        numDepths = self.fDepthDataInfo[0][ptIndex].numDepths
        totalDepth = self.fDepthDataInfo[0][ptIndex].totalDepth
    else:
        return
    if self.fVar.gridType == TWO_D:
        depthIndex1[0] = indexToDepthData
        depthIndex2[0] = -1
    elif self.fVar.gridType == BAROTROPIC:
        if depthAtPoint <= totalDepth:
            depthIndex1[0] = indexToDepthData
            depthIndex2[0] = -1
        else:
            depthIndex1[0] = -1
            depthIndex2[0] = -1
    elif self.fVar.gridType == MULTILAYER:
        if depthAtPoint <= totalDepth:
            j = '?j'
            for j in range(0, numDepths - 1):
                if self.fDepthsH[0][indexToDepthData + j] < depthAtPoint and depthAtPoint <= self.fDepthsH[0][indexToDepthData + j + 1]:
                    depthIndex1[0] = indexToDepthData + j
                    depthIndex2[0] = indexToDepthData + j + 1
                elif self.fDepthsH[0][indexToDepthData + j] == depthAtPoint:
                    depthIndex1[0] = indexToDepthData + j
                    depthIndex2[0] = -1
            if self.fDepthsH[0][indexToDepthData] == depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData + numDepths - 1] < depthAtPoint:
                depthIndex1[0] = indexToDepthData + numDepths - 1
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData] > depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
        else:
            depthIndex1[0] = -1
            depthIndex2[0] = -1
    elif self.fVar.gridType == SIGMA:
        if depthAtPoint <= totalDepth:
            j_2 = '?j_2'
            for j_2 in range(0, numDepths - 1):
                if self.fDepthsH[0][indexToDepthData + j_2] < depthAtPoint and depthAtPoint <= self.fDepthsH[0][indexToDepthData + j_2 + 1]:
                    depthIndex1[0] = indexToDepthData + j_2
                    depthIndex2[0] = indexToDepthData + j_2 + 1
                elif self.fDepthsH[0][indexToDepthData + j_2] == depthAtPoint:
                    depthIndex1[0] = indexToDepthData + j_2
                    depthIndex2[0] = -1
            if self.fDepthsH[0][indexToDepthData] == depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData + numDepths - 1] < depthAtPoint:
                depthIndex1[0] = indexToDepthData + numDepths - 1
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData] > depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
        else:
            depthIndex1[0] = -1
            depthIndex2[0] = -1
    else:
        depthIndex1[0] = -1
        depthIndex2[0] = -1

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    depth = refPoint.z
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    triIndex = '?triIndex'
    startTime = '?startTime'
    endTime = '?endTime'
    relTime = '?relTime'
    interpolationVal = InterpolationVal()
    scaledPatVelocity = VelocityRec(0, 0)
    if not self.bVelocitiesOnTriangles:
        interpolationVal = self.fGrid.GetInterpolationValues(copy.copy(refPoint.p))
    else:
        lp = LongPoint()
        dagTree = None
        dagTree = self.fGrid.GetDagTree()
        if not dagTree:
            return copy.copy(scaledPatVelocity)
        lp.h = int(refPoint.p.pLong)
        lp.v = int(refPoint.p.pLat)
        triIndex = dagTree.WhatTriAmIIn(copy.copy(lp))
        interpolationVal.ptIndex1 = -1
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
    elif not self.bVelocitiesOnTriangles:
        return copy.copy(scaledPatVelocity)
    if depth > 0 and interpolationVal.ptIndex1 >= 0:
        scaledPatVelocity = self.GetScaledPatValue3D(model_time, copy.copy(interpolationVal), depth)
        scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
        scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
        return copy.copy(scaledPatVelocity)
    if depth > 0:
        return copy.copy(scaledPatVelocity)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if interpolationVal.ptIndex1 >= 0:
            scaledPatVelocity.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].u + interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].u + interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].u
            scaledPatVelocity.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].v + interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].v + interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].v
        elif self.bVelocitiesOnTriangles and triIndex > 0:
            scaledPatVelocity.u = self.fStartData.dataHdl[0][triIndex].u
            scaledPatVelocity.v = self.fStartData.dataHdl[0][triIndex].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if self.fTimeAlpha == -1:
            relTime = model_time - self.fModelStartTime
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex]
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex]
            timeAlpha = (endTime - relTime) / (endTime - startTime)
        else:
            timeAlpha = self.fTimeAlpha
        if interpolationVal.ptIndex1 >= 0:
            scaledPatVelocity.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].u) + interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].u) + interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].u)
            scaledPatVelocity.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].v) + interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].v) + interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].v)
        elif self.bVelocitiesOnTriangles and triIndex > 0:
            scaledPatVelocity.u = timeAlpha * self.fStartData.dataHdl[0][triIndex].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][triIndex].u
            scaledPatVelocity.v = timeAlpha * self.fStartData.dataHdl[0][triIndex].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][triIndex].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetScaledPatValue3D
def GetScaledPatValue3D(self, model_time, interpolationVal, depth):
    pt1depthIndex1 = '?pt1depthIndex1'
    pt1depthIndex2 = '?pt1depthIndex2'
    pt2depthIndex1 = '?pt2depthIndex1'
    pt2depthIndex2 = '?pt2depthIndex2'
    pt3depthIndex1 = '?pt3depthIndex1'
    pt3depthIndex2 = '?pt3depthIndex2'
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    amtOfDepthData = 0
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    depthAlpha = '?depthAlpha'
    timeAlpha = '?timeAlpha'
    pt1interp = VelocityRec(0, 0)
    pt2interp = VelocityRec(0, 0)
    pt3interp = VelocityRec(0, 0)
    scaledPatVelocity = VelocityRec(0, 0)
    startTime = '?startTime'
    endTime = '?endTime'
    relTime = '?relTime'
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
    else:
        return copy.copy(scaledPatVelocity)
    if self.fDepthDataInfo:
        amtOfDepthData = _GetHandleSize(self.fDepthDataInfo) // sizeof('DepthDataInfo')
    if amtOfDepthData > 0:
        _, pt1depthIndex1, pt1depthIndex2 = self.GetDepthIndices(ptIndex1, depth, pt1depthIndex1, pt1depthIndex2)
        _, pt2depthIndex1, pt2depthIndex2 = self.GetDepthIndices(ptIndex2, depth, pt2depthIndex1, pt2depthIndex2)
        _, pt3depthIndex1, pt3depthIndex2 = self.GetDepthIndices(ptIndex3, depth, pt3depthIndex1, pt3depthIndex2)
    else:
        pt1depthIndex1 = ptIndex1
        pt1depthIndex2 = -1
        pt2depthIndex1 = ptIndex2
        pt2depthIndex2 = -1
        pt3depthIndex1 = ptIndex3
        pt3depthIndex2 = -1
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex2].u)
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex2].v)
            else:
                pt1interp.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].u
                pt1interp.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].v
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex2].u)
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex2].v)
            else:
                pt2interp.u = interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].u
                pt2interp.v = interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].v
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex2].u)
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex2].v)
            else:
                pt3interp.u = interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].u
                pt3interp.v = interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].v
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if self.fTimeAlpha == -1:
            relTime = model_time - self.fModelStartTime
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex]
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex]
            timeAlpha = (endTime - relTime) / (endTime - startTime)
        else:
            timeAlpha = self.fTimeAlpha
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex2].u))
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex2].v))
            else:
                pt1interp.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].u)
                pt1interp.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].v)
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex2].u))
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex2].v))
            else:
                pt2interp.u = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].u)
                pt2interp.v = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].v)
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex2].u))
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex2].v))
            else:
                pt3interp.u = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].u)
                pt3interp.v = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].v)
    scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u
    scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.ReorderPoints2
def ReorderPoints2(self, bndry_indices, bndry_nums, bndry_type, numBoundaryPts, tri_verts, tri_neighbors, ntri, isCCW):
    err = 0
    i = '?i'
    n = '?n'
    nv = self.fNumNodes
    currentBoundary = '?currentBoundary'
    numVerdatPts = 0
    numVerdatBreakPts = 0
    vertFlagsH = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    verdatBreakPtsH = _NewHandleClear(nv * sizeof('long'))
    topo = None
    tree = DAGTreeStruct()
    tree.treeHdl = None
    dagTree = None
    pts = None
    velH = None
    triBounds = WorldRect()
    triGrid = None
    addOne = False
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if (not vertFlagsH or not verdatPtsH) or not verdatBreakPtsH:
        err = memFullErr
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    currentBoundary = 1
    if bndry_nums[0] == 0:
        addOne = True
    for i in range(0, numBoundaryPts):
        islandNum = '?islandNum'
        index = '?index'
        index = bndry_indices[i]
        islandNum = bndry_nums[i]
        if addOne:
            _old29 = islandNum
            islandNum += 1
        vertFlagsH[0][index - 1] = 1
        _old30 = numVerdatPts
        numVerdatPts += 1
        verdatPtsH[0][_old30] = index - 1
        if islandNum > currentBoundary:
            _old31 = numVerdatBreakPts
            numVerdatBreakPts += 1
            verdatBreakPtsH[0][_old31] = i
            _old32 = currentBoundary
            currentBoundary += 1
    _old34 = numVerdatBreakPts
    numVerdatBreakPts += 1
    verdatBreakPtsH[0][_old34] = numBoundaryPts
    for i in range(0, nv):
        if vertFlagsH[0][i] == 0:
            _old35 = numVerdatPts
            numVerdatPts += 1
            verdatPtsH[0][_old35] = i
            vertFlagsH[0][i] = 0
    if numVerdatPts != nv:
        printf('"%s"', '"Not all vertex points were used"')
        err = -1
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    numVerdatPts = nv
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            n = i
            fLat = self.fVertexPtsH[0][n].pLat
            fLong = self.fVertexPtsH[0][n].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    _SetHandleSize(verdatBreakPtsH, numVerdatBreakPts * sizeof('long'))
    for i in range(0, numVerdatBreakPts):
        _old44 = verdatBreakPtsH[0][i]
        verdatBreakPtsH[0][i] -= 1
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    MySpinCursor()
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, 3 * ntri):
        tri_neighbors[i] = tri_neighbors[i] - 1
        tri_verts[i] = tri_verts[i] - 1
    for i in range(0, ntri):
        topo[0][i].vertex1 = tri_verts[i]
        if isCCW:
            topo[0][i].vertex2 = tri_verts[i + ntri]
        else:
            topo[0][i].vertex3 = tri_verts[i + ntri]
        if isCCW:
            topo[0][i].vertex3 = tri_verts[i + 2 * ntri]
        else:
            topo[0][i].vertex2 = tri_verts[i + 2 * ntri]
        topo[0][i].adjTri1 = tri_neighbors[i]
        if isCCW:
            topo[0][i].adjTri2 = tri_neighbors[i + ntri]
        else:
            topo[0][i].adjTri3 = tri_neighbors[i + ntri]
        if isCCW:
            topo[0][i].adjTri3 = tri_neighbors[i + 2 * ntri]
        else:
            topo[0][i].adjTri2 = tri_neighbors[i + 2 * ntri]
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelTri_c::ReorderPoints()"')
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if verdatBreakPtsH:
        _DisposeHandleReally(verdatBreakPtsH)
        verdatBreakPtsH = None
    if err:
        printf('"%s"', '"Error reordering gridpoints into verdat format"')
    if vertFlagsH:
        _DisposeHandleReally(vertFlagsH)
        vertFlagsH = None
    if verdatPtsH:
        _DisposeHandleReally(verdatPtsH)
        verdatPtsH = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if verdatBreakPtsH:
            _DisposeHandleReally(verdatBreakPtsH)
            verdatBreakPtsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.ReorderPoints
def ReorderPoints(self, bndry_indices, bndry_nums, bndry_type, numBoundaryPts):
    err = 0
    i = '?i'
    n = '?n'
    nv = self.fNumNodes
    currentBoundary = '?currentBoundary'
    numVerdatPts = 0
    numVerdatBreakPts = 0
    vertFlagsH = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    verdatBreakPtsH = _NewHandleClear(nv * sizeof('long'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    addOne = False
    errmsg = carray('char[256]')
    errmsg[0] = 0
    if (not vertFlagsH or not verdatPtsH) or not verdatBreakPtsH:
        err = memFullErr
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    currentBoundary = 1
    if bndry_nums[0] == 0:
        addOne = True
    for i in range(0, numBoundaryPts):
        islandNum = '?islandNum'
        index = '?index'
        index = bndry_indices[i]
        islandNum = bndry_nums[i]
        if addOne:
            _old25 = islandNum
            islandNum += 1
        vertFlagsH[0][index - 1] = 1
        _old26 = numVerdatPts
        numVerdatPts += 1
        verdatPtsH[0][_old26] = index - 1
        if islandNum > currentBoundary:
            _old27 = numVerdatBreakPts
            numVerdatBreakPts += 1
            verdatBreakPtsH[0][_old27] = i
            _old28 = currentBoundary
            currentBoundary += 1
    _old30 = numVerdatBreakPts
    numVerdatBreakPts += 1
    verdatBreakPtsH[0][_old30] = numBoundaryPts
    for i in range(0, nv):
        if vertFlagsH[0][i] == 0:
            _old31 = numVerdatPts
            numVerdatPts += 1
            verdatPtsH[0][_old31] = i
            vertFlagsH[0][i] = 0
    if numVerdatPts != nv:
        printf('"%s"', '"Not all vertex points were used"')
        err = -1
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            n = verdatPtsH[0][i]
            fLat = self.fVertexPtsH[0][n].pLat
            fLong = self.fVertexPtsH[0][n].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    _SetHandleSize(verdatBreakPtsH, numVerdatBreakPts * sizeof('long'))
    for i in range(0, numVerdatBreakPts):
        _old40 = verdatBreakPtsH[0][i]
        verdatBreakPtsH[0][i] -= 1
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    MySpinCursor()
    err, topo = maketriangles(topo, pts, numVerdatPts, verdatBreakPtsH, numVerdatBreakPts)
    if err:
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridVelTri_c::ReorderPoints()"')
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if err:
            printf('"%s"', '"Error reordering gridpoints into verdat format"')
        if vertFlagsH:
            _DisposeHandleReally(vertFlagsH)
            vertFlagsH = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatBreakPtsH:
                _DisposeHandleReally(verdatBreakPtsH)
                verdatBreakPtsH = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    if topo:
        self.fNumEles = _GetHandleSize(topo) // sizeof('Topology')
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if verdatBreakPtsH:
        _DisposeHandleReally(verdatBreakPtsH)
        verdatBreakPtsH = None
    self.fVerdatToNetCDFH = verdatPtsH
    if err:
        printf('"%s"', '"Error reordering gridpoints into verdat format"')
    if vertFlagsH:
        _DisposeHandleReally(vertFlagsH)
        vertFlagsH = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridVelTri_c::ReorderPoints"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if verdatBreakPtsH:
            _DisposeHandleReally(verdatBreakPtsH)
            verdatBreakPtsH = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetNumDepthLevels
def GetNumDepthLevels(self):
    numDepthLevels = 0
    err = 0
    status = '?status'
    ncid = '?ncid'
    sigmaid = '?sigmaid'
    sigmavarid = '?sigmavarid'
    sigmaLength = 0
    path = carray('char[256]')
    path[0] = 0
    strcpy(path, self.fVar.pathName)
    if not path[0]:
        return -1
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        if status != 0:
            err = -1
            return -1
    status, sigmaid = nc_inq_dimid(ncid, '"sigma"', sigmaid)
    if status != 0:
        numDepthLevels = 1
    else:
        status, sigmavarid = nc_inq_varid(ncid, '"sigma"', sigmavarid)
        if status != 0:
            numDepthLevels = 1
        status, sigmaLength = nc_inq_dimlen(ncid, sigmaid, sigmaLength)
        if status != 0:
            numDepthLevels = 1
        numDepthLevels = sigmaLength
    return numDepthLevels

@ gnome.lib.TimeGridVel_c.TimeGridVelTri_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    depthAlpha = '?depthAlpha'
    arrowDepth = 0
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    wp = WorldPoint()
    numVertices = '?numVertices'
    i = '?i'
    numTri = '?numTri'
    ptsHdl = None
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityFRec(0, 0)
    amtOfDepthData = 0
    if self.fDepthDataInfo:
        amtOfDepthData = _GetHandleSize(self.fDepthDataInfo) // sizeof('DepthDataInfo')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    ptsHdl = triGrid.GetPointsHdl()
    if ptsHdl:
        numVertices = _GetHandleSize(ptsHdl) // sizeof('LongPoint')
    else:
        numVertices = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    if self.bVelocitiesOnTriangles == False:
        for i in range(0, numVertices):
            pt = copy.copy(ptsHdl[0][i])
            index = i
            if self.fVerdatToNetCDFH:
                index = self.fVerdatToNetCDFH[0][i]
            velocity_2 = VelocityRec(0, 0)
            depthIndex1 = '?depthIndex1'
            depthIndex2 = '?depthIndex2'
            if amtOfDepthData > 0:
                _, depthIndex1, depthIndex2 = self.GetDepthIndices(index, arrowDepth, depthIndex1, depthIndex2)
            else:
                depthIndex1 = index
                depthIndex2 = -1
            if depthIndex1 == -1 and depthIndex2 == -1:
                continue
            if depthIndex2 != -1:
                topDepth = self.fDepthsH[0][depthIndex1]
                bottomDepth = self.fDepthsH[0][depthIndex2]
                depthAlpha = (bottomDepth - arrowDepth) / (bottomDepth - topDepth)
            wp.pLat = pt.v
            wp.pLong = pt.h
            if self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1:
                if depthIndex2 == -1:
                    velocity_2.u = self.fStartData.dataHdl[0][depthIndex1].u
                    velocity_2.v = self.fStartData.dataHdl[0][depthIndex1].v
                else:
                    velocity_2.u = depthAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2].u
                    velocity_2.v = depthAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2].v
            elif depthIndex2 == -1:
                velocity_2.u = timeAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].u
                velocity_2.v = timeAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].v
            else:
                velocity_2.u = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].u)
                velocity_2.u = velocity_2.u + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2].u)
                velocity_2.v = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].v)
                velocity_2.v = velocity_2.v + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2].v)
            scaled_velocity[i].u = velocity_2.u * self.fVar.fileScaleFactor
            scaled_velocity[i].v = velocity_2.v * self.fVar.fileScaleFactor
    elif self.bVelocitiesOnTriangles:
        wp1 = LongPoint()
        wp2 = LongPoint()
        wp3 = LongPoint()
        for i in range(0, numTri):
            depthIndex1_2 = '?depthIndex1_2'
            depthIndex2_2 = '?depthIndex2_2'
            wp1 = copy.copy(ptsHdl[0][topH[0][i].vertex1])
            wp2 = copy.copy(ptsHdl[0][topH[0][i].vertex2])
            wp3 = copy.copy(ptsHdl[0][topH[0][i].vertex3])
            wp.pLong = (wp1.h + wp2.h + wp3.h) // 3
            wp.pLat = (wp1.v + wp2.v + wp3.v) // 3
            if amtOfDepthData > 0:
                if not self.bVelocitiesOnTriangles:
                    _, depthIndex1_2, depthIndex2_2 = self.GetDepthIndices(i, arrowDepth, depthIndex1_2, depthIndex2_2)
                else:
                    depthAtPoint = self.fGrid.GetDepthAtPoint(copy.copy(wp))
                    _, depthIndex1_2, depthIndex2_2 = self.GetDepthIndices(i, arrowDepth, depthAtPoint, depthIndex1_2, depthIndex2_2)
            else:
                depthIndex1_2 = i
                depthIndex2_2 = -1
            if depthIndex1_2 == -1 and depthIndex2_2 == -1:
                continue
            if depthIndex2_2 != -1:
                topDepth = self.fDepthsH[0][depthIndex1_2]
                bottomDepth = self.fDepthsH[0][depthIndex2_2]
                depthAlpha = (bottomDepth - arrowDepth) / (bottomDepth - topDepth)
            if self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1:
                if depthIndex2_2 == -1:
                    velocity.u = self.fStartData.dataHdl[0][i].u
                    velocity.v = self.fStartData.dataHdl[0][i].v
                else:
                    velocity.u = depthAlpha * self.fStartData.dataHdl[0][depthIndex1_2].u + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2_2].u
                    velocity.v = depthAlpha * self.fStartData.dataHdl[0][depthIndex1_2].v + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2_2].v
            elif depthIndex2_2 == -1:
                velocity.u = timeAlpha * self.fStartData.dataHdl[0][i].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][i].u
                velocity.v = timeAlpha * self.fStartData.dataHdl[0][i].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][i].v
            else:
                velocity.u = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1_2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1_2].u)
                velocity.u = velocity.u + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2_2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2_2].u)
                velocity.v = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1_2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1_2].v)
                velocity.v = velocity.v + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2_2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2_2].v)
            scaled_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
            scaled_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.IsRegularGrid
def IsRegularGrid(self):
    return True

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.__init__
def __init__(self):
    self.fTimeDataHdl = None
    self.fPtsH = None
    self.fGridCellInfoH = None
    self.fCenterPtsH = None
    self.fUserUnits = -1

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    index = '?index'
    startTime = '?startTime'
    endTime = '?endTime'
    scaledPatVelocity = VelocityRec()
    index = self.GetVelocityIndex(copy.copy(refPoint.p))
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            scaledPatVelocity.u = self.fStartData.dataHdl[0][index].u
            scaledPatVelocity.v = self.fStartData.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime
        else:
            startTime = self.fTimeDataHdl[0][self.fStartData.timeIndex].time
        endTime = self.fTimeDataHdl[0][self.fEndData.timeIndex].time
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            scaledPatVelocity.u = timeAlpha * self.fStartData.dataHdl[0][index].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].u
            scaledPatVelocity.v = timeAlpha * self.fStartData.dataHdl[0][index].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetNumTimesInFile
def GetNumTimesInFile(self):
    numTimes = 0
    if self.fTimeDataHdl:
        numTimes = _GetHandleSize(self.fTimeDataHdl) // sizeof('PtCurTimeData')
    return numTimes

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetStartTime
def GetStartTime(self, startTime):
    startTime[0] = 0
    if self.fStartData.timeIndex != -1 and self.fTimeDataHdl:
        startTime[0] = self.fTimeDataHdl[0][self.fStartData.timeIndex].time
    else:
        return -1
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetEndTime
def GetEndTime(self, endTime):
    endTime[0] = 0
    if self.fEndData.timeIndex != -1 and self.fTimeDataHdl:
        endTime[0] = self.fTimeDataHdl[0][self.fEndData.timeIndex].time
    else:
        return -1
    return 0

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.CheckAndScanFile
def CheckAndScanFile(self, errmsg, model_time):
    time = model_time
    startTime = '?startTime'
    endTime = '?endTime'
    lastEndTime = '?lastEndTime'
    testTime = '?testTime'
    i = '?i'
    numFiles = self.GetNumFiles()
    err = 0
    errmsg[0] = 0
    if self.fEndData.timeIndex != -1:
        testTime = self.fTimeDataHdl[0][self.fEndData.timeIndex].time
    for i in range(0, numFiles):
        startTime = self.fInputFilesHdl[0][i].startTime
        endTime = self.fInputFilesHdl[0][i].endTime
        if (startTime <= time and time <= endTime) and (not startTime == endTime):
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeDataHdl), addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            self.fOverLap = False
            return err
        if startTime == endTime and startTime == time:
            fileNum = '?fileNum'
            if i < numFiles - 1:
                fileNum = i + 1
            else:
                fileNum = i
            self.fOverLapStartTime = self.fInputFilesHdl[0][fileNum - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum - 1].pathName, addr(self.fTimeDataHdl), addr(self.fTimeHdl))
            self.DisposeLoadedData(self.fEndData)
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum - 1].pathName)
            err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
            if err:
                return err
            self.fStartData.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum].pathName, addr(self.fTimeDataHdl), addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fOverLap = True
            return 0
        if i > 0 and (lastEndTime < time and time < startTime):
            self.fOverLapStartTime = self.fInputFilesHdl[0][i - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            if self.fOverLapStartTime == testTime:
                self.fStartData = copy.copy(self.fEndData)
                self.ClearLoadedData(self.fEndData)
            else:
                self.DisposeTimeHdl()
                err = ScanFileForTimes(self.fInputFilesHdl[0][i - 1].pathName, addr(self.fTimeDataHdl), addr(self.fTimeHdl))
                self.DisposeLoadedData(self.fEndData)
                strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i - 1].pathName)
                err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
                if err:
                    return err
            self.fStartData.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeDataHdl), addr(self.fTimeHdl))
            if err:
                return err
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fOverLap = True
            return 0
        lastEndTime = endTime
    strcpy(errmsg, '"Time outside of interval being modeled"')
    return -1

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetPointsHdl
def GetPointsHdl(self):
    i = '?i'
    j = '?j'
    numPoints = '?numPoints'
    fLat = '?fLat'
    fLong = '?fLong'
    dLong = '?dLong'
    dLat = '?dLat'
    gridBounds = copy.copy(self.fGridBounds)
    vertex = LongPoint()
    err = 0
    if self.fPtsH:
        return self.fPtsH
    numPoints = self.fNumRows * self.fNumCols
    dLong = (gridBounds.hiLong - gridBounds.loLong) // (self.fNumCols - 1)
    dLat = (gridBounds.hiLat - gridBounds.loLat) // (self.fNumRows - 1)
    self.fPtsH = _NewHandle(numPoints * sizeof('LongPoint'))
    if not self.fPtsH:
        err = -1
        printf('"%s"', '"TriGridCurRect_c::GetPointsHdl()"')
        return self.fPtsH
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            fLat = gridBounds.loLat + i * dLat
            fLong = gridBounds.loLong + j * dLong
            vertex.v = int(fLat)
            vertex.h = int(fLong)
            self.fPtsH[0][i * self.fNumCols + j] = copy.copy(vertex)
    return self.fPtsH

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    longPt = LongPoint()
    wp = WorldPoint()
    numPoints = '?numPoints'
    i = '?i'
    j = '?j'
    index = -1
    ptsHdl = None
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    ptsHdl = self.GetPointsHdl()
    if ptsHdl:
        numPoints = _GetHandleSize(ptsHdl) // sizeof('LongPoint')
    else:
        numPoints = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            longPt = copy.copy(ptsHdl[0][i * self.fNumCols + j])
            wp.pLat = longPt.v
            wp.pLong = longPt.h
            index = i * self.fNumCols + j
            if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
                velocity.u = self.GetStartUVelocity(index)
                velocity.v = self.GetStartVVelocity(index)
            elif index != -1:
                velocity.u = timeAlpha * self.GetStartUVelocity(index) + (1 - timeAlpha) * self.GetEndUVelocity(index)
                velocity.v = timeAlpha * self.GetStartVVelocity(index) + (1 - timeAlpha) * self.GetEndVVelocity(index)
            if velocity.u == self.fFillValue:
                velocity.u = 0
            if velocity.v == self.fFillValue:
                velocity.v = 0
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].u = velocity.u * self.fVar.fileScaleFactor
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetCellCenters
def GetCellCenters(self):
    err = 0
    ptsH = None
    wp = WorldPoint()
    i = '?i'
    numPts = 0
    numCells = '?numCells'
    if self.fCenterPtsH:
        return self.fCenterPtsH
    ptsH = self.GetPointsHdl()
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    self.fCenterPtsH = _NewHandle(numPts * sizeof('WorldPoint'))
    if not self.fCenterPtsH:
        err = -1
        printf('"%s"', '"TriGridCurRect_c::GetCellCenters()"')
        return self.fCenterPtsH
    for i in range(0, numPts):
        wp.pLong = ptsH[0][i].h / 1000000
        wp.pLat = ptsH[0][i].v / 1000000
        self.fCenterPtsH[0][i] = copy.copy(wp)
    return self.fCenterPtsH

@ gnome.lib.TimeGridVel_c.TimeGridCurRect_c.GetCellData
def GetCellData(self):
    err = 0
    i = '?i'
    j = '?j'
    numCells = '?numCells'
    if self.fGridCellInfoH:
        return self.fGridCellInfoH
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    fGridCellInfoH = _NewHandleClear(numCells * sizeof('GridCellInfo'))
    if not fGridCellInfoH:
        err = memFullErr
        if err:
            if fGridCellInfoH:
                _DisposeHandleReally(fGridCellInfoH)
                fGridCellInfoH = None
        return fGridCellInfoH
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].cellNum = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topLeft = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topRight = i * self.fNumCols + j + 1
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomRight = (i + 1) * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomLeft = (i + 1) * self.fNumCols + j + 1
    if err:
        if fGridCellInfoH:
            _DisposeHandleReally(fGridCellInfoH)
            fGridCellInfoH = None
    return fGridCellInfoH

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.IsTriangleGrid
def IsTriangleGrid(self):
    return True

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.IsDataOnCells
def IsDataOnCells(self):
    return False

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.__init__
def __init__(self):
    self.fNumLandPts = 0
    self.fBoundaryLayerThickness = 0
    self.fDepthsH = None
    self.fDepthDataInfo = None

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetNumDepths
def GetNumDepths(self):
    numDepths = 0
    if self.fDepthsH:
        numDepths = _GetHandleSize(self.fDepthsH) // sizeof('float')
    return numDepths

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetDepthIndices
def GetDepthIndices(self, ptIndex, depthAtPoint, depthIndex1, depthIndex2):
    indexToDepthData = self.fDepthDataInfo[0][ptIndex].indexToDepthData
    numDepths = self.fDepthDataInfo[0][ptIndex].numDepths
    totalDepth = self.fDepthDataInfo[0][ptIndex].totalDepth
    if self.fVar.gridType == TWO_D:
        depthIndex1[0] = indexToDepthData
        depthIndex2[0] = -1
    elif self.fVar.gridType == BAROTROPIC:
        if depthAtPoint <= totalDepth:
            depthIndex1[0] = indexToDepthData
            depthIndex2[0] = -1
        else:
            depthIndex1[0] = -1
            depthIndex2[0] = -1
    elif self.fVar.gridType == MULTILAYER or self.fVar.gridType == SIGMA:
        if depthAtPoint <= totalDepth:
            j = '?j'
            for j in range(0, numDepths - 1):
                if self.fDepthsH[0][indexToDepthData + j] < depthAtPoint and depthAtPoint <= self.fDepthsH[0][indexToDepthData + j + 1]:
                    depthIndex1[0] = indexToDepthData + j
                    depthIndex2[0] = indexToDepthData + j + 1
                elif self.fDepthsH[0][indexToDepthData + j] == depthAtPoint:
                    depthIndex1[0] = indexToDepthData + j
                    depthIndex2[0] = -1
            if self.fDepthsH[0][indexToDepthData] == depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData + numDepths - 1] < depthAtPoint:
                depthIndex1[0] = indexToDepthData + numDepths - 1
                depthIndex2[0] = -1
            elif self.fDepthsH[0][indexToDepthData] > depthAtPoint:
                depthIndex1[0] = indexToDepthData
                depthIndex2[0] = -1
        else:
            depthIndex1[0] = -1
            depthIndex2[0] = -1
    else:
        depthIndex1[0] = -1
        depthIndex2[0] = -1

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    depth = refPoint.z
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    startTime = '?startTime'
    endTime = '?endTime'
    interpolationVal = InterpolationVal()
    scaledPatVelocity = VelocityRec()
    memset(interpolationVal, 0, sizeof('InterpolationVal'))
    interpolationVal = self.fGrid.GetInterpolationValues(copy.copy(refPoint.p))
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = self.fDepthDataInfo[0][interpolationVal.ptIndex1].indexToDepthData
        ptIndex2 = self.fDepthDataInfo[0][interpolationVal.ptIndex2].indexToDepthData
        ptIndex3 = self.fDepthDataInfo[0][interpolationVal.ptIndex3].indexToDepthData
    if depth > 0 and interpolationVal.ptIndex1 >= 0:
        scaledPatVelocity = self.GetScaledPatValue3D(model_time, copy.copy(interpolationVal), depth)
        scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
        scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
        return copy.copy(scaledPatVelocity)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if interpolationVal.ptIndex1 >= 0:
            scaledPatVelocity.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].u + interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].u + interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].u
            scaledPatVelocity.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].v + interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].v + interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime
        else:
            startTime = self.fTimeDataHdl[0][self.fStartData.timeIndex].time
        endTime = self.fTimeDataHdl[0][self.fEndData.timeIndex].time
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if interpolationVal.ptIndex1 >= 0:
            scaledPatVelocity.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].u) + interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].u) + interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].u)
            scaledPatVelocity.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].v) + interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].v) + interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].v)
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetScaledPatValue3D
def GetScaledPatValue3D(self, model_time, interpolationVal, depth):
    pt1depthIndex1 = '?pt1depthIndex1'
    pt1depthIndex2 = '?pt1depthIndex2'
    pt2depthIndex1 = '?pt2depthIndex1'
    pt2depthIndex2 = '?pt2depthIndex2'
    pt3depthIndex1 = '?pt3depthIndex1'
    pt3depthIndex2 = '?pt3depthIndex2'
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    depthAlpha = '?depthAlpha'
    timeAlpha = '?timeAlpha'
    pt1interp = VelocityRec(0, 0)
    pt2interp = VelocityRec(0, 0)
    pt3interp = VelocityRec(0, 0)
    scaledPatVelocity = VelocityRec(0, 0)
    startTime = '?startTime'
    endTime = '?endTime'
    _, pt1depthIndex1, pt1depthIndex2 = self.GetDepthIndices(interpolationVal.ptIndex1, depth, pt1depthIndex1, pt1depthIndex2)
    _, pt2depthIndex1, pt2depthIndex2 = self.GetDepthIndices(interpolationVal.ptIndex2, depth, pt2depthIndex1, pt2depthIndex2)
    _, pt3depthIndex1, pt3depthIndex2 = self.GetDepthIndices(interpolationVal.ptIndex3, depth, pt3depthIndex1, pt3depthIndex2)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex2].u)
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex2].v)
            else:
                pt1interp.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].u
                pt1interp.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][pt1depthIndex1].v
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex2].u)
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex2].v)
            else:
                pt2interp.u = interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].u
                pt2interp.v = interpolationVal.alpha2 * self.fStartData.dataHdl[0][pt2depthIndex1].v
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].u) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex2].u)
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].v) + (1 - depthAlpha) * (interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex2].v)
            else:
                pt3interp.u = interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].u
                pt3interp.v = interpolationVal.alpha3 * self.fStartData.dataHdl[0][pt3depthIndex1].v
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime
        else:
            startTime = self.fTimeDataHdl[0][self.fStartData.timeIndex].time
        endTime = self.fTimeDataHdl[0][self.fEndData.timeIndex].time
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if pt1depthIndex1 != -1:
            if pt1depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt1depthIndex1]
                bottomDepth = self.fDepthsH[0][pt1depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt1interp.u = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex2].u))
                pt1interp.v = depthAlpha * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex2].v))
            else:
                pt1interp.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].u)
                pt1interp.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][pt1depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt1depthIndex1].v)
        if pt2depthIndex1 != -1:
            if pt2depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt2depthIndex1]
                bottomDepth = self.fDepthsH[0][pt2depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt2interp.u = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex2].u))
                pt2interp.v = depthAlpha * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex2].v))
            else:
                pt2interp.u = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].u)
                pt2interp.v = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][pt2depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt2depthIndex1].v)
        if pt3depthIndex1 != -1:
            if pt3depthIndex2 != -1:
                topDepth = self.fDepthsH[0][pt3depthIndex1]
                bottomDepth = self.fDepthsH[0][pt3depthIndex2]
                depthAlpha = (bottomDepth - depth) / (bottomDepth - topDepth)
                pt3interp.u = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].u)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex2].u))
                pt3interp.v = depthAlpha * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].v)) + (1 - depthAlpha) * (interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex2].v))
            else:
                pt3interp.u = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].u)
                pt3interp.v = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][pt3depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][pt3depthIndex1].v)
    scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u
    scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    depthAlpha = '?depthAlpha'
    arrowDepth = 0
    topDepth = '?topDepth'
    bottomDepth = '?bottomDepth'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    wp = WorldPoint()
    numVertices = '?numVertices'
    i = '?i'
    numTri = '?numTri'
    ptsHdl = None
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    amtOfDepthData = 0
    if self.fDepthDataInfo:
        amtOfDepthData = _GetHandleSize(self.fDepthDataInfo) // sizeof('DepthDataInfo')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    ptsHdl = triGrid.GetPointsHdl()
    if ptsHdl:
        numVertices = _GetHandleSize(ptsHdl) // sizeof('LongPoint')
    else:
        numVertices = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, numVertices):
        pt = copy.copy(ptsHdl[0][i])
        index = i
        velocity = VelocityRec(0, 0)
        depthIndex1 = '?depthIndex1'
        depthIndex2 = '?depthIndex2'
        if amtOfDepthData > 0:
            _, depthIndex1, depthIndex2 = self.GetDepthIndices(index, arrowDepth, depthIndex1, depthIndex2)
        else:
            depthIndex1 = index
            depthIndex2 = -1
        if depthIndex1 == -1 and depthIndex2 == -1:
            continue
        if depthIndex2 != -1:
            topDepth = self.fDepthsH[0][depthIndex1]
            bottomDepth = self.fDepthsH[0][depthIndex2]
            depthAlpha = (bottomDepth - arrowDepth) / (bottomDepth - topDepth)
        wp.pLat = pt.v
        wp.pLong = pt.h
        if self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1:
            if depthIndex2 == -1:
                velocity.u = self.fStartData.dataHdl[0][depthIndex1].u
                velocity.v = self.fStartData.dataHdl[0][depthIndex1].v
            else:
                velocity.u = depthAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2].u
                velocity.v = depthAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - depthAlpha) * self.fStartData.dataHdl[0][depthIndex2].v
        elif depthIndex2 == -1:
            velocity.u = timeAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].u
            velocity.v = timeAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].v
        else:
            velocity.u = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].u)
            velocity.u = velocity.u + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2].u)
            velocity.v = depthAlpha * (timeAlpha * self.fStartData.dataHdl[0][depthIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex1].v)
            velocity.v = velocity.v + (1 - depthAlpha) * (timeAlpha * self.fStartData.dataHdl[0][depthIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][depthIndex2].v)
        scaled_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
        scaled_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetPointsHdl
def GetPointsHdl(self):
    return self.fGrid.GetPointsHdl()

@ gnome.lib.TimeGridVel_c.TimeGridCurTri_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.fGrid.GetTopologyHdl()

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.__init__
def __init__(self):
    self.fStartDataIce = allbytes(0)
    self.fStartDataIce.timeIndex = -1
    self.fStartDataIce.dataHdl = None
    self.fEndDataIce = allbytes(0)
    self.fEndDataIce.timeIndex = -1
    self.fEndDataIce.dataHdl = None
    self.fStartDataThickness = allbytes(0)
    self.fStartDataThickness.timeIndex = -1
    self.fStartDataThickness.dataHdl = None
    self.fEndDataThickness = allbytes(0)
    self.fEndDataThickness.timeIndex = -1
    self.fEndDataThickness.dataHdl = None
    self.fStartDataFraction = allbytes(0)
    self.fStartDataFraction.timeIndex = -1
    self.fStartDataFraction.dataHdl = None
    self.fEndDataFraction = allbytes(0)
    self.fEndDataFraction.timeIndex = -1
    self.fEndDataFraction.dataHdl = None

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.ShiftInterval
def ShiftInterval(self):
    self.fStartData = copy.copy(self.fEndData)
    self.fStartDataIce = copy.copy(self.fEndDataIce)
    self.fStartDataThickness = copy.copy(self.fEndDataThickness)
    self.fStartDataFraction = copy.copy(self.fEndDataFraction)
    self.ClearLoadedEndData()

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.ClearLoadedEndData
def ClearLoadedEndData(self):
    if self.fEndData.dataHdl:
        self.ClearLoadedData(self.fEndData)
    if self.fEndDataIce.dataHdl:
        self.ClearLoadedData(self.fEndDataIce)
    if self.fEndDataThickness.dataHdl:
        self.ClearLoadedData(self.fEndDataThickness)
    if self.fEndDataFraction.dataHdl:
        self.ClearLoadedData(self.fEndDataFraction)

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.SetInterval
def SetInterval(self, errmsg, model_time):
    err = 0
    timeDataInterval = 0
    intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
    indexOfStart = timeDataInterval - 1
    indexOfEnd = timeDataInterval
    numTimesInFile = self.GetNumTimesInFile()
    errmsg[0] = 0
    if intervalLoaded:
        return 0
    if numTimesInFile == 1 and (not self.GetNumFiles() > 1):
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 and self.fAllowExtrapolationInTime:
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 or timeDataInterval == numTimesInFile:
        if self.GetNumFiles() > 1:
            err = self.CheckAndScanFile(errmsg, model_time)
            if err or self.fOverLap:
                if err:
                    if not errmsg[0]:
                        strcpy(errmsg, '"Error in TimeGridVelIce::SetInterval()"')
                    self.DisposeLoadedStartData()
                    self.DisposeLoadedEndData()
                return err
            intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
            indexOfStart = timeDataInterval - 1
            indexOfEnd = timeDataInterval
            numTimesInFile = self.GetNumTimesInFile()
            if self.fAllowExtrapolationInTime and (timeDataInterval == numTimesInFile or timeDataInterval == 0):
                if intervalLoaded:
                    return 0
                indexOfEnd = -1
                if timeDataInterval == 0:
                    indexOfStart = 0
        elif self.fTimeAlpha >= 0 and timeDataInterval == numTimesInFile:
            indexOfEnd = 0
        elif self.fAllowExtrapolationInTime and timeDataInterval == numTimesInFile:
            self.fStartData.timeIndex = numTimesInFile - 1
            self.fStartDataIce.timeIndex = numTimesInFile - 1
            self.fStartDataThickness.timeIndex = numTimesInFile - 1
            self.fStartDataFraction.timeIndex = numTimesInFile - 1
            self.fEndData.timeIndex = -1
            self.fEndDataIce.timeIndex = -1
            self.fEndDataThickness.timeIndex = -1
            self.fEndDataFraction.timeIndex = -1
        elif self.fAllowExtrapolationInTime and timeDataInterval == 0:
            self.fStartData.timeIndex = 0
            self.fStartDataIce.timeIndex = 0
            self.fStartDataFraction.timeIndex = 0
            self.fStartDataThickness.timeIndex = 0
            self.fEndData.timeIndex = -1
            self.fEndDataIce.timeIndex = -1
            self.fEndDataFraction.timeIndex = -1
            self.fEndDataThickness.timeIndex = -1
        else:
            err = -1
            strcpy(errmsg, '"Time outside of interval being modeled"')
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVelIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
    self.DisposeLoadedStartData()
    if indexOfStart == self.fEndData.timeIndex:
        self.ShiftInterval()
    else:
        self.DisposeLoadedEndData()
    if not self.fStartData.dataHdl and indexOfStart >= 0:
        err = self.ReadTimeData(indexOfStart, addr(self.fStartData.dataHdl), errmsg)
        err = self.ReadTimeDataIce(indexOfStart, addr(self.fStartDataIce.dataHdl), errmsg)
        err = self.ReadTimeDataFields(indexOfStart, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVelIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
        self.fStartData.timeIndex = indexOfStart
        self.fStartDataIce.timeIndex = indexOfStart
        self.fStartDataThickness.timeIndex = indexOfStart
        self.fStartDataFraction.timeIndex = indexOfStart
    if indexOfEnd < numTimesInFile and indexOfEnd != -1:
        err = self.ReadTimeData(indexOfEnd, addr(self.fEndData.dataHdl), errmsg)
        err = self.ReadTimeDataIce(indexOfEnd, addr(self.fEndDataIce.dataHdl), errmsg)
        err = self.ReadTimeDataFields(indexOfEnd, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridVelIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
        self.fEndData.timeIndex = indexOfEnd
        self.fEndDataIce.timeIndex = indexOfEnd
        self.fEndDataThickness.timeIndex = indexOfEnd
        self.fEndDataFraction.timeIndex = indexOfEnd
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"Error in TimeGridVelIce::SetInterval()"')
        self.DisposeLoadedStartData()
        self.DisposeLoadedEndData()
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.CheckAndScanFile
def CheckAndScanFile(self, errmsg, model_time):
    err = 0
    time = model_time
    startTime = '?startTime'
    endTime = '?endTime'
    lastEndTime = '?lastEndTime'
    testTime = '?testTime'
    firstStartTime = '?firstStartTime'
    i = '?i'
    numFiles = self.GetNumFiles()
    errmsg[0] = 0
    if self.fEndData.timeIndex != -1:
        testTime = self.fTimeHdl[0][self.fEndData.timeIndex]
    firstStartTime = self.fInputFilesHdl[0][0].startTime + self.fTimeShift
    for i in range(0, numFiles):
        startTime = self.fInputFilesHdl[0][i].startTime + self.fTimeShift
        endTime = self.fInputFilesHdl[0][i].endTime + self.fTimeShift
        if (startTime <= time and time <= endTime) and (not startTime == endTime):
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            self.fOverLap = False
            return err
        if startTime == endTime and startTime == time:
            fileNum = '?fileNum'
            if i < numFiles - 1:
                fileNum = i + 1
            else:
                fileNum = i
            self.fOverLapStartTime = self.fInputFilesHdl[0][fileNum - 1].endTime
            self.DisposeLoadedStartData()
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum - 1].pathName, addr(self.fTimeHdl))
            self.DisposeLoadedEndData()
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum - 1].pathName)
            err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(self.GetNumTimesInFile() - 1, addr(self.fStartDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(self.GetNumTimesInFile() - 1, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fStartData.timeIndex = -1
            self.fStartDataIce.timeIndex = -1
            self.fStartDataFraction.timeIndex = -1
            self.fStartDataThickness.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(0, addr(self.fEndDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(0, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fEndDataIce.timeIndex = 0
            self.fEndDataFraction.timeIndex = 0
            self.fEndDataThickness.timeIndex = 0
            self.fOverLap = True
            return 0
        if i > 0 and (lastEndTime < time and time < startTime):
            self.fOverLapStartTime = self.fInputFilesHdl[0][i - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            if self.fOverLapStartTime == testTime:
                self.ShiftInterval()
            else:
                self.DisposeTimeHdl()
                err = ScanFileForTimes(self.fInputFilesHdl[0][i - 1].pathName, addr(self.fTimeHdl))
                self.DisposeLoadedEndData()
                strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i - 1].pathName)
                err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
                err = self.ReadTimeDataIce(self.GetNumTimesInFile() - 1, addr(self.fStartDataIce.dataHdl), errmsg)
                err = self.ReadTimeDataFields(self.GetNumTimesInFile() - 1, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
                if err:
                    return err
            self.fStartData.timeIndex = -1
            self.fStartDataIce.timeIndex = -1
            self.fStartDataThickness.timeIndex = -1
            self.fStartDataFraction.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(0, addr(self.fEndDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(0, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fEndDataIce.timeIndex = 0
            self.fEndDataThickness.timeIndex = 0
            self.fEndDataFraction.timeIndex = 0
            self.fOverLap = True
            return 0
        lastEndTime = endTime
    if self.fAllowExtrapolationInTime and time > lastEndTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][numFiles - 1].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][numFiles - 1].pathName)
        self.fOverLap = False
        return err
    if self.fAllowExtrapolationInTime and time < firstStartTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][0].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][0].pathName)
        self.fOverLap = False
        return err
    strcpy(errmsg, '"Time outside of interval being modeled"')
    return -1

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetStartFieldValue
def GetStartFieldValue(self, index, field):
    value = 0
    if index >= 0:
        if field == 1:
            if self.fStartDataThickness.dataHdl:
                value = self.fStartDataThickness.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
        if field == 2:
            if self.fStartDataFraction.dataHdl:
                value = self.fStartDataFraction.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
    return value

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetEndFieldValue
def GetEndFieldValue(self, index, field):
    value = 0
    if index >= 0:
        if field == 1:
            if self.fEndDataThickness.dataHdl:
                value = self.fEndDataThickness.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
        if field == 2:
            if self.fEndDataFraction.dataHdl:
                value = self.fEndDataFraction.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
    return value

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetStartIceUVelocity
def GetStartIceUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fStartDataIce.dataHdl:
            u = self.fStartDataIce.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetEndIceUVelocity
def GetEndIceUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fEndDataIce.dataHdl:
            u = self.fEndDataIce.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetStartIceVVelocity
def GetStartIceVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fStartDataIce.dataHdl:
            v = self.fStartDataIce.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetEndIceVVelocity
def GetEndIceVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fEndDataIce.dataHdl:
            v = self.fEndDataIce.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    frac_coverage = 0
    max_coverage = 0.8
    min_coverage = 0.2
    fracAlpha = '?fracAlpha'
    scaledPatVelocity = VelocityRec(0, 0)
    iceVelocity = VelocityRec(0, 0)
    currentVelocity = VelocityRec(0, 0)
    frac_coverage = self.GetDataField(model_time, copy.copy(refPoint), 2)
    iceVelocity = self.GetScaledPatValueIce(model_time, copy.copy(refPoint))
    currentVelocity = self.GetScaledPatValue(model_time, copy.copy(refPoint))
    if frac_coverage >= max_coverage:
        return copy.copy(iceVelocity)
    elif frac_coverage <= min_coverage:
        return copy.copy(currentVelocity)
    else:
        fracAlpha = (0.8 - frac_coverage) / (max_coverage - min_coverage)
        scaledPatVelocity.u = fracAlpha * currentVelocity.u + (1 - fracAlpha) * iceVelocity.u
        scaledPatVelocity.v = fracAlpha * currentVelocity.v + (1 - fracAlpha) * iceVelocity.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetScaledPatValueIce
def GetScaledPatValueIce(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    depth = refPoint.z
    index = -1
    totalDepth = '?totalDepth'
    startTime = '?startTime'
    endTime = '?endTime'
    scaledPatVelocity = VelocityRec(0, 0)
    interpolationVal = InterpolationValBilinear()
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            interpolationVal = self.fGrid.GetBilinearInterpolationValues(copy.copy(refPoint.p))
            if interpolationVal.ptIndex1 < 0:
                return copy.copy(scaledPatVelocity)
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return copy.copy(scaledPatVelocity)
    if self.bVelocitiesOnNodes > 0 and interpolationVal.ptIndex1 >= 0:
        totalDepth = self.GetInterpolatedTotalDepth(copy.copy(refPoint.p))
        scaledPatVelocity = self.GetInterpolatedValue(model_time, copy.copy(interpolationVal), depth, totalDepth)
        scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
        scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
        return copy.copy(scaledPatVelocity)
    totalDepth = self.GetTotalDepth(copy.copy(refPoint.p), index)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            scaledPatVelocity.u = self.fStartDataIce.dataHdl[0][index].u
            scaledPatVelocity.v = self.fStartDataIce.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            scaledPatVelocity.u = timeAlpha * self.fStartDataIce.dataHdl[0][index].u + (1 - timeAlpha) * self.fEndDataIce.dataHdl[0][index].u
            scaledPatVelocity.v = timeAlpha * self.fStartDataIce.dataHdl[0][index].v + (1 - timeAlpha) * self.fEndDataIce.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetDataField
def GetDataField(self, model_time, refPoint, field):
    timeAlpha = '?timeAlpha'
    index = -1
    startTime = '?startTime'
    endTime = '?endTime'
    iceDataValue = 0
    interpolationVal = InterpolationVal()
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            interpolationVal = self.fGrid.GetInterpolationValues(copy.copy(refPoint.p))
            if interpolationVal.ptIndex1 < 0:
                return iceDataValue
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return iceDataValue
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            if field == 1:
                iceDataValue = self.fStartDataThickness.dataHdl[0][index]
            if field == 2:
                iceDataValue = self.fStartDataFraction.dataHdl[0][index]
        else:
            iceDataValue = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            if field == 1:
                iceDataValue = timeAlpha * self.fStartDataThickness.dataHdl[0][index] + (1 - timeAlpha) * self.fEndDataThickness.dataHdl[0][index]
            if field == 2:
                iceDataValue = timeAlpha * self.fStartDataFraction.dataHdl[0][index] + (1 - timeAlpha) * self.fEndDataFraction.dataHdl[0][index]
        else:
            iceDataValue = 0
    return iceDataValue

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetInterpolatedValue
def GetInterpolatedValue(self, model_time, interpolationVal, depth, totalDepth):
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    ptIndex4 = '?ptIndex4'
    timeAlpha = '?timeAlpha'
    pt1interp = VelocityRec(0, 0)
    pt2interp = VelocityRec(0, 0)
    pt3interp = VelocityRec(0, 0)
    pt4interp = VelocityRec(0, 0)
    scaledPatVelocity = VelocityRec(0, 0)
    startTime = '?startTime'
    endTime = '?endTime'
    relTime = '?relTime'
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        ptIndex4 = interpolationVal.ptIndex4
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
            ptIndex4 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex4]
    else:
        return copy.copy(scaledPatVelocity)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        pt1interp.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].u
        pt1interp.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].v
        pt2interp.u = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].u
        pt2interp.v = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].v
        pt3interp.u = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].u
        pt3interp.v = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].v
        pt4interp.u = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4].u
        pt4interp.v = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4].v
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if self.fTimeAlpha == -1:
            relTime = model_time - self.fModelStartTime
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex]
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex]
            timeAlpha = (endTime - relTime) / (endTime - startTime)
        else:
            timeAlpha = self.fTimeAlpha
        pt1interp.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].u)
        pt1interp.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].v)
        pt2interp.u = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].u)
        pt2interp.v = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].v)
        pt3interp.u = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].u)
        pt3interp.v = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].v)
        pt4interp.u = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4].u)
        pt4interp.v = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4].v)
    scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u + pt4interp.u
    scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v + pt4interp.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetIceFields
def GetIceFields(self, time, thickness, fraction):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    i = '?i'
    numTri = '?numTri'
    numCells = '?numCells'
    index = -1
    triIndex = '?triIndex'
    interpolationVal = InterpolationVal()
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    errmsg = carray('char[256]')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    numCells = numTri // 2
    for i in range(0, numCells):
        triIndex = i * 2
        if self.bVelocitiesOnNodes:
            interpolationVal = triGrid.GetInterpolationValuesFromIndex(triIndex)
            if interpolationVal.ptIndex1 < 0:
                thickness[i] = 0
                fraction[i] = 0
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = triGrid.GetRectIndexFromTriIndex2(triIndex, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            thickness[i] = 0
            fraction[i] = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            thickness[i] = self.GetStartFieldValue(index, 1)
            fraction[i] = self.GetStartFieldValue(index, 2)
        elif index != -1:
            thickness[i] = timeAlpha * self.GetStartFieldValue(index, 1) + (1 - timeAlpha) * self.GetEndFieldValue(index, 1)
            fraction[i] = timeAlpha * self.GetStartFieldValue(index, 2) + (1 - timeAlpha) * self.GetEndFieldValue(index, 2)
        if thickness[i] == self.fFillValue:
            thickness[i] = 0
        if fraction[i] == self.fFillValue:
            fraction[i] = 0
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetIceVelocities
def GetIceVelocities(self, time, ice_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    i = '?i'
    numTri = '?numTri'
    index = -1
    interpolationVal = InterpolationVal()
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, numTri):
        if self.bVelocitiesOnNodes:
            interpolationVal = triGrid.GetInterpolationValuesFromIndex(i)
            if interpolationVal.ptIndex1 < 0:
                ice_velocity[i].u = 0
                ice_velocity[i].v = 0
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            ice_velocity[i].u = 0
            ice_velocity[i].v = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            velocity.u = self.GetStartIceUVelocity(index)
            velocity.v = self.GetStartIceVVelocity(index)
        elif index != -1:
            velocity.u = timeAlpha * self.GetStartIceUVelocity(index) + (1 - timeAlpha) * self.GetEndIceUVelocity(index)
            velocity.v = timeAlpha * self.GetStartIceVVelocity(index) + (1 - timeAlpha) * self.GetEndIceVVelocity(index)
        if velocity.u == self.fFillValue:
            velocity.u = 0
        if velocity.v == self.fFillValue:
            velocity.v = 0
        ice_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
        ice_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridVel_c.TimeGridVelIce_c.GetMovementVelocities
def GetMovementVelocities(self, time, movement_velocity):
    err = 0
    timeAlpha = '?timeAlpha'
    frac_coverage = 0
    max_coverage = 0.8
    min_coverage = 0.2
    fracAlpha = '?fracAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    i = '?i'
    numTri = '?numTri'
    index = -1
    interpolationVal = InterpolationVal()
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityRec(0, 0)
    iceVelocity = VelocityRec(0, 0)
    currentVelocity = VelocityRec(0, 0)
    iceVelocityStart = VelocityRec(0, 0)
    currentVelocityStart = VelocityRec(0, 0)
    iceVelocityEnd = VelocityRec(0, 0)
    currentVelocityEnd = VelocityRec(0, 0)
    errmsg = carray('char[256]')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, numTri):
        if self.bVelocitiesOnNodes:
            interpolationVal = triGrid.GetInterpolationValuesFromIndex(i)
            if interpolationVal.ptIndex1 < 0:
                movement_velocity[i].u = 0
                movement_velocity[i].v = 0
                return err
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            movement_velocity[i].u = 0
            movement_velocity[i].v = 0
            return err
        frac_coverage = self.GetStartFieldValue(index, 2)
        fracAlpha = (0.8 - frac_coverage) / (max_coverage - min_coverage)
        iceVelocityStart.u = self.GetStartIceUVelocity(index)
        iceVelocityStart.v = self.GetStartIceVVelocity(index)
        currentVelocityStart.u = self.GetStartUVelocity(index)
        currentVelocityStart.v = self.GetStartVVelocity(index)
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            if frac_coverage >= max_coverage:
                velocity.u = iceVelocityStart.u
                velocity.v = iceVelocityStart.v
            elif frac_coverage <= min_coverage:
                velocity.u = currentVelocityStart.u
                velocity.v = currentVelocityStart.v
            else:
                velocity.u = fracAlpha * currentVelocityStart.u + (1 - fracAlpha) * iceVelocityStart.u
                velocity.v = fracAlpha * currentVelocityStart.v + (1 - fracAlpha) * iceVelocityStart.v
        elif index != -1:
            iceVelocityEnd.u = self.GetEndIceUVelocity(index)
            iceVelocityEnd.v = self.GetEndIceVVelocity(index)
            currentVelocityEnd.u = self.GetEndUVelocity(index)
            currentVelocityEnd.v = self.GetEndVVelocity(index)
            if frac_coverage >= max_coverage:
                velocity.u = timeAlpha * iceVelocityStart.u + (1 - timeAlpha) * iceVelocityEnd.u
                velocity.v = timeAlpha * iceVelocityStart.v + (1 - timeAlpha) * iceVelocityEnd.v
            elif frac_coverage <= min_coverage:
                velocity.u = timeAlpha * currentVelocityStart.u + (1 - timeAlpha) * currentVelocityEnd.u
                velocity.v = timeAlpha * currentVelocityStart.v + (1 - timeAlpha) * currentVelocityEnd.v
            else:
                currentVelocity.u = timeAlpha * currentVelocityStart.u + (1 - timeAlpha) * currentVelocityEnd.u
                currentVelocity.v = timeAlpha * currentVelocityStart.v + (1 - timeAlpha) * currentVelocityEnd.v
                iceVelocity.u = timeAlpha * iceVelocityStart.u + (1 - timeAlpha) * iceVelocityEnd.u
                iceVelocity.v = timeAlpha * iceVelocityStart.v + (1 - timeAlpha) * iceVelocityEnd.v
                velocity.u = fracAlpha * currentVelocity.u + (1 - fracAlpha) * iceVelocity.u
                velocity.v = fracAlpha * currentVelocity.v + (1 - fracAlpha) * iceVelocity.v
        movement_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
        movement_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ func gnome.lib.TimeGridVel_c.CorrectTwoDigitYear__2
def CorrectTwoDigitYear__2(dateTime):
    if dateTime.year < 1900:
        if dateTime.year >= 40 and dateTime.year <= 99:
            dateTime.year = dateTime.year + 1900
        else:
            dateTime.year = dateTime.year + 2000

@ func gnome.lib.TimeGridVel_c.DateIsValid__2
def DateIsValid__2(dateTime):
    return ((dateTime.day >= 1 and dateTime.day <= 31) and dateTime.month >= 1) and dateTime.month <= 12

@ func gnome.lib.TimeGridVel_c.DateValuesAreMinusOne
def DateValuesAreMinusOne(dateTime):
    return (((dateTime.day == -1 and dateTime.month == -1) and dateTime.year == -1) and dateTime.hour == -1) and dateTime.minute == -1

@ func gnome.lib.TimeGridVel_c.IsNetCDFFile
def IsNetCDFFile(path, gridType):
    err = 0
    bIsValid = False
    strLine = carray('char[512]')
    firstPartOfFile = carray('char[512]')
    line = '?line'
    lenToRead = '?lenToRead'
    fileLength = '?fileLength'
    status = '?status'
    ncid = '?ncid'
    t_len = '?t_len'
    t_len2 = '?t_len2'
    modelTypeStr = None
    gridTypeStr = None
    sourceStr = None
    err, fileLength = MyGetFileSize(0, 0, path, fileLength)
    if err:
        return False
    lenToRead = 512 if 512 < fileLength else fileLength
    err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, None)
    firstPartOfFile[lenToRead - 1] = 0
    if not err:
        line = 0
        NthLineInTextNonOptimized(firstPartOfFile, line, strLine, 512)
        if not strncmp(firstPartOfFile, '"CDF"', 3):
            bIsValid = True
    if not bIsValid:
        return False
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        if status != 0:
            gridType[0] = REGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
    status, t_len2 = nc_inq_attlen(ncid, -1, '"grid_type"', t_len2)
    if status == 0:
        gridTypeStr = new('char *', t_len2 + 1)
        status = nc_get_att_text(ncid, -1, '"grid_type"', gridTypeStr)
        if status != 0:
            gridType[0] = REGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
        gridTypeStr[t_len2] = 0
        if (not strncmpnocase(gridTypeStr, '"REGULAR"', 7) or not strncmpnocase(gridTypeStr, '"UNIFORM"', 7)) or not strncmpnocase(gridTypeStr, '"RECTANGULAR"', 11):
            gridType[0] = REGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
        if (not strncmpnocase(gridTypeStr, '"CURVILINEAR"', 11) or not strncmpnocase(gridTypeStr, '"RECTILINEAR"', 11)) or strstrnocase(gridTypeStr, '"curv"'):
            gridType[0] = CURVILINEAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
        if not strncmpnocase(gridTypeStr, '"TRIANGULAR"', 10):
            gridType[0] = TRIANGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
    else:
        status, t_len2 = nc_inq_attlen(ncid, -1, '"source"', t_len2)
        if status == 0:
            sourceStr = new('char *', t_len2 + 1)
            status = nc_get_att_text(ncid, -1, '"source"', sourceStr)
            if status != 0:
                pass
            else:
                sourceStr[t_len2] = 0
                if not strncmpnocase(sourceStr, '"Surface Ocean HF-Radar"', 22):
                    gridType[0] = REGULAR
                    if modelTypeStr:
                        delete(modelTypeStr)
                    if gridTypeStr:
                        delete(gridTypeStr)
                    if sourceStr:
                        delete(sourceStr)
                    return bIsValid
    status, t_len = nc_inq_attlen(ncid, -1, '"generating_model"', t_len)
    if status != 0:
        status, t_len = nc_inq_attlen(ncid, -1, '"generator"', t_len)
        if status != 0:
            gridType[0] = REGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
    modelTypeStr = new('char *', t_len + 1)
    status = nc_get_att_text(ncid, -1, '"generating_model"', modelTypeStr)
    if status != 0:
        status = nc_get_att_text(ncid, -1, '"generator"', modelTypeStr)
        if status != 0:
            gridType[0] = REGULAR
            if modelTypeStr:
                delete(modelTypeStr)
            if gridTypeStr:
                delete(gridTypeStr)
            if sourceStr:
                delete(sourceStr)
            return bIsValid
    modelTypeStr[t_len] = 0
    if not strncmp(modelTypeStr, '"SWAFS"', 5):
        gridType[0] = REGULAR_SWAFS
    elif strstr(modelTypeStr, '"NCOM"'):
        gridType[0] = REGULAR
    else:
        gridType[0] = REGULAR
    nc_close(ncid)
    if modelTypeStr:
        delete(modelTypeStr)
    if gridTypeStr:
        delete(gridTypeStr)
    if sourceStr:
        delete(sourceStr)
    return bIsValid

@ func gnome.lib.TimeGridVel_c.IsNetCDFPathsFile
def IsNetCDFPathsFile(path, isNetCDFPathsFile, fileNamesPath, gridType):
    err = 0
    firstPartOfFile = carray('char[512]')
    classicPath = carray('char[256]')
    strLine = carray('char[512]')
    bIsValid = False
    line = 0
    lenToRead = '?lenToRead'
    fileLength = '?fileLength'
    key = std_basic_string_char_()
    memset(firstPartOfFile, 0, 512)
    memset(classicPath, 0, 256)
    memset(strLine, 0, 512)
    isNetCDFPathsFile[0] = False
    err, fileLength = MyGetFileSize(0, 0, path, fileLength)
    if err:
        return False
    lenToRead = 512 if 512 < fileLength else fileLength
    err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, None)
    firstPartOfFile[lenToRead - 1] = 0
    if err:
        return False
    _old13 = line
    line += 1
    NthLineInTextNonOptimized(firstPartOfFile, _old13, strLine, 512)
    RemoveLeadingAndTrailingWhiteSpace(strLine)
    key = '"NetCDF Files"'
    if strncmpnocase(strLine, key.c_str(), key.size()) != 0:
        return False
    _old14 = line
    line += 1
    NthLineInTextNonOptimized(firstPartOfFile, _old14, strLine, 512)
    RemoveLeadingAndTrailingWhiteSpace(strLine)
    key = '"[FILE]"'
    if strncmpnocase(strLine, key.c_str(), key.size()) != 0:
        return False
    strcpy(fileNamesPath, path)
    strcpy(path, strLine + key.size())
    RemoveLeadingAndTrailingWhiteSpace(path)
    ResolvePathFromInputFile(fileNamesPath, path)
    if not FileExists(0, 0, path):
        printf('"%s"', '"FileExists returned false for the first path listed in the IsNetCDFPathsFile."')
        return False
    bIsValid = IsNetCDFFile(path, gridType)
    if bIsValid:
        isNetCDFPathsFile[0] = True
    else:
        printf('"%s"', '"IsNetCDFFile returned false for the first path listed in the IsNetCDFPathsFile."')
        return False
    return bIsValid

@ func gnome.lib.TimeGridVel_c.ScanFileForTimes
def ScanFileForTimes(path, timeH):
    err = 0
    i = '?i'
    numScanned = '?numScanned'
    status = '?status'
    ncid = '?ncid'
    recid = '?recid'
    timeid = '?timeid'
    recs = '?recs'
    t_len = '?t_len'
    timeVal = '?timeVal'
    recname = carray('char[256]')
    timeUnits = None
    timeIndex = '?timeIndex'
    startTime2 = '?startTime2'
    timeConversion = 1
    timeHdl = None
    s = carray('char[1024]')
    errmsg = carray('char[256]')
    s[0] = 0
    errmsg[0] = 0
    status, ncid = nc_open(path, 0, ncid)
    if status != 0:
        if status != 0:
            err = -1
            if err:
                if err == -2:
                    printf('"%s"', '"Error reading times from NetCDF file"')
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
    status, recid = nc_inq_dimid(ncid, '"time"', recid)
    if status != 0:
        status, recid = nc_inq_unlimdim(ncid, recid)
        if status != 0:
            err = -1
            if err:
                if err == -2:
                    printf('"%s"', '"Error reading times from NetCDF file"')
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
    status, timeid = nc_inq_varid(ncid, '"time"', timeid)
    if status != 0:
        err = -1
        if err:
            if err == -2:
                printf('"%s"', '"Error reading times from NetCDF file"')
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    status, t_len = nc_inq_attlen(ncid, timeid, '"units"', t_len)
    if status != 0:
        err = -1
        if err:
            if err == -2:
                printf('"%s"', '"Error reading times from NetCDF file"')
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    else:
        time = DateTimeRec()
        unitStr = carray('char[24]')
        junk = carray('char[10]')
        timeUnits = new('char *', t_len + 1)
        status = nc_get_att_text(ncid, timeid, '"units"', timeUnits)
        if status != 0:
            err = -2
            if err:
                if err == -2:
                    printf('"%s"', '"Error reading times from NetCDF file"')
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
        timeUnits[t_len] = 0
        StringSubstitute(timeUnits, 58, 32)
        StringSubstitute(timeUnits, 45, 32)
        StringSubstitute(timeUnits, 84, 32)
        StringSubstitute(timeUnits, 90, 32)
        numScanned = sscanf(timeUnits, '"%s %s %hd %hd %hd %hd %hd %hd"', unitStr, junk, addr(time.year), addr(time.month), addr(time.day), addr(time.hour), addr(time.minute), addr(time.second))
        if numScanned == 5:
            time.hour = 0
            time.minute = 0
            time.second = 0
        elif numScanned == 7:
            time.second = 0
        elif numScanned < 8:
            err = -1
            printf('"%s"', '"TimeGridVel::ScanFileForTimes()"')
            if err:
                if err == -2:
                    printf('"%s"', '"Error reading times from NetCDF file"')
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
        _, startTime2 = DateToSeconds(time, startTime2)
        if not strcmpnocase(unitStr, '"HOURS"') or not strcmpnocase(unitStr, '"HOUR"'):
            timeConversion = 3600
        elif not strcmpnocase(unitStr, '"MINUTES"') or not strcmpnocase(unitStr, '"MINUTE"'):
            timeConversion = 60
        elif not strcmpnocase(unitStr, '"SECONDS"') or not strcmpnocase(unitStr, '"SECOND"'):
            timeConversion = 1
        elif not strcmpnocase(unitStr, '"DAYS"') or not strcmpnocase(unitStr, '"DAY"'):
            timeConversion = 24 * 3600
    status, recs = nc_inq_dim(ncid, recid, recname, recs)
    if status != 0:
        err = -2
        if err:
            if err == -2:
                printf('"%s"', '"Error reading times from NetCDF file"')
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    timeHdl = _NewHandleClear(recs * sizeof('Seconds'))
    if not timeHdl:
        err = memFullErr
        if err:
            if err == -2:
                printf('"%s"', '"Error reading times from NetCDF file"')
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    for i in range(0, recs):
        newTime = '?newTime'
        timeIndex = i
        status, timeIndex, timeVal = nc_get_var1_double(ncid, timeid, timeIndex, timeVal)
        if status != 0:
            strcpy(errmsg, '"Error reading times from NetCDF file"')
            err = -2
            if err:
                if err == -2:
                    printf('"%s"', '"Error reading times from NetCDF file"')
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
        newTime = RoundDateSeconds(int(round(startTime2 + timeVal * timeConversion)))
        timeHdl[0][i] = newTime
    timeH[0] = timeHdl
    status = nc_close(ncid)
    if status != 0:
        err = -2
        if err:
            if err == -2:
                printf('"%s"', '"Error reading times from NetCDF file"')
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    if err:
        if err == -2:
            printf('"%s"', '"Error reading times from NetCDF file"')
        if timeHdl:
            _DisposeHandleReally(timeHdl)
            timeHdl = None
    return err

@ func gnome.lib.TimeGridVel_c.ScanFileForTimes__3
def ScanFileForTimes__3(path, timeDataH, timeH):
    linesInFile = std_vector_std_basic_string_char_()
    ReadLinesInFile(path, linesInFile)
    return ScanFileForTimes__2(path, linesInFile, timeDataH, timeH)

@ func gnome.lib.TimeGridVel_c.ScanFileForTimes__2
def ScanFileForTimes__2(path, linesInFile, timeDataH, timeH):
    err = 0
    h = None
    sectionOfFile = None
    fileLength = '?fileLength'
    lengthRemainingToScan = '?lengthRemainingToScan'
    offset = '?offset'
    lengthToRead = '?lengthToRead'
    lengthOfPartToScan = '?lengthOfPartToScan'
    numTimeBlocks = 0
    i = '?i'
    numScanned = '?numScanned'
    time = DateTimeRec()
    timeSeconds = '?timeSeconds'
    timeDataHdl = _NewHandle(0)
    if not timeDataHdl:
        printf('"%s"', '"ScanFileForTimes()"')
        err = memFullErr
        if h:
            _HUnlock(h)
            _DisposeHandleReally(h)
            h = None
        if err:
            if timeDataHdl:
                _DisposeHandleReally(timeDataHdl)
                timeDataHdl = None
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    timeHdl = _NewHandle(0)
    if not timeHdl:
        printf('"%s"', '"ScanFileForTimes()"')
        err = memFullErr
        if h:
            _HUnlock(h)
            _DisposeHandleReally(h)
            h = None
        if err:
            if timeDataHdl:
                _DisposeHandleReally(timeDataHdl)
                timeDataHdl = None
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    err, fileLength = MyGetFileSize(0, 0, path, fileLength)
    if err:
        if h:
            _HUnlock(h)
            _DisposeHandleReally(h)
            h = None
        if err:
            if timeDataHdl:
                _DisposeHandleReally(timeDataHdl)
                timeDataHdl = None
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    offset = 0
    lengthRemainingToScan = fileLength - 5
    h = _NewHandle(2 * 100000 + 1)
    if not h:
        printf('"%s"', '"ScanFileForTimes()"')
        err = memFullErr
        if h:
            _HUnlock(h)
            _DisposeHandleReally(h)
            h = None
        if err:
            if timeDataHdl:
                _DisposeHandleReally(timeDataHdl)
                timeDataHdl = None
            if timeHdl:
                _DisposeHandleReally(timeHdl)
                timeHdl = None
        return err
    _HLock(h)
    sectionOfFile = h[0]
    while lengthRemainingToScan > 0:
        if lengthRemainingToScan > 2 * 100000:
            lengthToRead = 100000 + 256
            lengthOfPartToScan = 100000
        else:
            lengthToRead = fileLength - offset
            lengthOfPartToScan = lengthToRead - 5
        err = ReadSectionOfFile(0, 0, path, offset, lengthToRead, sectionOfFile, None)
        if err or not h:
            if h:
                _HUnlock(h)
                _DisposeHandleReally(h)
                h = None
            if err:
                if timeDataHdl:
                    _DisposeHandleReally(timeDataHdl)
                    timeDataHdl = None
                if timeHdl:
                    _DisposeHandleReally(timeHdl)
                    timeHdl = None
            return err
        sectionOfFile[lengthToRead] = 0
        lengthRemainingToScan = lengthRemainingToScan - lengthOfPartToScan
        for i in range(0, lengthOfPartToScan):
            if (((sectionOfFile[i] == 91 and sectionOfFile[i + 1] == 84) and sectionOfFile[i + 2] == 73) and sectionOfFile[i + 3] == 77) and sectionOfFile[i + 4] == 69:
                timeData = PtCurTimeData()
                memset(timeData, 0, sizeof('PtCurTimeData'))
                timeData.fileOffsetToStartOfData = i + offset
                if numTimeBlocks > 0:
                    timeDataHdl[0][numTimeBlocks - 1].lengthOfData = i + offset - timeDataHdl[0][numTimeBlocks - 1].fileOffsetToStartOfData
                numScanned = sscanf(sectionOfFile + i + 6, '"%hd %hd %hd %hd %hd"', addr(time.day), addr(time.month), addr(time.year), addr(time.hour), addr(time.minute))
                if numScanned != 5:
                    err = -1
                    printf('"%s"', '"GridCurMover::TextRead()"')
                    if h:
                        _HUnlock(h)
                        _DisposeHandleReally(h)
                        h = None
                    if err:
                        if timeDataHdl:
                            _DisposeHandleReally(timeDataHdl)
                            timeDataHdl = None
                        if timeHdl:
                            _DisposeHandleReally(timeHdl)
                            timeHdl = None
                    return err
                if (((time.day == -1 and time.month == -1) and time.year == -1) and time.hour == -1) and time.minute == -1:
                    timeSeconds = 0
                else:
                    if time.year < 1900:
                        if time.year >= 40 and time.year <= 99:
                            time.year = time.year + 1900
                        else:
                            time.year = time.year + 2000
                    time.second = 0
                    _, timeSeconds = DateToSeconds(time, timeSeconds)
                timeData.time = timeSeconds
                _SetHandleSize(timeDataHdl, (numTimeBlocks + 1) * sizeof('PtCurTimeData'))
                if _MemError():
                    printf('"%s"', '"ScanFileForTimes()"')
                    if h:
                        _HUnlock(h)
                        _DisposeHandleReally(h)
                        h = None
                    if err:
                        if timeDataHdl:
                            _DisposeHandleReally(timeDataHdl)
                            timeDataHdl = None
                        if timeHdl:
                            _DisposeHandleReally(timeHdl)
                            timeHdl = None
                    return err
                _SetHandleSize(timeHdl, (numTimeBlocks + 1) * sizeof('Seconds'))
                if _MemError():
                    printf('"%s"', '"ScanFileForTimes()"')
                    if h:
                        _HUnlock(h)
                        _DisposeHandleReally(h)
                        h = None
                    if err:
                        if timeDataHdl:
                            _DisposeHandleReally(timeDataHdl)
                            timeDataHdl = None
                        if timeHdl:
                            _DisposeHandleReally(timeHdl)
                            timeHdl = None
                    return err
                timeDataHdl[0][numTimeBlocks] = copy.copy(timeData)
                timeHdl[0][numTimeBlocks] = timeData.time
                _old20 = numTimeBlocks
                numTimeBlocks += 1
        offset = offset + lengthOfPartToScan
    if numTimeBlocks > 0:
        timeDataHdl[0][numTimeBlocks - 1].lengthOfData = fileLength - timeDataHdl[0][numTimeBlocks - 1].fileOffsetToStartOfData
    timeDataH[0] = timeDataHdl
    timeH[0] = timeHdl
    if h:
        _HUnlock(h)
        _DisposeHandleReally(h)
        h = None
    if err:
        if timeDataHdl:
            _DisposeHandleReally(timeDataHdl)
            timeDataHdl = None
        if timeHdl:
            _DisposeHandleReally(timeHdl)
            timeHdl = None
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.IsRegularGrid
def IsRegularGrid(self):
    return True

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.__init__
def __init__(self):
    self.fPtsH = None
    self.fGridCellInfoH = None
    self.fCenterPtsH = None

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.GetPointsHdl
def GetPointsHdl(self):
    i = '?i'
    j = '?j'
    numPoints = '?numPoints'
    fLat = '?fLat'
    fLong = '?fLong'
    dLong = '?dLong'
    dLat = '?dLat'
    gridBounds = copy.copy(self.fGridBounds)
    vertex = LongPoint()
    err = 0
    if self.fPtsH:
        return self.fPtsH
    numPoints = self.fNumRows * self.fNumCols
    dLong = (gridBounds.hiLong - gridBounds.loLong) // (self.fNumCols - 1)
    dLat = (gridBounds.hiLat - gridBounds.loLat) // (self.fNumRows - 1)
    self.fPtsH = _NewHandle(numPoints * sizeof('LongPoint'))
    if not self.fPtsH:
        err = -1
        printf('"%s"', '"TriGridWindRect_c::GetPointsHdl()"')
        return self.fPtsH
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            fLat = gridBounds.loLat + i * dLat
            fLong = gridBounds.loLong + j * dLong
            vertex.v = int(fLat)
            vertex.h = int(fLong)
            self.fPtsH[0][i * self.fNumCols + j] = copy.copy(vertex)
    return self.fPtsH

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    index = '?index'
    startTime = '?startTime'
    endTime = '?endTime'
    windVelocity = VelocityRec(0, 0)
    index = self.GetVelocityIndex(copy.copy(refPoint.p))
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            windVelocity.u = self.fStartData.dataHdl[0][index].u
            windVelocity.v = self.fStartData.dataHdl[0][index].v
        else:
            windVelocity.u = 0
            windVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            windVelocity.u = timeAlpha * self.fStartData.dataHdl[0][index].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].u
            windVelocity.v = timeAlpha * self.fStartData.dataHdl[0][index].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].v
        else:
            windVelocity.u = 0
            windVelocity.v = 0
    windVelocity.u = windVelocity.u * self.fVar.fileScaleFactor
    windVelocity.v = windVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(windVelocity)

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    longPt = LongPoint()
    wp = WorldPoint()
    numPoints = '?numPoints'
    i = '?i'
    j = '?j'
    index = -1
    ptsHdl = None
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    ptsHdl = self.GetPointsHdl()
    if ptsHdl:
        numPoints = _GetHandleSize(ptsHdl) // sizeof('LongPoint')
    else:
        numPoints = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            longPt = copy.copy(ptsHdl[0][i * self.fNumCols + j])
            wp.pLat = longPt.v
            wp.pLong = longPt.h
            index = i * self.fNumCols + j
            if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
                velocity.u = self.GetStartUVelocity(index)
                velocity.v = self.GetStartVVelocity(index)
            elif index != -1:
                velocity.u = timeAlpha * self.GetStartUVelocity(index) + (1 - timeAlpha) * self.GetEndUVelocity(index)
                velocity.v = timeAlpha * self.GetStartVVelocity(index) + (1 - timeAlpha) * self.GetEndVVelocity(index)
            if velocity.u == self.fFillValue:
                velocity.u = 0
            if velocity.v == self.fFillValue:
                velocity.v = 0
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].u = velocity.u * self.fVar.fileScaleFactor / 10
            scaled_velocity[(self.fNumRows - i - 1) * self.fNumCols + j].v = velocity.v * self.fVar.fileScaleFactor / 10
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.GetCellCenters
def GetCellCenters(self):
    err = 0
    ptsH = None
    wp = WorldPoint()
    i = '?i'
    numPts = 0
    numCells = '?numCells'
    if self.fCenterPtsH:
        return self.fCenterPtsH
    ptsH = self.GetPointsHdl()
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    self.fCenterPtsH = _NewHandle(numPts * sizeof('WorldPoint'))
    if not self.fCenterPtsH:
        err = -1
        printf('"%s"', '"TriGridWindRect_c::GetCellCenters()"')
        return self.fCenterPtsH
    for i in range(0, numPts):
        wp.pLong = ptsH[0][i].h / 1000000
        wp.pLat = ptsH[0][i].v / 1000000
        self.fCenterPtsH[0][i] = copy.copy(wp)
    return self.fCenterPtsH

@ gnome.lib.TimeGridWind_c.TimeGridWindRect_c.GetCellData
def GetCellData(self):
    err = 0
    i = '?i'
    j = '?j'
    numCells = '?numCells'
    if self.fGridCellInfoH:
        return self.fGridCellInfoH
    numCells = (self.fNumCols - 1) * (self.fNumRows - 1)
    fGridCellInfoH = _NewHandleClear(numCells * sizeof('GridCellInfo'))
    if not fGridCellInfoH:
        err = memFullErr
        if err:
            if fGridCellInfoH:
                _DisposeHandleReally(fGridCellInfoH)
                fGridCellInfoH = None
        return fGridCellInfoH
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].cellNum = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topLeft = i * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].topRight = i * self.fNumCols + j + 1
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomRight = (i + 1) * self.fNumCols + j
            fGridCellInfoH[0][i * (self.fNumCols - 1) + j].bottomLeft = (i + 1) * self.fNumCols + j + 1
    if err:
        if fGridCellInfoH:
            _DisposeHandleReally(fGridCellInfoH)
            fGridCellInfoH = None
    return fGridCellInfoH

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.__init__
def __init__(self):
    self.fVerdatToNetCDFH = None
    self.fVertexPtsH = None
    self.bVelocitiesOnNodes = False

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetPointsHdl
def GetPointsHdl(self):
    return self.fGrid.GetPointsHdl()

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetTopologyHdl
def GetTopologyHdl(self):
    return self.fGrid.GetTopologyHdl()

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetVelocityIndex
def GetVelocityIndex(self, wp):
    index = -1
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols)
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols + 1)
    return index

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetVelocityIndices
def GetVelocityIndices(self, wp):
    indices = LongPoint(-1, -1)
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            indices = self.fGrid.GetRectIndicesFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols)
        else:
            indices = self.fGrid.GetRectIndicesFromTriIndex(copy.copy(wp), self.fVerdatToNetCDFH, self.fNumCols + 1)
    return copy.copy(indices)

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetInterpolatedMove
def GetInterpolatedMove(self, model_time, interpolationVal):
    ptIndex1 = '?ptIndex1'
    ptIndex2 = '?ptIndex2'
    ptIndex3 = '?ptIndex3'
    ptIndex4 = '?ptIndex4'
    timeAlpha = '?timeAlpha'
    pt1interp = VelocityRec(0, 0)
    pt2interp = VelocityRec(0, 0)
    pt3interp = VelocityRec(0, 0)
    pt4interp = VelocityRec(0, 0)
    scaledPatVelocity = VelocityRec(0, 0)
    startTime = '?startTime'
    endTime = '?endTime'
    if interpolationVal.ptIndex1 >= 0:
        ptIndex1 = interpolationVal.ptIndex1
        ptIndex2 = interpolationVal.ptIndex2
        ptIndex3 = interpolationVal.ptIndex3
        ptIndex4 = interpolationVal.ptIndex4
        if self.fVerdatToNetCDFH:
            ptIndex1 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
            ptIndex2 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex2]
            ptIndex3 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex3]
            ptIndex4 = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex4]
    else:
        return copy.copy(scaledPatVelocity)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if ptIndex1 != -1:
            pt1interp.u = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].u
            pt1interp.v = interpolationVal.alpha1 * self.fStartData.dataHdl[0][ptIndex1].v
        if ptIndex2 != -1:
            pt2interp.u = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].u
            pt2interp.v = interpolationVal.alpha2 * self.fStartData.dataHdl[0][ptIndex2].v
        if ptIndex3 != -1:
            pt3interp.u = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].u
            pt3interp.v = interpolationVal.alpha3 * self.fStartData.dataHdl[0][ptIndex3].v
        if ptIndex4 != -1:
            pt4interp.u = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4].u
            pt4interp.v = interpolationVal.alpha4 * self.fStartData.dataHdl[0][ptIndex4].v
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if ptIndex1 != -1:
            pt1interp.u = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].u)
            pt1interp.v = interpolationVal.alpha1 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex1].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex1].v)
        if ptIndex2 != -1:
            pt2interp.u = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].u)
            pt2interp.v = interpolationVal.alpha2 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex2].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex2].v)
        if ptIndex3 != -1:
            pt3interp.u = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].u)
            pt3interp.v = interpolationVal.alpha3 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex3].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex3].v)
        if ptIndex4 != -1:
            pt4interp.u = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4].u)
            pt4interp.v = interpolationVal.alpha4 * (timeAlpha * self.fStartData.dataHdl[0][ptIndex4].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][ptIndex4].v)
    scaledPatVelocity.u = pt1interp.u + pt2interp.u + pt3interp.u + pt4interp.u
    scaledPatVelocity.v = pt1interp.v + pt2interp.v + pt3interp.v + pt4interp.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.get_values
def get_values(self, n, model_time, ref, vels):
    if not ref or not vels:
        return 1
    rec = WorldPoint3D()
    for i in range(0, n):
        rec.p = copy.copy(ref[i].p)
        rec.z = ref[i].z
        rec.p.pLat = rec.p.pLat * 1000000
        rec.p.pLong = rec.p.pLong * 1000000
        vels[i] = self.GetScaledPatValue(model_time, copy.copy(rec))
    return 0

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    index = -1
    startTime = '?startTime'
    endTime = '?endTime'
    windVelocity = VelocityRec()
    interpolationVal = InterpolationValBilinear()
    if self.fGrid:
        if self.bVelocitiesOnNodes:
            interpolationVal = self.fGrid.GetBilinearInterpolationValues(copy.copy(refPoint.p))
            if interpolationVal.ptIndex1 < 0:
                return copy.copy(windVelocity)
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return copy.copy(windVelocity)
    if self.bVelocitiesOnNodes > 0 and interpolationVal.ptIndex1 >= 0:
        windVelocity = self.GetInterpolatedMove(model_time, copy.copy(interpolationVal))
        windVelocity.u = windVelocity.u * self.fVar.fileScaleFactor
        windVelocity.v = windVelocity.v * self.fVar.fileScaleFactor
        return copy.copy(windVelocity)
    if (self.GetNumTimesInFile() == 1 or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            windVelocity.u = self.fStartData.dataHdl[0][index].u
            windVelocity.v = self.fStartData.dataHdl[0][index].v
        else:
            windVelocity.u = 0
            windVelocity.v = 0
    else:
        startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            windVelocity.u = timeAlpha * self.fStartData.dataHdl[0][index].u + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].u
            windVelocity.v = timeAlpha * self.fStartData.dataHdl[0][index].v + (1 - timeAlpha) * self.fEndData.dataHdl[0][index].v
        else:
            windVelocity.u = 0
            windVelocity.v = 0
    windVelocity.u = windVelocity.u * self.fVar.fileScaleFactor
    windVelocity.v = windVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(windVelocity)

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.ReorderPoints
def ReorderPoints(self, errmsg):
    i = '?i'
    j = '?j'
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_ext = self.fNumRows + 1
    fNumCols_ext = self.fNumCols + 1
    nv = self.fNumRows * self.fNumCols
    nv_ext = fNumRows_ext * fNumCols_ext
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    indexOfStart = 0
    err = 0
    landWaterInfo = _NewHandleClear(self.fNumRows * self.fNumCols * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv_ext * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv_ext * sizeof('long'))
    gridCellInfo = _NewHandleClear(nv * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    velocityH = None
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    err, velocityH = self.ReadTimeData(indexOfStart, velocityH, errmsg)
    if err:
        return err
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if velocityH[0][i * self.fNumCols + j].u == self.fFillValue and velocityH[0][i * self.fNumCols + j].v == self.fFillValue:
                landWaterInfo[0][i * self.fNumCols + j] = -1
            else:
                landWaterInfo[0][i * self.fNumCols + j] = 1
                ptIndexHdl[0][i * fNumCols_ext + j] = -2
                ptIndexHdl[0][i * fNumCols_ext + j + 1] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j] = -2
                ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1] = -2
    for i in range(0, fNumRows_ext):
        for j in range(0, fNumCols_ext):
            if ptIndexHdl[0][i * fNumCols_ext + j] == -2:
                ptIndexHdl[0][i * fNumCols_ext + j] = ptIndex
                _old34 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * fNumCols_ext + j] = -1
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] > 0:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = cellNum
                _old37 = cellNum
                cellNum += 1
                gridCellInfo[0][i * self.fNumCols + j].topLeft = ptIndexHdl[0][i * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].topRight = ptIndexHdl[0][i * fNumCols_ext + j + 1]
                gridCellInfo[0][i * self.fNumCols + j].bottomLeft = ptIndexHdl[0][(i + 1) * fNumCols_ext + j]
                gridCellInfo[0][i * self.fNumCols + j].bottomRight = ptIndexHdl[0][(i + 1) * fNumCols_ext + j + 1]
            else:
                gridCellInfo[0][i * self.fNumCols + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    for i in range(0, nv_ext):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old40 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        fDepth = '?fDepth'
        dLon = '?dLon'
        dLat = '?dLat'
        dLon1 = '?dLon1'
        dLon2 = '?dLon2'
        dLat1 = '?dLat1'
        dLat2 = '?dLat2'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // fNumCols_ext
            jIndex = n % fNumCols_ext
            if iIndex == 0:
                if jIndex < self.fNumCols:
                    dLat = self.fVertexPtsH[0][self.fNumCols + jIndex].pLat - self.fVertexPtsH[0][jIndex].pLat
                    fLat = self.fVertexPtsH[0][jIndex].pLat - dLat
                    dLon = self.fVertexPtsH[0][self.fNumCols + jIndex].pLong - self.fVertexPtsH[0][jIndex].pLong
                    fLong = self.fVertexPtsH[0][jIndex].pLong - dLon
                else:
                    dLat1 = self.fVertexPtsH[0][jIndex - 1].pLat - self.fVertexPtsH[0][jIndex - 2].pLat
                    dLat2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLat
                    fLat = 2 * (self.fVertexPtsH[0][jIndex - 1].pLat + dLat1) - (self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat + dLat2)
                    dLon1 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][jIndex - 1].pLong
                    dLon2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLong - self.fVertexPtsH[0][jIndex - 2].pLong
                    fLong = 2 * (self.fVertexPtsH[0][jIndex - 1].pLong - dLon1) - (self.fVertexPtsH[0][jIndex - 2].pLong - dLon2)
            elif jIndex < self.fNumCols:
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLat
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLong
            else:
                dLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLat
                fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat + dLat
                dLon = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLong
                fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong + dLon
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            fDepth = 1
            pts[0][i] = copy.copy(vertex)
        else:
            index = 0
            fDepth = 0
            fLat = fDepth
            fLong = fLat
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if landWaterInfo[0][i * self.fNumCols + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * self.fNumCols + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * self.fNumCols + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * self.fNumCols + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * self.fNumCols + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * self.fNumCols + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * self.fNumCols + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * self.fNumCols + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * self.fNumCols + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * self.fNumCols + j].topRight
            if j == self.fNumCols - 1 or gridCellInfo[0][i * self.fNumCols + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * self.fNumCols + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 1 or gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * self.fNumCols + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridWindCurv_c::ReorderPoints()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    self.fGrid = triGrid
    self.SetGridBounds(copy.copy(triBounds))
    triGrid.SetBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        if velocityH:
            _DisposeHandleReally(velocityH)
            velocityH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPoints"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    if velocityH:
        _DisposeHandleReally(velocityH)
        velocityH = None
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.ReorderPointsCOOPSNoMask
def ReorderPointsCOOPSNoMask(self, errmsg):
    err = 0
    i = '?i'
    j = '?j'
    index1 = 0
    errmsg[0] = 0
    n = '?n'
    ntri = '?ntri'
    numVerdatPts = 0
    fNumRows_minus1 = self.fNumRows - 1
    fNumCols_minus1 = self.fNumCols - 1
    nv = self.fNumRows * self.fNumCols
    nCells = fNumRows_minus1 * fNumCols_minus1
    iIndex = '?iIndex'
    jIndex = '?jIndex'
    index = '?index'
    triIndex1 = '?triIndex1'
    triIndex2 = '?triIndex2'
    waterCellNum = 0
    ptIndex = 0
    cellNum = 0
    landWaterInfo = _NewHandleClear(nCells * sizeof('long'))
    ptIndexHdl = _NewHandleClear(nv * sizeof('long'))
    verdatPtsH = _NewHandleClear(nv * sizeof('long'))
    gridCellInfo = _NewHandleClear(nCells * sizeof('GridCellInfo'))
    topo = None
    pts = None
    velH = None
    tree = DAGTreeStruct()
    triBounds = WorldRect()
    triGrid = None
    tree.treeHdl = None
    dagTree = None
    if ((not landWaterInfo or not ptIndexHdl) or not gridCellInfo) or not verdatPtsH:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    index1 = 0
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            landWaterInfo[0][i * fNumCols_minus1 + j] = 1
            ptIndexHdl[0][i * self.fNumCols + j] = -2
            ptIndexHdl[0][i * self.fNumCols + j + 1] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j] = -2
            ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1] = -2
    for i in range(0, self.fNumRows):
        for j in range(0, self.fNumCols):
            if ptIndexHdl[0][i * self.fNumCols + j] == -2:
                ptIndexHdl[0][i * self.fNumCols + j] = ptIndex
                _old33 = ptIndex
                ptIndex += 1
            else:
                ptIndexHdl[0][i * self.fNumCols + j] = -1
    for i in range(0, self.fNumRows - 1):
        for j in range(0, self.fNumCols - 1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] > 0:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = cellNum
                _old36 = cellNum
                cellNum += 1
                gridCellInfo[0][i * fNumCols_minus1 + j].topLeft = ptIndexHdl[0][i * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].topRight = ptIndexHdl[0][i * self.fNumCols + j + 1]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft = ptIndexHdl[0][(i + 1) * self.fNumCols + j]
                gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight = ptIndexHdl[0][(i + 1) * self.fNumCols + j + 1]
            else:
                gridCellInfo[0][i * fNumCols_minus1 + j].cellNum = -1
    ntri = cellNum * 2
    topo = _NewHandleClear(ntri * sizeof('Topology'))
    if not topo:
        err = memFullErr
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    for i in range(0, nv):
        if ptIndexHdl[0][i] != -1:
            verdatPtsH[0][numVerdatPts] = i
            _old39 = numVerdatPts
            numVerdatPts += 1
    _SetHandleSize(verdatPtsH, numVerdatPts * sizeof('long'))
    pts = _NewHandle(sizeof('LongPoint') * numVerdatPts)
    if not pts:
        strcpy(errmsg, '"Not enough memory to triangulate data."')
        return -1
    for i in range(0, numVerdatPts + 1):
        fLong = '?fLong'
        fLat = '?fLat'
        vertex = LongPoint()
        if i < numVerdatPts:
            index = i + 1
            n = verdatPtsH[0][i]
            iIndex = n // self.fNumCols
            jIndex = n % self.fNumCols
            fLat = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLat
            fLong = self.fVertexPtsH[0][iIndex * self.fNumCols + jIndex].pLong
            vertex.v = int(fLat * 1000000)
            vertex.h = int(fLong * 1000000)
            pts[0][i] = copy.copy(vertex)
    triBounds = copy.copy(voidWorldRect)
    if pts:
        thisLPoint = LongPoint()
        if numVerdatPts > 0:
            wp = WorldPoint()
            for i in range(0, numVerdatPts):
                thisLPoint = copy.copy(pts[0][i])
                wp.pLat = thisLPoint.v
                wp.pLong = thisLPoint.h
                AddWPointToWRect(int(wp.pLat), int(wp.pLong), triBounds)
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Triangles"')
    for i in range(0, fNumRows_minus1):
        for j in range(0, fNumCols_minus1):
            if landWaterInfo[0][i * fNumCols_minus1 + j] == -1:
                continue
            waterCellNum = gridCellInfo[0][i * fNumCols_minus1 + j].cellNum
            triIndex1 = 2 * waterCellNum
            triIndex2 = 2 * waterCellNum + 1
            topo[0][triIndex1].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            topo[0][triIndex1].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].topLeft
            topo[0][triIndex1].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            if j == 0 or gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum == -1:
                topo[0][triIndex1].adjTri1 = -1
            else:
                topo[0][triIndex1].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j - 1].cellNum * 2 + 1
            topo[0][triIndex1].adjTri2 = triIndex2
            if i == 0 or gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex1].adjTri3 = -1
            else:
                topo[0][triIndex1].adjTri3 = gridCellInfo[0][(i - 1) * fNumCols_minus1 + j].cellNum * 2 + 1
            topo[0][triIndex2].vertex1 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomLeft
            topo[0][triIndex2].vertex2 = gridCellInfo[0][i * fNumCols_minus1 + j].bottomRight
            topo[0][triIndex2].vertex3 = gridCellInfo[0][i * fNumCols_minus1 + j].topRight
            if j == self.fNumCols - 2 or gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum == -1:
                topo[0][triIndex2].adjTri1 = -1
            else:
                topo[0][triIndex2].adjTri1 = gridCellInfo[0][i * fNumCols_minus1 + j + 1].cellNum * 2
            topo[0][triIndex2].adjTri2 = triIndex1
            if i == self.fNumRows - 2 or gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum == -1:
                topo[0][triIndex2].adjTri3 = -1
            else:
                topo[0][triIndex2].adjTri3 = gridCellInfo[0][(i + 1) * fNumCols_minus1 + j].cellNum * 2
    DisplayMessage('"NEXTMESSAGETEMP"')
    DisplayMessage('"Making Dag Tree"')
    MySpinCursor()
    tree = MakeDagTree(topo, pts, errmsg)
    MySpinCursor()
    if errmsg[0]:
        err = -1
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    _SetHandleSize(tree.treeHdl, tree.numBranches * sizeof('DAG'))
    self.fVerdatToNetCDFH = verdatPtsH
    triGrid = new('TriGridVel_c *', TriGridVel_c())
    if not triGrid:
        err = True
        printf('"%s"', '"Error in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask()"')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    self.fGrid = triGrid
    triGrid.SetBounds(copy.copy(triBounds))
    self.SetGridBounds(copy.copy(triBounds))
    dagTree = new('TDagTree *', TDagTree(pts, topo, tree.treeHdl, velH, tree.numBranches))
    if not dagTree:
        err = -1
        printf('"%s"', '"Unable to create dag tree."')
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if err:
            if not errmsg[0]:
                strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
            printf('"%s"', errmsg)
            if pts:
                _DisposeHandleReally(pts)
                pts = None
            if topo:
                _DisposeHandleReally(topo)
                topo = None
            if velH:
                _DisposeHandleReally(velH)
                velH = None
            if tree.treeHdl:
                _DisposeHandleReally(tree.treeHdl)
                tree.treeHdl = None
            if self.fGrid:
                self.fGrid.Dispose()
                delete(self.fGrid)
                self.fGrid = None
            if landWaterInfo:
                _DisposeHandleReally(landWaterInfo)
                landWaterInfo = None
            if ptIndexHdl:
                _DisposeHandleReally(ptIndexHdl)
                ptIndexHdl = None
            if gridCellInfo:
                _DisposeHandleReally(gridCellInfo)
                gridCellInfo = None
            if verdatPtsH:
                _DisposeHandleReally(verdatPtsH)
                verdatPtsH = None
        return err
    triGrid.SetDagTree(dagTree)
    pts = None
    topo = None
    velH = None
    tree.treeHdl = None
    velH = None
    if landWaterInfo:
        _DisposeHandleReally(landWaterInfo)
        landWaterInfo = None
    if ptIndexHdl:
        _DisposeHandleReally(ptIndexHdl)
        ptIndexHdl = None
    if gridCellInfo:
        _DisposeHandleReally(gridCellInfo)
        gridCellInfo = None
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"An error occurred in TimeGridWindCurv_c::ReorderPointsCOOPSNoMask"')
        printf('"%s"', errmsg)
        if pts:
            _DisposeHandleReally(pts)
            pts = None
        if topo:
            _DisposeHandleReally(topo)
            topo = None
        if velH:
            _DisposeHandleReally(velH)
            velH = None
        if tree.treeHdl:
            _DisposeHandleReally(tree.treeHdl)
            tree.treeHdl = None
        if self.fGrid:
            self.fGrid.Dispose()
            delete(self.fGrid)
            self.fGrid = None
        if landWaterInfo:
            _DisposeHandleReally(landWaterInfo)
            landWaterInfo = None
        if ptIndexHdl:
            _DisposeHandleReally(ptIndexHdl)
            ptIndexHdl = None
        if gridCellInfo:
            _DisposeHandleReally(gridCellInfo)
            gridCellInfo = None
        if verdatPtsH:
            _DisposeHandleReally(verdatPtsH)
            verdatPtsH = None
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetLatLonFromIndex
def GetLatLonFromIndex(self, iIndex, jIndex, wp):
    dLat = '?dLat'
    dLon = '?dLon'
    dLat1 = '?dLat1'
    dLon1 = '?dLon1'
    dLat2 = '?dLat2'
    dLon2 = '?dLon2'
    fLat = '?fLat'
    fLong = '?fLong'
    if iIndex < 0 or jIndex > self.fNumCols:
        return -1
    if iIndex == 0:
        if jIndex < self.fNumCols:
            dLat = self.fVertexPtsH[0][self.fNumCols + jIndex].pLat - self.fVertexPtsH[0][jIndex].pLat
            fLat = self.fVertexPtsH[0][jIndex].pLat - dLat
            dLon = self.fVertexPtsH[0][self.fNumCols + jIndex].pLong - self.fVertexPtsH[0][jIndex].pLong
            fLong = self.fVertexPtsH[0][jIndex].pLong - dLon
        else:
            dLat1 = self.fVertexPtsH[0][jIndex - 1].pLat - self.fVertexPtsH[0][jIndex - 2].pLat
            dLat2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLat
            fLat = 2 * (self.fVertexPtsH[0][jIndex - 1].pLat + dLat1) - (self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLat + dLat2)
            dLon1 = self.fVertexPtsH[0][self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][jIndex - 1].pLong
            dLon2 = self.fVertexPtsH[0][self.fNumCols + jIndex - 2].pLong - self.fVertexPtsH[0][jIndex - 2].pLong
            fLong = 2 * (self.fVertexPtsH[0][jIndex - 1].pLong - dLon1) - (self.fVertexPtsH[0][jIndex - 2].pLong - dLon2)
    elif jIndex < self.fNumCols:
        fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLat
        fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex].pLong
    else:
        dLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLat
        fLat = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLat + dLat
        dLon = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong - self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 2].pLong
        fLong = self.fVertexPtsH[0][(iIndex - 1) * self.fNumCols + jIndex - 1].pLong + dLon
    wp.pLat = int(fLat * 1000000)
    wp.pLong = int(fLong * 1000000)
    return 0

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetScaledVelocities
def GetScaledVelocities(self, time, scaled_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    i = '?i'
    numTri = '?numTri'
    index = -1
    vel_index = 0
    interpolationVal = InterpolationVal()
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    i = 0
    while i < numTri:
        if self.bVelocitiesOnNodes:
            interpolationVal = triGrid.GetInterpolationValuesFromIndex(i)
            if interpolationVal.ptIndex1 < 0:
                scaled_velocity[i].u = 0
                scaled_velocity[i].v = 0
            index = self.fVerdatToNetCDFH[0][interpolationVal.ptIndex1]
        else:
            index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            scaled_velocity[i].u = 0
            scaled_velocity[i].v = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            velocity.u = self.GetStartUVelocity(index)
            velocity.v = self.GetStartVVelocity(index)
        elif index != -1:
            velocity.u = timeAlpha * self.GetStartUVelocity(index) + (1 - timeAlpha) * self.GetEndUVelocity(index)
            velocity.v = timeAlpha * self.GetStartVVelocity(index) + (1 - timeAlpha) * self.GetEndVVelocity(index)
        if velocity.u == self.fFillValue:
            velocity.u = 0
        if velocity.v == self.fFillValue:
            velocity.v = 0
        scaled_velocity[vel_index].u = velocity.u * self.fVar.fileScaleFactor / 100
        scaled_velocity[vel_index].v = velocity.v * self.fVar.fileScaleFactor / 100
        _old17 = vel_index
        vel_index += 1
        i = i + 2
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetCellCenters
def GetCellCenters(self):
    err = 0
    ptsH = None
    wp1 = LongPoint()
    wp2 = LongPoint()
    wp3 = LongPoint()
    wp4 = LongPoint()
    wp = WorldPoint()
    numPts = 0
    numTri = 0
    numCells = '?numCells'
    i = '?i'
    index1 = '?index1'
    index2 = '?index2'
    tri1 = Topology()
    tri2 = Topology()
    if self.fCenterPtsH:
        return self.fCenterPtsH
    topH = self.GetTopologyHdl()
    ptsH = self.GetPointsHdl()
    numTri = _GetHandleSize(topH) // sizeof('Topology')
    numPts = _GetHandleSize(ptsH) // sizeof('LongPoint')
    numCells = numTri // 2
    self.fCenterPtsH = _NewHandle(numCells * sizeof('WorldPoint'))
    if not self.fCenterPtsH:
        err = -1
        printf('"%s"', '"TriGridWind_c::GetCenterPointsHdl()"')
        return self.fCenterPtsH
    for i in range(0, numCells):
        index1 = i * 2
        index2 = i * 2 + 1
        tri1 = copy.copy(topH[0][index1])
        tri2 = copy.copy(topH[0][index2])
        wp1 = copy.copy(ptsH[0][topH[0][index1].vertex1])
        wp2 = copy.copy(ptsH[0][topH[0][index1].vertex2])
        wp3 = copy.copy(ptsH[0][topH[0][index1].vertex3])
        wp4 = copy.copy(ptsH[0][topH[0][index2].vertex2])
        wp.pLong = (wp1.h + wp2.h + wp3.h + wp4.h) / 4000000
        wp.pLat = (wp1.v + wp2.v + wp3.v + wp4.v) / 4000000
        self.fCenterPtsH[0][i] = copy.copy(wp)
    return self.fCenterPtsH

@ gnome.lib.TimeGridWind_c.TimeGridWindCurv_c.GetCellData
def GetCellData(self):
    err = 0
    i = '?i'
    numTri = '?numTri'
    numCells = '?numCells'
    index1 = '?index1'
    index2 = '?index2'
    topH = None
    tri1 = Topology()
    tri2 = Topology()
    if self.fGridCellInfoH:
        return self.fGridCellInfoH
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    numCells = numTri // 2
    fGridCellInfoH = _NewHandleClear(numCells * sizeof('GridCellInfo'))
    if not fGridCellInfoH:
        err = memFullErr
        if err:
            if fGridCellInfoH:
                _DisposeHandleReally(fGridCellInfoH)
                fGridCellInfoH = None
        return fGridCellInfoH
    for i in range(0, numCells):
        index1 = i * 2
        index2 = i * 2 + 1
        tri1 = copy.copy(topH[0][index1])
        tri2 = copy.copy(topH[0][index2])
        fGridCellInfoH[0][i].cellNum = i
        fGridCellInfoH[0][i].topLeft = tri1.vertex2
        fGridCellInfoH[0][i].topRight = tri1.vertex1
        fGridCellInfoH[0][i].bottomLeft = tri2.vertex2
        fGridCellInfoH[0][i].bottomRight = tri1.vertex3
    if err:
        if fGridCellInfoH:
            _DisposeHandleReally(fGridCellInfoH)
            fGridCellInfoH = None
    return fGridCellInfoH

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.__init__
def __init__(self):
    self.fStartDataIce = allbytes(0)
    self.fStartDataIce.timeIndex = -1
    self.fStartDataIce.dataHdl = None
    self.fEndDataIce = allbytes(0)
    self.fEndDataIce.timeIndex = -1
    self.fEndDataIce.dataHdl = None
    self.fStartDataThickness = allbytes(0)
    self.fStartDataThickness.timeIndex = -1
    self.fStartDataThickness.dataHdl = None
    self.fEndDataThickness = allbytes(0)
    self.fEndDataThickness.timeIndex = -1
    self.fEndDataThickness.dataHdl = None
    self.fStartDataFraction = allbytes(0)
    self.fStartDataFraction.timeIndex = -1
    self.fStartDataFraction.dataHdl = None
    self.fEndDataFraction = allbytes(0)
    self.fEndDataFraction.timeIndex = -1
    self.fEndDataFraction.dataHdl = None

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.ShiftInterval
def ShiftInterval(self):
    self.fStartData = copy.copy(self.fEndData)
    self.fStartDataIce = copy.copy(self.fEndDataIce)
    self.fStartDataThickness = copy.copy(self.fEndDataThickness)
    self.fStartDataFraction = copy.copy(self.fEndDataFraction)
    self.ClearLoadedEndData()

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.ClearLoadedEndData
def ClearLoadedEndData(self):
    if self.fEndData.dataHdl:
        self.ClearLoadedData(self.fEndData)
    if self.fEndDataIce.dataHdl:
        self.ClearLoadedData(self.fEndDataIce)
    if self.fEndDataThickness.dataHdl:
        self.ClearLoadedData(self.fEndDataThickness)
    if self.fEndDataFraction.dataHdl:
        self.ClearLoadedData(self.fEndDataFraction)

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.SetInterval
def SetInterval(self, errmsg, model_time):
    err = 0
    timeDataInterval = 0
    intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
    indexOfStart = timeDataInterval - 1
    indexOfEnd = timeDataInterval
    numTimesInFile = self.GetNumTimesInFile()
    errmsg[0] = 0
    if intervalLoaded:
        return 0
    if numTimesInFile == 1 and (not self.GetNumFiles() > 1):
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 and self.fAllowExtrapolationInTime:
        indexOfStart = 0
        indexOfEnd = -1
    if timeDataInterval == 0 or timeDataInterval == numTimesInFile:
        if self.GetNumFiles() > 1:
            err = self.CheckAndScanFile(errmsg, model_time)
            if err or self.fOverLap:
                if err:
                    if not errmsg[0]:
                        strcpy(errmsg, '"Error in TimeGridWindIce::SetInterval()"')
                    self.DisposeLoadedStartData()
                    self.DisposeLoadedEndData()
                return err
            intervalLoaded = self.CheckInterval(timeDataInterval, model_time)
            indexOfStart = timeDataInterval - 1
            indexOfEnd = timeDataInterval
            numTimesInFile = self.GetNumTimesInFile()
            if self.fAllowExtrapolationInTime and (timeDataInterval == numTimesInFile or timeDataInterval == 0):
                if intervalLoaded:
                    return 0
                indexOfEnd = -1
                if timeDataInterval == 0:
                    indexOfStart = 0
        elif self.fTimeAlpha >= 0 and timeDataInterval == numTimesInFile:
            indexOfEnd = 0
        elif self.fAllowExtrapolationInTime and timeDataInterval == numTimesInFile:
            self.fStartData.timeIndex = numTimesInFile - 1
            self.fStartDataIce.timeIndex = numTimesInFile - 1
            self.fStartDataThickness.timeIndex = numTimesInFile - 1
            self.fStartDataFraction.timeIndex = numTimesInFile - 1
            self.fEndData.timeIndex = -1
            self.fEndDataIce.timeIndex = -1
            self.fEndDataThickness.timeIndex = -1
            self.fEndDataFraction.timeIndex = -1
        elif self.fAllowExtrapolationInTime and timeDataInterval == 0:
            self.fStartData.timeIndex = 0
            self.fStartDataIce.timeIndex = 0
            self.fStartDataFraction.timeIndex = 0
            self.fStartDataThickness.timeIndex = 0
            self.fEndData.timeIndex = -1
            self.fEndDataIce.timeIndex = -1
            self.fEndDataFraction.timeIndex = -1
            self.fEndDataThickness.timeIndex = -1
        else:
            err = -1
            strcpy(errmsg, '"Time outside of interval being modeled"')
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridWindIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
    self.DisposeLoadedStartData()
    if indexOfStart == self.fEndData.timeIndex:
        self.ShiftInterval()
    else:
        self.DisposeLoadedEndData()
    if not self.fStartData.dataHdl and indexOfStart >= 0:
        err = self.ReadTimeData(indexOfStart, addr(self.fStartData.dataHdl), errmsg)
        err = self.ReadTimeDataIce(indexOfStart, addr(self.fStartDataIce.dataHdl), errmsg)
        err = self.ReadTimeDataFields(indexOfStart, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridWindIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
        self.fStartData.timeIndex = indexOfStart
        self.fStartDataIce.timeIndex = indexOfStart
        self.fStartDataThickness.timeIndex = indexOfStart
        self.fStartDataFraction.timeIndex = indexOfStart
    if indexOfEnd < numTimesInFile and indexOfEnd != -1:
        err = self.ReadTimeData(indexOfEnd, addr(self.fEndData.dataHdl), errmsg)
        err = self.ReadTimeDataIce(indexOfEnd, addr(self.fEndDataIce.dataHdl), errmsg)
        err = self.ReadTimeDataFields(indexOfEnd, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
        if err:
            if err:
                if not errmsg[0]:
                    strcpy(errmsg, '"Error in TimeGridWindIce::SetInterval()"')
                self.DisposeLoadedStartData()
                self.DisposeLoadedEndData()
            return err
        self.fEndData.timeIndex = indexOfEnd
        self.fEndDataIce.timeIndex = indexOfEnd
        self.fEndDataThickness.timeIndex = indexOfEnd
        self.fEndDataFraction.timeIndex = indexOfEnd
    if err:
        if not errmsg[0]:
            strcpy(errmsg, '"Error in TimeGridWindIce::SetInterval()"')
        self.DisposeLoadedStartData()
        self.DisposeLoadedEndData()
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.CheckAndScanFile
def CheckAndScanFile(self, errmsg, model_time):
    err = 0
    time = model_time
    startTime = '?startTime'
    endTime = '?endTime'
    lastEndTime = '?lastEndTime'
    testTime = '?testTime'
    firstStartTime = '?firstStartTime'
    i = '?i'
    numFiles = self.GetNumFiles()
    errmsg[0] = 0
    if self.fEndData.timeIndex != -1:
        testTime = self.fTimeHdl[0][self.fEndData.timeIndex]
    firstStartTime = self.fInputFilesHdl[0][0].startTime + self.fTimeShift
    for i in range(0, numFiles):
        startTime = self.fInputFilesHdl[0][i].startTime + self.fTimeShift
        endTime = self.fInputFilesHdl[0][i].endTime + self.fTimeShift
        if (startTime <= time and time <= endTime) and (not startTime == endTime):
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            self.fOverLap = False
            return err
        if startTime == endTime and startTime == time:
            fileNum = '?fileNum'
            if i < numFiles - 1:
                fileNum = i + 1
            else:
                fileNum = i
            self.fOverLapStartTime = self.fInputFilesHdl[0][fileNum - 1].endTime
            self.DisposeLoadedStartData()
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum - 1].pathName, addr(self.fTimeHdl))
            self.DisposeLoadedEndData()
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum - 1].pathName)
            err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(self.GetNumTimesInFile() - 1, addr(self.fStartDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(self.GetNumTimesInFile() - 1, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fStartData.timeIndex = -1
            self.fStartDataIce.timeIndex = -1
            self.fStartDataFraction.timeIndex = -1
            self.fStartDataThickness.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][fileNum].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][fileNum].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(0, addr(self.fEndDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(0, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fEndDataIce.timeIndex = 0
            self.fEndDataFraction.timeIndex = 0
            self.fEndDataThickness.timeIndex = 0
            self.fOverLap = True
            return 0
        if i > 0 and (lastEndTime < time and time < startTime):
            self.fOverLapStartTime = self.fInputFilesHdl[0][i - 1].endTime
            self.DisposeLoadedData(self.fStartData)
            if self.fOverLapStartTime == testTime:
                self.ShiftInterval()
            else:
                self.DisposeTimeHdl()
                err = ScanFileForTimes(self.fInputFilesHdl[0][i - 1].pathName, addr(self.fTimeHdl))
                self.DisposeLoadedEndData()
                strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i - 1].pathName)
                err = self.ReadTimeData(self.GetNumTimesInFile() - 1, addr(self.fStartData.dataHdl), errmsg)
                err = self.ReadTimeDataIce(self.GetNumTimesInFile() - 1, addr(self.fStartDataIce.dataHdl), errmsg)
                err = self.ReadTimeDataFields(self.GetNumTimesInFile() - 1, addr(self.fStartDataThickness.dataHdl), addr(self.fStartDataFraction.dataHdl), errmsg)
                if err:
                    return err
            self.fStartData.timeIndex = -1
            self.fStartDataIce.timeIndex = -1
            self.fStartDataThickness.timeIndex = -1
            self.fStartDataFraction.timeIndex = -1
            self.DisposeTimeHdl()
            err = ScanFileForTimes(self.fInputFilesHdl[0][i].pathName, addr(self.fTimeHdl))
            strcpy(self.fVar.pathName, self.fInputFilesHdl[0][i].pathName)
            err = self.ReadTimeData(0, addr(self.fEndData.dataHdl), errmsg)
            err = self.ReadTimeDataIce(0, addr(self.fEndDataIce.dataHdl), errmsg)
            err = self.ReadTimeDataFields(0, addr(self.fEndDataThickness.dataHdl), addr(self.fEndDataFraction.dataHdl), errmsg)
            if err:
                return err
            self.fEndData.timeIndex = 0
            self.fEndDataIce.timeIndex = 0
            self.fEndDataThickness.timeIndex = 0
            self.fEndDataFraction.timeIndex = 0
            self.fOverLap = True
            return 0
        lastEndTime = endTime
    if self.fAllowExtrapolationInTime and time > lastEndTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][numFiles - 1].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][numFiles - 1].pathName)
        self.fOverLap = False
        return err
    if self.fAllowExtrapolationInTime and time < firstStartTime:
        self.DisposeTimeHdl()
        err = ScanFileForTimes(self.fInputFilesHdl[0][0].pathName, addr(self.fTimeHdl))
        strcpy(self.fVar.pathName, self.fInputFilesHdl[0][0].pathName)
        self.fOverLap = False
        return err
    strcpy(errmsg, '"Time outside of interval being modeled"')
    return -1

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetStartFieldValue
def GetStartFieldValue(self, index, field):
    value = 0
    if index >= 0:
        if field == 1:
            if self.fStartDataThickness.dataHdl:
                value = self.fStartDataThickness.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
        if field == 2:
            if self.fStartDataFraction.dataHdl:
                value = self.fStartDataFraction.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
    return value

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetEndFieldValue
def GetEndFieldValue(self, index, field):
    value = 0
    if index >= 0:
        if field == 1:
            if self.fEndDataThickness.dataHdl:
                value = self.fEndDataThickness.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
        if field == 2:
            if self.fEndDataFraction.dataHdl:
                value = self.fEndDataFraction.dataHdl[0][index]
            if value == self.fFillValue:
                value = 0
    return value

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetStartIceUVelocity
def GetStartIceUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fStartDataIce.dataHdl:
            u = self.fStartDataIce.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetEndIceUVelocity
def GetEndIceUVelocity(self, index):
    u = 0
    if index >= 0:
        if self.fEndDataIce.dataHdl:
            u = self.fEndDataIce.dataHdl[0][index].u
        if u == self.fFillValue:
            u = 0
    return u

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetStartIceVVelocity
def GetStartIceVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fStartDataIce.dataHdl:
            v = self.fStartDataIce.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetEndIceVVelocity
def GetEndIceVVelocity(self, index):
    v = 0
    if index >= 0:
        if self.fEndDataIce.dataHdl:
            v = self.fEndDataIce.dataHdl[0][index].v
        if v == self.fFillValue:
            v = 0
    return v

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetScaledPatValue
def GetScaledPatValue(self, model_time, refPoint):
    frac_coverage = 0
    max_coverage = 0.8
    min_coverage = 0.2
    fracAlpha = '?fracAlpha'
    scaledPatVelocity = VelocityRec(0, 0)
    iceVelocity = VelocityRec(0, 0)
    currentVelocity = VelocityRec(0, 0)
    frac_coverage = self.GetDataField(model_time, copy.copy(refPoint), 2)
    currentVelocity = self.GetScaledPatValue(model_time, copy.copy(refPoint))
    if frac_coverage >= max_coverage:
        return copy.copy(iceVelocity)
    elif frac_coverage <= min_coverage:
        return copy.copy(currentVelocity)
    else:
        fracAlpha = (0.8 - frac_coverage) / (max_coverage - min_coverage)
        scaledPatVelocity.u = fracAlpha * currentVelocity.u
        scaledPatVelocity.v = fracAlpha * currentVelocity.v
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetScaledPatValueIce
def GetScaledPatValueIce(self, model_time, refPoint):
    timeAlpha = '?timeAlpha'
    index = -1
    startTime = '?startTime'
    endTime = '?endTime'
    scaledPatVelocity = VelocityRec(0, 0)
    if self.fGrid:
        index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return copy.copy(scaledPatVelocity)
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            scaledPatVelocity.u = self.fStartDataIce.dataHdl[0][index].u
            scaledPatVelocity.v = self.fStartDataIce.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            scaledPatVelocity.u = timeAlpha * self.fStartDataIce.dataHdl[0][index].u + (1 - timeAlpha) * self.fEndDataIce.dataHdl[0][index].u
            scaledPatVelocity.v = timeAlpha * self.fStartDataIce.dataHdl[0][index].v + (1 - timeAlpha) * self.fEndDataIce.dataHdl[0][index].v
        else:
            scaledPatVelocity.u = 0
            scaledPatVelocity.v = 0
    scaledPatVelocity.u = scaledPatVelocity.u * self.fVar.fileScaleFactor
    scaledPatVelocity.v = scaledPatVelocity.v * self.fVar.fileScaleFactor
    return copy.copy(scaledPatVelocity)

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetDataField
def GetDataField(self, model_time, refPoint, field):
    timeAlpha = '?timeAlpha'
    index = -1
    startTime = '?startTime'
    endTime = '?endTime'
    iceDataValue = 0
    if self.fGrid:
        index = self.fGrid.GetRectIndexFromTriIndex(copy.copy(refPoint.p), self.fVerdatToNetCDFH, self.fNumCols + 1)
    if index < 0:
        return iceDataValue
    if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or ((self.fEndData.timeIndex == -1 and model_time > self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime)) or ((self.fEndData.timeIndex == -1 and model_time < self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift) and self.fAllowExtrapolationInTime):
        if index >= 0:
            if field == 1:
                iceDataValue = self.fStartDataThickness.dataHdl[0][index]
            if field == 2:
                iceDataValue = self.fStartDataFraction.dataHdl[0][index]
        else:
            iceDataValue = 0
    else:
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
        timeAlpha = (endTime - model_time) / (endTime - startTime)
        if index >= 0:
            if field == 1:
                iceDataValue = timeAlpha * self.fStartDataThickness.dataHdl[0][index] + (1 - timeAlpha) * self.fEndDataThickness.dataHdl[0][index]
            if field == 2:
                iceDataValue = timeAlpha * self.fStartDataFraction.dataHdl[0][index] + (1 - timeAlpha) * self.fEndDataFraction.dataHdl[0][index]
        else:
            iceDataValue = 0
    return iceDataValue

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetIceFields
def GetIceFields(self, time, thickness, fraction):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    i = '?i'
    numTri = '?numTri'
    numCells = '?numCells'
    index = -1
    triIndex = '?triIndex'
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    errmsg = carray('char[256]')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    numCells = numTri // 2
    for i in range(0, numCells):
        triIndex = i * 2
        index = triGrid.GetRectIndexFromTriIndex2(triIndex, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            thickness[i] = 0
            fraction[i] = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            thickness[i] = self.GetStartFieldValue(index, 1)
            fraction[i] = self.GetStartFieldValue(index, 2)
        elif index != -1:
            thickness[i] = timeAlpha * self.GetStartFieldValue(index, 1) + (1 - timeAlpha) * self.GetEndFieldValue(index, 1)
            fraction[i] = timeAlpha * self.GetStartFieldValue(index, 2) + (1 - timeAlpha) * self.GetEndFieldValue(index, 2)
        if thickness[i] == self.fFillValue:
            thickness[i] = 0
        if fraction[i] == self.fFillValue:
            fraction[i] = 0
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetIceVelocities
def GetIceVelocities(self, time, ice_velocity):
    timeAlpha = '?timeAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    err = 0
    errmsg = carray('char[256]')
    errmsg[0] = 0
    i = '?i'
    numTri = '?numTri'
    index = -1
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityFRec()
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, numTri):
        index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            ice_velocity[i].u = 0
            ice_velocity[i].v = 0
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            velocity.u = self.GetStartIceUVelocity(index)
            velocity.v = self.GetStartIceVVelocity(index)
        elif index != -1:
            velocity.u = timeAlpha * self.GetStartIceUVelocity(index) + (1 - timeAlpha) * self.GetEndIceUVelocity(index)
            velocity.v = timeAlpha * self.GetStartIceVVelocity(index) + (1 - timeAlpha) * self.GetEndIceVVelocity(index)
        if velocity.u == self.fFillValue:
            velocity.u = 0
        if velocity.v == self.fFillValue:
            velocity.v = 0
        ice_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
        ice_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

@ gnome.lib.TimeGridWind_c.TimeGridWindIce_c.GetMovementVelocities
def GetMovementVelocities(self, time, movement_velocity):
    err = 0
    timeAlpha = '?timeAlpha'
    frac_coverage = 0
    max_coverage = 0.8
    min_coverage = 0.2
    fracAlpha = '?fracAlpha'
    startTime = '?startTime'
    endTime = '?endTime'
    i = '?i'
    numTri = '?numTri'
    index = -1
    timeDataInterval = '?timeDataInterval'
    loaded = '?loaded'
    triGrid = self.fGrid
    velocity = VelocityRec(0, 0)
    iceVelocity = VelocityRec(0, 0)
    currentVelocity = VelocityRec(0, 0)
    iceVelocityStart = VelocityRec(0, 0)
    currentVelocityStart = VelocityRec(0, 0)
    iceVelocityEnd = VelocityRec(0, 0)
    currentVelocityEnd = VelocityRec(0, 0)
    errmsg = carray('char[256]')
    errmsg[0] = 0
    err = self.SetInterval(errmsg, time)
    if err:
        return err
    loaded = self.CheckInterval(timeDataInterval, time)
    if not loaded:
        return -1
    topH = self.fGrid.GetTopologyHdl()
    if topH:
        numTri = _GetHandleSize(topH) // sizeof('Topology')
    else:
        numTri = 0
    if ((self.GetNumTimesInFile() > 1 or self.GetNumFiles() > 1) and loaded) and (not err):
        if self.GetNumFiles() > 1 and self.fOverLap:
            startTime = self.fOverLapStartTime + self.fTimeShift
        else:
            startTime = self.fTimeHdl[0][self.fStartData.timeIndex] + self.fTimeShift
        if (self.fEndData.timeIndex == -1 and (time > startTime or time < startTime)) and self.fAllowExtrapolationInTime:
            timeAlpha = 1
        else:
            endTime = self.fTimeHdl[0][self.fEndData.timeIndex] + self.fTimeShift
            timeAlpha = (endTime - time) / (endTime - startTime)
    for i in range(0, numTri):
        index = triGrid.GetRectIndexFromTriIndex2(i, self.fVerdatToNetCDFH, self.fNumCols + 1)
        if index < 0:
            movement_velocity[i].u = 0
            movement_velocity[i].v = 0
            return err
        frac_coverage = self.GetStartFieldValue(index, 2)
        fracAlpha = (0.8 - frac_coverage) / (max_coverage - min_coverage)
        iceVelocityStart.u = self.GetStartIceUVelocity(index)
        iceVelocityStart.v = self.GetStartIceVVelocity(index)
        currentVelocityStart.u = self.GetStartUVelocity(index)
        currentVelocityStart.v = self.GetStartVVelocity(index)
        if (self.GetNumTimesInFile() == 1 and (not self.GetNumFiles() > 1) or timeAlpha == 1) and index != -1:
            if frac_coverage >= max_coverage:
                velocity.u = iceVelocityStart.u
                velocity.v = iceVelocityStart.v
            elif frac_coverage <= min_coverage:
                velocity.u = currentVelocityStart.u
                velocity.v = currentVelocityStart.v
            else:
                velocity.u = fracAlpha * currentVelocityStart.u + (1 - fracAlpha) * iceVelocityStart.u
                velocity.v = fracAlpha * currentVelocityStart.v + (1 - fracAlpha) * iceVelocityStart.v
        elif index != -1:
            iceVelocityEnd.u = self.GetEndIceUVelocity(index)
            iceVelocityEnd.v = self.GetEndIceVVelocity(index)
            currentVelocityEnd.u = self.GetEndUVelocity(index)
            currentVelocityEnd.v = self.GetEndVVelocity(index)
            if frac_coverage >= max_coverage:
                velocity.u = timeAlpha * iceVelocityStart.u + (1 - timeAlpha) * iceVelocityEnd.u
                velocity.v = timeAlpha * iceVelocityStart.v + (1 - timeAlpha) * iceVelocityEnd.v
            elif frac_coverage <= min_coverage:
                velocity.u = timeAlpha * currentVelocityStart.u + (1 - timeAlpha) * currentVelocityEnd.u
                velocity.v = timeAlpha * currentVelocityStart.v + (1 - timeAlpha) * currentVelocityEnd.v
            else:
                currentVelocity.u = timeAlpha * currentVelocityStart.u + (1 - timeAlpha) * currentVelocityEnd.u
                currentVelocity.v = timeAlpha * currentVelocityStart.v + (1 - timeAlpha) * currentVelocityEnd.v
                iceVelocity.u = timeAlpha * iceVelocityStart.u + (1 - timeAlpha) * iceVelocityEnd.u
                iceVelocity.v = timeAlpha * iceVelocityStart.v + (1 - timeAlpha) * iceVelocityEnd.v
                velocity.u = fracAlpha * currentVelocity.u + (1 - fracAlpha) * iceVelocity.u
                velocity.v = fracAlpha * currentVelocity.v + (1 - fracAlpha) * iceVelocity.v
        movement_velocity[i].u = velocity.u * self.fVar.fileScaleFactor
        movement_velocity[i].v = velocity.v * self.fVar.fileScaleFactor
    return err

