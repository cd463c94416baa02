## R1 a point wind holds the data it was given, converts units of speeds (and of both components of u, v data) and never of directions, interpolates in time, and refuses times outside its data unless extrapolation is allowed
@ gnome.environment.wind.Wind.__init__
def __init__(self, timeseries=None, units=None, filename=None, coord_sys='r-theta', latitude=None, longitude=None, speed_uncertainty_scale=0.0, extrapolation_is_allowed=False, timezone_offset=None, **kwargs):
    self._timeseries = np.array([(sec_to_date(zero_time()), [0.0, 0.0])], dtype=datetime_value_2d)
    self.updated_at = kwargs.pop('updated_at', None)
    self.source_id = kwargs.pop('source_id', 'undefined')
    self.longitude = longitude
    self.latitude = latitude
    self.description = kwargs.pop('description', 'Wind Object')
    self.speed_uncertainty_scale = speed_uncertainty_scale
    if filename is not None:
        self.source_type = kwargs.pop('source_type', 'file')
        super(Wind, self).__init__(**kwargs)
        name, coords, units, timezone_offset, timezone_name, times, speeds, directions = read_ossm_format(filename)
        wind_vel = np.zeros((len(times),), dtype=datetime_value_2d)
        for i, record in enumerate(zip(times, speeds, directions)):
            wind_vel['time'][i] = record[0]
            wind_vel['value'][i] = tuple(record[1:3])
        self.units = units
        self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
        if coords != (None, None):
            self.longitude = coords[0]
            self.latitude = coords[1]
        self.name = kwargs.pop('name', name)
        self.units = units
        self._filename = filename
        self.timezone_offset = TZOffset(timezone_offset, timezone_name)
    else:
        if kwargs.get('source_type') in wind_datasources.__members__.keys():
            self.source_type = kwargs.pop('source_type')
        else:
            self.source_type = 'undefined'
        super(Wind, self).__init__(coord_sys=coord_sys, **kwargs)
        self.units = 'mps'
        if timeseries is not None:
            if units is None:
                raise TypeError()
            self.units = units
            self.new_set_timeseries(timeseries, coord_sys)
        self.timezone_offset = timezone_offset
    self.extrapolation_is_allowed = extrapolation_is_allowed

@ gnome.environment.wind.Wind.from_file
def from_file(cls, filename, format=None):
    if format is None:
        format = 'ossm'
    if format not in {'ossm'}:
        raise ValueError()
    source_type = 'file'
    name, coords, units, timezone_offset, timezone_name, times, speeds, directions = read_ossm_format(filename)
    wind_vel = np.zeros((len(times),), dtype=datetime_value_2d)
    for i, record in enumerate(zip(times, speeds, directions)):
        wind_vel['time'][i] = record[0]
        wind_vel['value'][i] = tuple(record[1:3])
    wind = cls(timeseries=wind_vel, units=units, filename=None, coord_sys='r-theta', latitude=coords[1], longitude=coords[0], name=name, timezone_offset=TZOffset(timezone_offset, timezone_name))
    wind._filename = filename
    return wind

@ gnome.environment.wind.Wind._check_units
def _check_units(self, units):
    if units not in Wind.valid_vel_units:
        raise uc.InvalidUnitError()

@ getter gnome.environment.wind.Wind.time
def time(self):
    if not hasattr(self, '_time') and hasattr(self, '_timeseries') and (self._timeseries is not None):
        self._time = Time()
        self._time.data = self._timeseries['time'].astype(datetime.datetime)
    return self._time

@ setter gnome.environment.wind.Wind.time
def time(self, t):
    if t is None:
        self._time = None
        return
    if self.timeseries is not None and len(t) != len(self.timeseries):
        return
    if isinstance(t, Time):
        self._time = t
    elif isinstance(t, Iterable):
        self._time = Time(t)
    else:
        raise ValueError()

@ getter gnome.environment.wind.Wind.timeseries
def timeseries(self):
    return self._timeseries

@ setter gnome.environment.wind.Wind.timeseries
def timeseries(self, value):
    coord_sys = 'r-theta'
    self.new_set_timeseries(value, coord_sys)

@ gnome.environment.wind.Wind.new_set_timeseries
def new_set_timeseries(self, value, coord_sys):
    if self._check_timeseries(value):
        units = self.units
        wind_data = self._xform_input_timeseries(value).copy()
        user_data = wind_data.copy()
        wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units, 'meter per second')
        timeval = to_time_value_pair(wind_data, coord_sys)
        self.ossm.timeseries = timeval
        if tsformat(coord_sys) == ts_format.uv:
            user_data = self.get_wind_data(units=units)
        self._timeseries = user_data
        if not hasattr(self, '_time') or self._time is None:
            self._time = Time()
        self.time.data = self._timeseries['time'].astype(datetime.datetime)
    else:
        raise ValueError()

@ gnome.environment.wind.Wind._set_timezone_offset
def _set_timezone_offset(self, tzo):
    if tzo is None:
        tzo = TZOffset(offset=None, title='No Timezone Specified')
    if self._timezone_offset and self._timezone_offset.offset is not None:
        if tzo.offset is not None:
            off = int((tzo.offset - self._timezone_offset.offset) * 3600)
            off = np.timedelta64(off, 's')
            new_ts = np.zeros((len(self.timeseries),), dtype=datetime_value_2d)
            new_ts['time'] = self.timeseries['time'] + off
            new_ts['value'] = self.timeseries['value']
            self.new_set_timeseries(new_ts, 'r-theta')
    self._timezone_offset = tzo

@ getter gnome.environment.wind.Wind.data_start
def data_start(self):
    return sec_to_datetime(self.ossm.get_start_time())

@ getter gnome.environment.wind.Wind.data_stop
def data_stop(self):
    return sec_to_datetime(self.ossm.get_end_time())

@ getter gnome.environment.wind.Wind.units
def units(self):
    return self._user_units

@ setter gnome.environment.wind.Wind.units
def units(self, value):
    self._check_units(value)
    self._user_units = value

@ gnome.environment.wind.Wind._convert_units
def _convert_units(self, data, coord_sys, from_unit, to_unit):
    if from_unit != to_unit:
        data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
        if tsformat(coord_sys) == ts_format.uv:
            data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
    return data

@ gnome.environment.wind.Wind.get_wind_data
def get_wind_data(self, datetime=None, units=None, coord_sys='r-theta'):
    datetimeval = super(Wind, self).get_timeseries(datetime, coord_sys)
    units = (units, self._user_units)[units is None]
    datetimeval['value'] = self._convert_units(datetimeval['value'], coord_sys, 'meter per second', units)
    return datetimeval

@ gnome.environment.wind.Wind.set_wind_data
def set_wind_data(self, wind_data, units, coord_sys='r-theta'):
    if self._check_timeseries(wind_data):
        self.units = units
        self.new_set_timeseries(wind_data, coord_sys)
    else:
        raise ValueError()

@ gnome.environment.wind.Wind.get_value
def get_value(self, time):
    data = self.get_wind_data(time, 'm/s', 'r-theta')
    return tuple(data[0]['value'])

@ gnome.environment.wind.Wind.at
def at(self, points, time, *, units=None, extrapolate=None, coord_sys='uv', _auto_align=True, **kwargs):
    if points is None:
        points = np.zeros((1, 2))
    pts = gridded.utilities._reorganize_spatial_data(points)
    ret_data = np.zeros_like(pts, dtype=np.float64)
    idx = None
    if coord_sys in ('r-theta', 'uv'):
        cs = coord_sys
    elif coord_sys == 'u':
        cs = 'uv'
        idx = 0
    elif coord_sys == 'r':
        cs = 'r-theta'
        idx = 0
    elif coord_sys == 'v':
        cs = 'uv'
        idx = 1
    elif coord_sys == 'theta':
        cs = 'r-theta'
        idx = 1
    else:
        raise ValueError()
    original_extrapolation = self.extrapolation_is_allowed
    if extrapolate is not None:
        self.extrapolation_is_allowed = extrapolate
    elif self.extrapolation_is_allowed is None:
        self.extrapolation_is_allowed = False
    try:
        data = self.get_wind_data(time, 'm/s', cs)[0]['value']
    except IndexError:
        raise ValueError()
    finally:
        self.extrapolation_is_allowed = original_extrapolation
    if idx is None:
        ret_data[:, 0] = data[0]
        ret_data[:, 1] = data[1]
    else:
        ret_data[:, idx] = data[idx]
        ret_data = ret_data[:, idx]
    if _auto_align:
        ret_data = gridded.utilities._align_results_to_spatial_data(ret_data, points)
    return ret_data

@ gnome.environment.wind.Wind.set_speed_uncertainty
def set_speed_uncertainty(self, up_or_down=None):
    if up_or_down not in ('up', 'down'):
        return False
    if self.speed_uncertainty_scale <= 0.0 or self.speed_uncertainty_scale > 0.5:
        return False
    else:
        percent_uncertainty = self.speed_uncertainty_scale
    time_series = self.get_wind_data()
    for tse in time_series:
        sigma = rayleigh.sigma_from_wind(tse['value'][0])
        if up_or_down == 'up':
            tse['value'][0] = rayleigh.quantile(0.5 + percent_uncertainty, sigma)
        elif up_or_down == 'down':
            tse['value'][0] = rayleigh.quantile(0.5 - percent_uncertainty, sigma)
    self.set_wind_data(time_series, self.units)
    return True

@ gnome.environment.wind.Wind.validate
def validate(self):
    msgs = []
    if np.all(self.timeseries['value'][:, 0] == 0.0):
        msg = 'wind speed is 0'
        msgs.append(self._warn_pre + msg)
    return (msgs, True)

@ func gnome.environment.wind.constant_wind
def constant_wind(speed, direction, units='m/s'):
    wind_vel = np.zeros((1,), dtype=datetime_value_2d)
    wind_vel['time'][0] = datetime.datetime.now().replace(microsecond=0, second=0, minute=0)
    wind_vel['value'][0] = (speed, direction)
    return Wind(timeseries=wind_vel, coord_sys='r-theta', units=units)

@ func gnome.environment.wind.wind_from_values
def wind_from_values(values, units='m/s'):
    wind_vel = np.zeros((len(values),), dtype=datetime_value_2d)
    for i, record in enumerate(values):
        wind_vel['time'][i] = record[0]
        wind_vel['value'][i] = tuple(record[1:3])
    return Wind(timeseries=wind_vel, coord_sys='r-theta', units=units)

@ gnome.utilities.timeseries.Timeseries.__init__
def __init__(self, timeseries=None, filename=None, coord_sys='uv', extrapolation_is_allowed=False, **kwargs):
    super(Timeseries, self).__init__(**kwargs)
    if timeseries is None and filename is None:
        timeseries = np.array([(sec_to_date(zero_time()), [0.0, 0.0])], dtype=basic_types.datetime_value_2d)
    self._filename = filename
    if filename is None:
        self._check_timeseries(timeseries)
        datetime_value_2d = self._xform_input_timeseries(timeseries)
        time_value_pair = to_time_value_pair(datetime_value_2d, coord_sys)
        self.ossm = CyTimeseries(timeseries=time_value_pair)
    else:
        ts_format = tsformat(coord_sys)
        self.ossm = CyTimeseries(filename=filename, file_format=ts_format)
    self.extrapolation_is_allowed = extrapolation_is_allowed

@ gnome.utilities.timeseries.Timeseries._check_timeseries
def _check_timeseries(self, timeseries):
    if not isinstance(timeseries, np.ndarray):
        if self._is_timeseries_value(timeseries):
            return True
        else:
            for i in timeseries:
                if not self._is_timeseries_value(i):
                    raise TimeseriesError()
            return True
    if not self._timeseries_is_ascending(timeseries):
        raise TimeseriesError()
    return True

@ gnome.utilities.timeseries.Timeseries.__len__
def __len__(self):
    return self.ossm.get_num_values()

@ gnome.utilities.timeseries.Timeseries.get_start_time
def get_start_time(self):
    return self.ossm.get_start_time()

@ gnome.utilities.timeseries.Timeseries.get_end_time
def get_end_time(self):
    return self.ossm.get_end_time()

@ gnome.utilities.timeseries.Timeseries._is_timeseries_value
def _is_timeseries_value(self, value):
    if not isinstance(value, (list, tuple)):
        return False
    if len(value) != 2:
        return False
    if not isinstance(value[0], (datetime.datetime, np.datetime64)):
        return False
    if len(value[1]) not in (1, 2):
        return False
    return True

@ gnome.utilities.timeseries.Timeseries._timeseries_is_ascending
def _timeseries_is_ascending(self, timeseries):
    if timeseries.shape == () or timeseries.shape == (1,):
        return True
    if np.any(np.diff(timeseries['time']) <= np.timedelta64(0, 's')):
        return False
    else:
        return True

@ gnome.utilities.timeseries.Timeseries._xform_input_timeseries
def _xform_input_timeseries(self, timeseries):
    timeseries = np.asarray(timeseries, dtype=basic_types.datetime_value_2d)
    if timeseries.shape == ():
        timeseries = np.asarray([timeseries], dtype=basic_types.datetime_value_2d)
    return timeseries

@ getter gnome.utilities.timeseries.Timeseries.filename
def filename(self):
    return self._filename

@ getter gnome.utilities.timeseries.Timeseries.extrapolation_is_allowed
def extrapolation_is_allowed(self):
    return self.ossm.extrapolation_is_allowed

@ setter gnome.utilities.timeseries.Timeseries.extrapolation_is_allowed
def extrapolation_is_allowed(self, value):
    self.ossm.extrapolation_is_allowed = value

@ gnome.utilities.timeseries.Timeseries.get_timeseries
def get_timeseries(self, datetime=None, coord_sys='uv'):
    if datetime is None:
        datetimeval = to_datetime_value_2d(self.ossm.timeseries, coord_sys)
    else:
        datetime = np.asarray(datetime, dtype='datetime64[s]').reshape(-1)
        timeval = np.zeros((len(datetime),), dtype=basic_types.time_value_pair)
        timeval['time'] = date_to_sec(datetime)
        timeval['value'], err = self.ossm.get_time_value(timeval['time'])
        if err != 0:
            msg = 'No available data in the time interval that is being modeled\n\tModel time: {}\n\tMover: {} of type {}\n'.format(datetime, self.name, self.__class__)
            raise RuntimeError()
        datetimeval = to_datetime_value_2d(timeval, coord_sys)
    return np.copy(datetimeval)

@ gnome.utilities.timeseries.Timeseries.set_timeseries
def set_timeseries(self, datetime_value_2d, coord_sys='uv'):
    datetime_value_2d = self._xform_input_timeseries(datetime_value_2d)
    timeval = to_time_value_pair(datetime_value_2d, coord_sys)
    self.ossm.timeseries = timeval

@ func gnome.utilities.convert.to_time_value_pair
def to_time_value_pair(datetime_value, in_ts_format=None):
    if datetime_value.dtype not in (basic_types.datetime_value_2d, basic_types.datetime_value_1d):
        raise ValueError()
    time_value_pair = np.zeros((len(datetime_value),), dtype=basic_types.time_value_pair)
    time_value_pair['time'] = time_utils.date_to_sec(datetime_value['time'])
    if datetime_value.dtype == basic_types.datetime_value_1d:
        time_value_pair['value']['u'] = datetime_value['value'][:]
    else:
        if in_ts_format is None:
            raise ValueError()
        in_ts_format = tsformat(in_ts_format)
        if in_ts_format == basic_types.ts_format.magnitude_direction:
            uv = transforms.r_theta_to_uv_wind(datetime_value['value'])
            time_value_pair['value']['u'] = uv[:, 0]
            time_value_pair['value']['v'] = uv[:, 1]
        elif in_ts_format == basic_types.ts_format.uv:
            time_value_pair['value']['u'] = datetime_value['value'][:, 0]
            time_value_pair['value']['v'] = datetime_value['value'][:, 1]
        else:
            raise ValueError()
    return time_value_pair

@ func gnome.utilities.convert.to_datetime_value_2d
def to_datetime_value_2d(time_value_pair, out_ts_format):
    if time_value_pair.dtype != basic_types.time_value_pair:
        raise ValueError()
    datetime_value_2d = np.zeros((len(time_value_pair),), dtype=basic_types.datetime_value_2d)
    out_ts_format = tsformat(out_ts_format)
    if out_ts_format == basic_types.ts_format.magnitude_direction:
        datetime_value_2d['time'] = time_utils.sec_to_date(time_value_pair['time'])
        uv = np.zeros((len(time_value_pair), 2), dtype=np.double)
        uv[:, 0] = time_value_pair['value']['u']
        uv[:, 1] = time_value_pair['value']['v']
        datetime_value_2d['value'] = transforms.uv_to_r_theta_wind(uv)
    elif out_ts_format == basic_types.ts_format.uv:
        datetime_value_2d['time'] = time_utils.sec_to_date(time_value_pair['time'])
        datetime_value_2d['value'][:, 0] = time_value_pair['value']['u']
        datetime_value_2d['value'][:, 1] = time_value_pair['value']['v']
    else:
        raise ValueError()
    return datetime_value_2d

@ func gnome.utilities.convert.to_datetime_value_1d
def to_datetime_value_1d(time_value_pair):
    if time_value_pair.dtype != basic_types.time_value_pair:
        raise ValueError()
    datetime_value_1d = np.zeros((len(time_value_pair),), dtype=basic_types.datetime_value_1d)
    datetime_value_1d['time'] = time_utils.sec_to_date(time_value_pair['time'])
    datetime_value_1d['value'][:] = time_value_pair['value']['u']
    return datetime_value_1d

@ func gnome.utilities.convert.tsformat
def tsformat(format_obj):
    names = list(basic_types.ts_format.__members__.keys())
    val_error = 'timeseries format can only be one of {}Format entered is not recognized: {}'.format(names, format_obj)
    if format_obj in basic_types.ts_format.__members__.values():
        return format_obj
    try:
        format_obj = format_obj.replace('-', '_')
    except AttributeError:
        pass
    try:
        return basic_types.ts_format[format_obj]
    except KeyError:
        raise ValueError()

## R2 a wind file is read as written: times, speeds, directions, units, position and timezone, in every form of the format
@ func gnome.environment.wind.read_ossm_format
def read_ossm_format(filename):
    with open(filename, encoding='utf-8') as infile:
        try:
            data, line_no, name, coords, units, timezone_offset, timezone_name = _read_ossm_header(infile)
            name = name if name else str(filename)
            times = [data[0]]
            speeds = [data[1]]
            directions = [data[2]]
            for line in infile:
                line_no += 1
                if line.strip():
                    data = _read_ossm_data_line(line)
                    if data is None:
                        raise ValueError()
                    times.append(data[0])
                    speeds.append(data[1])
                    directions.append(data[2])
        except Exception as err:
            raise ValueError() from err
    return (name, coords, units, timezone_offset, timezone_name, times, speeds, directions)

@ func gnome.environment.wind._read_ossm_header
def _read_ossm_header(infile):
    line_no = 0
    name = infile.readline().strip()
    line_no += 1
    line = infile.readline().strip()
    line_no += 1
    try:
        lat, lon = [float(i) for i in line.split(',')]
        coords = (lon, lat)
    except ValueError:
        coords = (None, None)
    units = infile.readline().strip()
    line_no += 1
    units = 'm/s' if units.lower() == 'mps' else units
    if not units:
        raise ValueError()
    line = infile.readline().strip()
    line_no += 1
    data = _read_ossm_data_line(line)
    if data is None:
        if line.lower() in {'gmt', 'utc'}:
            timezone_offset = 0
            timezone_name = line
        else:
            fields = line.split(',', maxsplit=1)
            try:
                timezone_offset = float(fields[0])
            except ValueError:
                timezone_offset = None
            try:
                timezone_name = fields[1].strip()
            except IndexError:
                timezone_name = ''
    else:
        timezone_offset = None
        timezone_name = ''
        return (data, line_no, name, coords, units, timezone_offset, timezone_name)
    line = infile.readline().strip()
    line_no += 1
    data = _read_ossm_data_line(line)
    if data is None:
        line = infile.readline().strip()
        line_no += 1
        data = _read_ossm_data_line(line)
        if data is None:
            raise ValueError()
    return (data, line_no, name, coords, units, timezone_offset, timezone_name)

@ func gnome.environment.wind._read_ossm_data_line
def _read_ossm_data_line(line):
    data = line.strip().split(',')
    if len(data) != 7:
        return None
    try:
        day, month, year, hour, second = [int(f) for f in data[:5]]
    except ValueError:
        return None
    try:
        speed, direction = [float(f) for f in data[5:]]
    except ValueError:
        try:
            speed, cardinal_direction = [float(data[5]), data[6].strip()]
            direction = cardinal_directions[cardinal_direction]
        except (ValueError, KeyError):
            return None
    if year < 100:
        year += 2000 if year < 70 else 1900
    time = datetime.datetime(year, month, day, hour, second)
    return (time, speed, direction)

@ const gnome.environment.wind.Wind._ref_as
'wind'

@ const gnome.environment.wind.Wind._gnome_unit
'm/s'

@ const gnome.environment.wind.Wind.valid_vel_units
_valid_units('Velocity')

@ const gnome.environment.wind.PointWind
Wind

@ const gnome.environment.wind.cardinal_directions
{'N': 0, 'NNE': 22.5, 'NE': 45, 'ENE': 67.5, 'E': 90, 'ESE': 112.5, 'SE': 135, 'SSE': 157.5, 'S': 180, 'SSW': 202.5, 'SW': 225, 'WSW': 247.5, 'W': 270, 'WNW': 292.5, 'NW': 315, 'NNW': 337.5}

@ gnome.environment.wind.Wind._write_timeseries_to_fd
def _write_timeseries_to_fd(self, fd):
    if self.units in ossm_wind_units.values():
        data_units = self.units
    else:
        data_units = 'meters per second'
    header = 'Station Name\nPosition\n{0}\nLTime\n0,0,0,0,0,0,0,0\n'.format(data_units)
    data = self.get_wind_data(units=data_units)
    val = data['value']
    dt = data['time'].astype(datetime.datetime)
    fd.write(header)
    for i, idt in enumerate(dt):
        fd.write('{0.day:02}, {0.month:02}, {0.year:04}, {0.hour:02}, {0.minute:02}, {1:02.2f}, {2:02.2f}\n'.format(idt, round(val[i, 0], 4), round(val[i, 1], 4)))

@ gnome.environment.wind.Wind._write_timeseries_to_file
def _write_timeseries_to_file(self, datafile):
    with open(datafile, 'w') as fd:
        self._write_timeseries_to_fd(fd)

@ gnome.environment.wind.Wind._write_timeseries_to_zip
def _write_timeseries_to_zip(self, saveloc, ts_name):
    fd = io.StringIO()
    self._write_timeseries_to_fd(fd)
    self._write_to_zip(saveloc, ts_name, fd.getvalue())

## R3 water properties come back in the unit asked for
@ gnome.environment.water.WaterProperty.__init__
def __init__(self, water):
    self.water = water
    super().__init__()

@ gnome.environment.water.Water.__init__
def __init__(self, temperature=300.0, salinity=35.0, sediment=0.005, wave_height=None, fetch=None, units=None, name='Water', **kwargs):
    self.temperature = temperature
    self.salinity = salinity
    self.sediment = sediment
    self.wave_height = wave_height
    self.fetch = fetch
    self.kinematic_viscosity = 1e-06
    self.name = name
    self.units = self._gnome_units
    if units is not None:
        self.units = units
    super(Water, self).__init__(**kwargs)
    self.Temperature = Temperature(self)
    self.Salinity = Salinity(self)
    self.Sediment = Sediment(self)
    self.WaveHeight = WaveHeight(self)
    t = self.get('temperature', 'C')
    if t > 100 or t < -10:
        pass

@ getter gnome.environment.water.Water.data_start
def data_start(self):
    return MinusInfTime()

@ getter gnome.environment.water.Water.data_stop
def data_stop(self):
    return InfTime()

@ gnome.environment.water.Water.get
def get(self, attr, unit=None):
    val = getattr(self, attr)
    if val is None:
        return val
    if unit is None:
        if attr not in self._gnome_units or self._gnome_units[attr] == self._units[attr]:
            return val
        else:
            unit = self._gnome_units[attr]
    if unit == self._units[attr]:
        return val
    if unit in self._units_type[attr][1]:
        return uc.convert(self._units_type[attr][0], self.units[attr], unit, val)
    else:
        ex = uc.InvalidUnitError((unit, self._units_type[attr][0]))
        raise ex

@ gnome.environment.water.Water.set
def set(self, attr, value, unit):
    if unit not in self._units_type[attr][1]:
        raise uc.InvalidUnitError()
    setattr(self, attr, value)
    self.units[attr] = unit

@ gnome.environment.water.Water._get_density
def _get_density(salinity, temp, temp_units):
    temp_c = uc.convert('Temperature', temp_units, 'C', temp)
    rho = gsw.rho(salinity, temp_c, constants.atmos_pressure * 0.0001)
    return rho

@ getter gnome.environment.water.Water.density
def density(self):
    return self._get_density(self.salinity, self.temperature, self.units['temperature'])

@ getter gnome.environment.water.Water.units
def units(self):
    if not hasattr(self, '_units'):
        self._units = {}
    return self._units

@ setter gnome.environment.water.Water.units
def units(self, u_dict):
    if not hasattr(self, '_units'):
        self._units = {}
    for prop, unit in u_dict.items():
        if prop in self._units_type:
            if unit not in self._units_type[prop][1]:
                msg = '{0} are invalid units for {1}.  Ignore it.'.format(unit, prop)
                raise uc.InvalidUnitError()
        self._units[prop] = unit

@ func gnome.environment.water.make_water_property
def make_water_property(property, default_unit):

    def wrapper(cls):

        def at(self, points, time, units=default_unit, extrapolate=False, **kwargs):
            temp = self.water.get(property, unit=units)
            return np.zeros((len(points),)) + temp
        cls.at = at
        return cls
    return wrapper

@ const gnome.environment.water._valid_temp_units
_valid_units('Temperature')

@ const gnome.environment.water._valid_dist_units
_valid_units('Length')

@ const gnome.environment.water._valid_kvis_units
_valid_units('Kinematic Viscosity')

@ const gnome.environment.water._valid_density_units
_valid_units('Density')

@ const gnome.environment.water._valid_salinity_units
('psu',)

@ const gnome.environment.water._valid_sediment_units
_valid_units('Concentration In Water')

@ const gnome.environment.water.WaterProperty.data_start
MinusInfTime()

@ const gnome.environment.water.WaterProperty.data_stop
InfTime()

@ const gnome.environment.water.Water._ref_as
'water'

@ const gnome.environment.water.Water._units_type
{'temperature': ('temperature', _valid_temp_units), 'salinity': ('salinity', _valid_salinity_units), 'sediment': ('concentration in water', _valid_sediment_units), 'wave_height': ('length', _valid_dist_units), 'fetch': ('length', _valid_dist_units), 'kinematic_viscosity': ('kinematic viscosity', _valid_kvis_units), 'density': ('density', _valid_density_units)}

@ const gnome.environment.water.Water._gnome_units
{'temperature': 'K', 'salinity': 'psu', 'sediment': 'kg/m^3', 'wave_height': 'm', 'fetch': 'm', 'density': 'kg/m^3', 'kinematic_viscosity': 'm^2/s'}

## R4 waves follow from the wind and the water at the points and time
@ gnome.environment.waves.Waves.__init__
def __init__(self, wind=None, water=None, **kwargs):
    self.wind = wind
    self.water = water
    if self.water is not None and self.wind is not None:
        kwargs['make_default_refs'] = kwargs.pop('make_default_refs', False)
    super(Waves, self).__init__(**kwargs)

@ getter gnome.environment.waves.Waves.data_start
def data_start(self):
    if self.wind:
        return self.wind.data_start
    else:
        return MinusInfTime()

@ getter gnome.environment.waves.Waves.data_stop
def data_stop(self):
    if self.wind:
        return self.wind.data_stop
    else:
        return InfTime()

@ gnome.environment.waves.Waves.get_value
def get_value(self, points, time):
    wave_height = self.water.get('wave_height')
    if wave_height is None:
        U = self.get_wind_speed(points, time)
        H = self.compute_H(U)
    else:
        U = self.get_wind_speed(points, time)
        H = np.full_like(U, wave_height)
        U = self.pseudo_wind(H)
        H = np.array(H).reshape(-1)
        H = 0.707 * H
    Wf = self.whitecap_fraction(U)
    T = self.mean_wave_period(U)
    De = self.dissipative_wave_energy(H)
    return (H, T, Wf, De)

@ gnome.environment.waves.Waves.get_wind_speed
def get_wind_speed(self, points, model_time, coord_sys='r', fill_value=1.0):
    retval = self.wind.at(points, model_time, coord_sys=coord_sys)
    if isinstance(retval, np.ma.MaskedArray):
        return retval.filled(fill_value)
    else:
        return retval

@ gnome.environment.waves.Waves.get_emulsification_wind
def get_emulsification_wind(self, points, time):
    wave_height = self.water.get('wave_height')
    U = self.get_wind_speed(points, time)
    if wave_height is None:
        return U
    else:
        U = np.where(U < self.pseudo_wind(wave_height), self.pseudo_wind(wave_height), U)
        return U

@ gnome.environment.waves.Waves.compute_H
def compute_H(self, U):
    U = np.array(U).reshape(-1)
    return Adios2.wave_height(U, self.water.get('fetch'))

@ gnome.environment.waves.Waves.pseudo_wind
def pseudo_wind(self, H):
    H = np.array(H).reshape(-1)
    return Adios2.wind_speed_from_height(H)

@ gnome.environment.waves.Waves.whitecap_fraction
def whitecap_fraction(self, U):
    U = np.array(U).reshape(-1)
    return LehrSimecek.whitecap_fraction(U, self.water.salinity)

@ gnome.environment.waves.Waves.mean_wave_period
def mean_wave_period(self, U):
    U = np.array(U).reshape(-1)
    return Adios2.mean_wave_period(U, self.water.get('wave_height'), self.water.get('fetch'))

@ gnome.environment.waves.Waves.peak_wave_period
def peak_wave_period(self, points, time):
    U = self.get_wind_speed(points, time)
    return PiersonMoskowitz.peak_wave_period(U)

@ gnome.environment.waves.Waves.dissipative_wave_energy
def dissipative_wave_energy(self, H):
    return Adios2.dissipative_wave_energy(self.water.density, H)

@ gnome.environment.waves.Waves.energy_dissipation_rate
def energy_dissipation_rate(self, H, U):
    if H == 0 or U == 0:
        return 0
    c_ub = 100
    c_p = PiersonMoskowitz.peak_wave_speed(U)
    w_p = PiersonMoskowitz.peak_angular_frequency(U)
    z_0 = 1200 * H * (H / (2 * np.pi * c_p) * w_p) ** 4.5
    u_a = 0.4 * U / np.log(10 / z_0)
    u_c = 0.03 * u_a
    eps = c_ub * u_c ** 3 / H
    return eps

## R5 tides and running averages
@ gnome.environment.tide.Tide.__init__
def __init__(self, filename, yeardata=os.path.join(os.path.dirname(gnome.__file__), 'data', 'yeardata'), scale_factor=None, **kwargs):
    super(Tide, self).__init__(**kwargs)
    self._yeardata = None
    self.filename = filename
    self.cy_obj = self._obj_to_create(filename)
    self.yeardata = yeardata
    self.name = os.path.split(self.filename)[1]
    self.scale_factor = scale_factor if scale_factor else self.cy_obj.scale_factor
    kwargs.pop('scale_factor', None)

@ getter gnome.environment.tide.Tide.extrapolation_is_allowed
def extrapolation_is_allowed(self):
    return True

@ getter gnome.environment.tide.Tide.data_start
def data_start(self):
    if isinstance(self.cy_obj, CyShioTime):
        return datetime(SHIO_YEARDATA_LIMITS[0], 1, 1)
    else:
        return sec_to_datetime(self.cy_obj.get_start_time())

@ getter gnome.environment.tide.Tide.data_stop
def data_stop(self):
    if isinstance(self.cy_obj, CyShioTime):
        return datetime(SHIO_YEARDATA_LIMITS[1], 12, 31, 23, 59)
    else:
        return sec_to_datetime(self.cy_obj.get_end_time())

@ getter gnome.environment.tide.Tide.yeardata
def yeardata(self):
    return self._yeardata

@ setter gnome.environment.tide.Tide.yeardata
def yeardata(self, value):
    if not os.path.exists(value):
        raise IOError()
    self._yeardata = value
    if isinstance(self.cy_obj, CyShioTime):
        self.cy_obj.set_shio_yeardata_path(value)

@ gnome.environment.tide.Tide._obj_to_create
def _obj_to_create(self, filename):
    fh = open(filename, encoding='utf-8')
    lines = [fh.readline() for i in range(4)]
    if len(lines[1]) == 0:
        lines = lines[0].split('\r', 4)
    if len(lines[1]) == 0:
        raise ValueError()
    shio_file = ['[StationInfo]', 'Type=', 'Name=', 'Latitude=']
    if all([shio_file[i] == lines[i][:len(shio_file[i])] for i in range(4)]):
        return CyShioTime(filename)
    elif len(lines[3].split(',')) == 7:
        return CyTimeseries(filename, file_format=tsformat('uv'))
    else:
        raise ValueError()

@ func gnome.environment.tide._get_shio_yeardata_limits
def _get_shio_yeardata_limits():
    gnome_dir = os.path.split(os.path.split(os.path.abspath(__file__))[0])[0]
    yeardata_dir = os.path.join(gnome_dir, 'data', 'yeardata')
    years = [int(name[-4:]) for name in glob.glob(yeardata_dir + '/#????')]
    return (min(years), max(years))

@ const gnome.environment.tide.SHIO_YEARDATA_LIMITS
_get_shio_yeardata_limits()

@ const gnome.environment.tide.Tide._ref_as
'tide'

@ gnome.environment.running_average.RunningAverage.__init__
def __init__(self, wind=None, timeseries=None, past_hours_to_average=3, **kwargs):
    self.units = 'mps'
    self.format = 'uv'
    self._past_hours_to_average = past_hours_to_average
    self.wind = wind
    if wind is None and timeseries is None:
        mvg_timeseries = np.array([(sec_to_date(zero_time()), [0.0, 0.0])], dtype=basic_types.datetime_value_2d)
        moving_ts = self._convert_to_time_value_pair(mvg_timeseries)
    elif wind is not None:
        moving_ts = wind.ossm.create_running_average(self._past_hours_to_average)
    else:
        self.wind = Wind(timeseries, units='mps', coord_sys='uv')
        moving_ts = self.wind.ossm.create_running_average(self._past_hours_to_average)
    self.ossm = CyTimeseries(timeseries=moving_ts)
    super(RunningAverage, self).__init__(**kwargs)

@ getter gnome.environment.running_average.RunningAverage.past_hours_to_average
def past_hours_to_average(self):
    return self._past_hours_to_average

@ setter gnome.environment.running_average.RunningAverage.past_hours_to_average
def past_hours_to_average(self, value):
    self._past_hours_to_average = value

@ getter gnome.environment.running_average.RunningAverage.timeseries
def timeseries(self):
    return self.get_timeseries()

@ gnome.environment.running_average.RunningAverage._convert_to_time_value_pair
def _convert_to_time_value_pair(self, datetime_value_2d):
    datetime_value_2d = np.asarray(datetime_value_2d, dtype=basic_types.datetime_value_2d)
    if datetime_value_2d.shape == ():
        datetime_value_2d = np.asarray([datetime_value_2d], dtype=basic_types.datetime_value_2d)
    timeval = to_time_value_pair(datetime_value_2d, 'uv')
    return timeval

@ gnome.environment.running_average.RunningAverage.get_timeseries
def get_timeseries(self, datetime=None):
    if datetime is None:
        datetimeval = to_datetime_value_2d(self.ossm.timeseries, 'uv')
    else:
        datetime = np.asarray(datetime, dtype='datetime64[s]').reshape(-1)
        timeval = np.zeros((len(datetime),), dtype=basic_types.time_value_pair)
        timeval['time'] = date_to_sec(datetime)
        timeval['value'], _err = self.ossm.get_time_value(timeval['time'])
        datetimeval = to_datetime_value_2d(timeval, 'uv')
    return datetimeval

@ gnome.environment.running_average.RunningAverage.prepare_for_model_run
def prepare_for_model_run(self, model_time):
    if self.wind is None:
        msg = 'wind object not defined for PointWindMover'
        raise ReferencedObjectNotSet()
    model_time = date_to_sec(model_time)
    self.create_running_average_timeseries(self._past_hours_to_average, model_time)

@ gnome.environment.running_average.RunningAverage.prepare_for_model_step
def prepare_for_model_step(self, model_time):
    model_time = date_to_sec(model_time)
    if self.ossm.check_time_in_range(model_time):
        return
    self.create_running_average_timeseries(self._past_hours_to_average, model_time)

@ gnome.environment.running_average.RunningAverage.create_running_average_timeseries
def create_running_average_timeseries(self, past_hours_to_average, model_time=0):
    moving_timeseries = self.wind.ossm.create_running_average(past_hours_to_average, model_time)
    self.ossm.timeseries = moving_timeseries

@ gnome.environment.running_average.RunningAverage.get_value
def get_value(self, time):
    if self.ossm.timeseries is None:
        self.create_running_average_timeseries(self.past_hours_to_average)
    data = self.get_timeseries(time)
    return tuple(data[0]['value'])

## R6 time series interpolate linearly between their times, hold their ends only where extrapolation is allowed, and answer in the units asked for
@ gnome.environment.timeseries_objects_base.TimeseriesData.__init__
def __init__(self, data=None, time=None, units=None, extrapolate=True, *args, **kwargs):
    self._units = self._time = self._data = None
    self.units = units
    self.data = data
    self.time = time
    self.extrapolate = extrapolate
    super(TimeseriesData, self).__init__(*args, **kwargs)

@ gnome.environment.timeseries_objects_base.TimeseriesData.constant
def constant(cls, name=None, units=None, data=None):
    if any((var is None for var in (name, data, units))):
        raise ValueError()
    if not isinstance(data, Number):
        raise TypeError()
    t = Time.constant_time()
    return cls(name=name, units=units, time=t, data=[data])

@ getter gnome.environment.timeseries_objects_base.TimeseriesData.timeseries
def timeseries(self):
    return [(x, y) for x, y in zip(self.time.data, self.data)]

@ getter gnome.environment.timeseries_objects_base.TimeseriesData.data
def data(self):
    return self._data

@ setter gnome.environment.timeseries_objects_base.TimeseriesData.data
def data(self, d):
    if self.time is not None and len(d) != len(self.time):
        raise ValueError()
    else:
        self._data = d

@ getter gnome.environment.timeseries_objects_base.TimeseriesData.time
def time(self):
    return self._time

@ setter gnome.environment.timeseries_objects_base.TimeseriesData.time
def time(self, t):
    if self.data is not None and len(t) != len(self.data):
        raise ValueError()
    if isinstance(t, Time) or issubclass(t.__class__, gridded.time.Time):
        self._time = t
    elif isinstance(t, abc.Iterable):
        self._time = Time(t)
    else:
        raise ValueError()

@ gnome.environment.timeseries_objects_base.TimeseriesData.at | ignore_exc=False
def at(self, points, time, *, units=None, extrapolate=False, auto_align=True, **kwargs):
    pts = _reorganize_spatial_data(points)
    value = None
    if len(self.time) == 1:
        value = self.data
    else:
        extrapolate = self.extrapolate or extrapolate
        if not extrapolate:
            self.time.valid_time(time)
        if extrapolate and time > self.time.max_time:
            value = self.data[-1]
        if extrapolate and time <= self.time.min_time:
            value = self.data[0]
        if value is None:
            t_index = self.time.index_of(time, extrapolate)
            t_alphas = self.time.interp_alpha(time, extrapolate)
            d0 = self.data[max(t_index - 1, 0)]
            d1 = self.data[t_index]
            value = d0 + (d1 - d0) * t_alphas
    data_units = self.units if self.units else self._gnome_unit
    req_units = units if units else data_units
    if data_units is not None and data_units != req_units:
        try:
            value = uc.convert(data_units, req_units, value)
        except uc.NotSupportedUnitError:
            if not uc.is_supported(data_units):
                pass
            elif not uc.is_supported(req_units):
                pass
            else:
                raise
    if points is None:
        return value
    else:
        rval = np.full((pts.shape[0], 1), value, dtype=np.float64)
        if auto_align:
            return _align_results_to_spatial_data(rval, points)
        else:
            return rval

@ gnome.environment.timeseries_objects_base.TimeseriesData.in_units
def in_units(self, unit):
    cpy = copy.copy(self)
    if hasattr(cpy.data, '__mul__'):
        cpy.data = uc.convert(cpy.units, unit, cpy.data)
    cpy.units = unit
    return cpy

@ gnome.environment.timeseries_objects_base.TimeseriesData.is_constant
def is_constant(self):
    return len(self.data) == 1

@ gnome.environment.timeseries_objects_base.TimeseriesVector.__init__
def __init__(self, variables=None, time=None, units=None, *args, **kwargs):
    self._units = self._time = self._variables = None
    if all([isinstance(v, TimeseriesData) for v in variables]):
        if time is not None and (not isinstance(time, Time)):
            time = Time(time)
    units = variables[0].units if units is None else units
    time = variables[0].time if time is None else time
    if variables is None or len(variables) < 2:
        raise ValueError()
    self.variables = variables
    self.units = units
    self.time = time
    super(TimeseriesVector, self).__init__(*args, **kwargs)

@ getter gnome.environment.timeseries_objects_base.TimeseriesVector.time
def time(self):
    if self.variables is not None:
        times = [v.time for v in self.variables]
        otherTimes = [t for t in times if t is not times[0]]
        if len(otherTimes) == 0:
            return times[0]
        else:
            return times
    else:
        raise ValueError()

@ setter gnome.environment.timeseries_objects_base.TimeseriesVector.time
def time(self, time_data):
    if isinstance(time_data, Time):
        for v in self.variables:
            v.time = time_data
    else:
        t = self.variables[0].time
        t.data = time_data
        for v in self.variables:
            v.time.data = t.data

@ getter gnome.environment.timeseries_objects_base.TimeseriesVector.units
def units(self):
    if hasattr(self._units, '__iter__'):
        if len(set(self._units)) > 1:
            return self._units
        else:
            return self._units[0]
    else:
        return self._units

@ setter gnome.environment.timeseries_objects_base.TimeseriesVector.units
def units(self, unit):
    if unit is not None:
        if not uc.is_supported(unit):
            raise ValueError()
    self._units = unit
    if self.variables is not None:
        for v in self.variables:
            v.units = unit

@ getter gnome.environment.timeseries_objects_base.TimeseriesVector.varnames
def varnames(self):
    return [v.varname if hasattr(v, 'varname') else v.name for v in self.variables]

@ gnome.environment.timeseries_objects_base.TimeseriesVector.at
def at(self, points, time, *, units=None, extrapolate=False, **kwargs):
    units = units if units else self._gnome_unit
    val = np.column_stack([var.at(points, time, units=units, extrapolate=extrapolate, **kwargs) for var in self.variables])
    if points is None:
        return val[0]
    else:
        return val

@ const gnome.environment.timeseries_objects_base.TimeseriesData._gnome_unit
None

@ const gnome.environment.timeseries_objects_base.TimeseriesVector._gnome_unit
None

## R7 gridded values: units, extrapolation, rotation by the grid angle, ice, memo, dry points and depth
@ gnome.environment.gridded_objects_base.Variable.at | ignore_exc=False
def at(self, points, time, *, units=None, extrapolate=None, unmask=True, **kwargs):
    if extrapolate is None:
        extrapolate = self.extrapolation_is_allowed
    value = super(Variable, self).at(points, time, units=units, extrapolate=extrapolate, unmask=unmask, **kwargs)
    data_units = self.units if self.units else self._gnome_unit
    req_units = units if units else self._gnome_unit
    if data_units is not None and req_units is not None and (data_units != req_units):
        try:
            value = uc.convert(data_units, req_units, value)
        except uc.NotSupportedUnitError:
            if not uc.is_supported(data_units):
                pass
            elif not uc.is_supported(req_units):
                pass
            else:
                raise
    return value

@ gnome.environment.gridded_objects_base.Variable.__init__
def __init__(self, extrapolation_is_allowed=False, surface_boundary_condition='extrapolate', bottom_boundary_condition='mask', *args, **kwargs):
    super().__init__(*args, surface_boundary_condition=surface_boundary_condition, bottom_boundary_condition=bottom_boundary_condition, **kwargs)
    self.extrapolation_is_allowed = extrapolation_is_allowed

@ gnome.environment.gridded_objects_base.Variable.constant
def constant(cls, value, **kwargs):
    Grid = Grid_S
    Time = cls._default_component_types['time']
    _data = np.full((3, 3), value)
    _node_lon = np.array(([-360, 0, 360], [-360, 0, 360], [-360, 0, 360]))
    _node_lat = np.array(([-89.95, -89.95, -89.95], [0, 0, 0], [89.95, 89.95, 89.95]))
    _grid = Grid(node_lon=_node_lon, node_lat=_node_lat)
    _time = Time.constant_time()
    return cls(grid=_grid, time=_time, data=_data, fill_value=value, **kwargs)

@ getter gnome.environment.gridded_objects_base.Variable.extrapolation_is_allowed
def extrapolation_is_allowed(self):
    if self.time is not None:
        return self.time.min_time == self.time.max_time or self._extrapolation_is_allowed
    else:
        return self._extrapolation_is_allowed

@ setter gnome.environment.gridded_objects_base.Variable.extrapolation_is_allowed
def extrapolation_is_allowed(self, e):
    self._extrapolation_is_allowed = e

@ getter gnome.environment.gridded_objects_base.Variable.data_start | ignore_exc=False
def data_start(self):
    return self.time.min_time.replace(tzinfo=None)

@ getter gnome.environment.gridded_objects_base.Variable.data_stop | ignore_exc=False
def data_stop(self):
    return self.time.max_time.replace(tzinfo=None)

@ gnome.environment.gridded_objects_base.Variable._get_timezone_offset
def _get_timezone_offset(self):
    if not hasattr(self, 'time') or self.time is None:
        return TZOffset()
    return TZOffset(offset=self.time.tz_offset, title=self.time.tz_offset_name)

@ gnome.environment.gridded_objects_base.Variable._set_timezone_offset
def _set_timezone_offset(self, tzo):
    if not hasattr(self, 'time') or self.time is None:
        return
    if tzo is None:
        tzo = TZOffset(offset=None, title='No Timezone Specified')
    self.time.tz_offset = tzo.offset
    self.time.tz_offset_name = tzo.title
    if self.depth and hasattr(self.depth, 'time') and (self.depth.time is not None):
        self.depth.time.tz_offset = tzo.offset
        self.depth.time.tz_offset_name = tzo.title

@ gnome.environment.gridded_objects_base.Variable.init_from_netCDF
def init_from_netCDF(self, filename=None, dataset=None, data_file=None, grid_file=None, varname=None, grid_topology=None, name=None, units=None, time=None, time_origin=None, grid=None, depth_index=None, depth=None, location=None, load_all=False, fill_value=0, **kwargs):
    Grid = self._default_component_types['grid']
    Time = self._default_component_types['time']
    Depth = self._default_component_types['depth']
    if filename is not None:
        try:
            filename = os.fspath(filename)
        except TypeError:
            pass
        data_file = grid_file = filename
    ds = None
    dg = None
    if dataset is None:
        if grid_file == data_file:
            ds = dg = get_dataset(grid_file)
        else:
            ds = get_dataset(data_file)
            dg = get_dataset(grid_file)
    else:
        if grid_file is not None:
            dg = get_dataset(grid_file)
        else:
            dg = dataset
        ds = dataset
    if data_file is None:
        data_file = os.path.split(ds.filepath())[-1]
    if grid is None:
        grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
    if varname is None:
        varname = self._gen_varname(data_file, dataset=ds)
        if varname is None:
            raise NameError()
    data = ds[varname]
    if units is None:
        try:
            units = data.units
        except AttributeError:
            units = None
    if time is None:
        time = Time.from_netCDF(filename=data_file, dataset=ds, datavar=data)
        if time_origin is not None:
            time = Time(data=time.data, filename=time.filename, varname=time.varname, origin=time_origin)
    if isinstance(depth_index, int):
        depth = DepthBase(surface_index=depth_index)
    if depth is None:
        if isinstance(grid, (Grid_S, Grid_R)) and len(data.shape) == 4 or (isinstance(grid, Grid_U) and len(data.shape) == 3):
            depth = Depth.from_netCDF(data_file=data_file, grid_file=grid_file, grid=grid, time=time, grid_topology=grid_topology)
    if depth_index == 'surface':
        depth = DepthBase(surface_index=depth.surface_index, bottom_index=depth.bottom_index)
    if location is None:
        if hasattr(data, 'location'):
            location = data.location
    if load_all:
        data = data[:]
    self.__init__(name=name, units=units, time=time, data=data, grid=grid, depth=depth, grid_file=grid_file, data_file=data_file, fill_value=fill_value, location=location, varname=varname, **kwargs)

@ gnome.environment.gridded_objects_base.Variable.from_netCDF
def from_netCDF(cls, *args, **kwargs):
    var = cls.__new__(cls)
    var.init_from_netCDF(*args, **kwargs)
    return var

@ gnome.environment.gridded_objects_base.VectorVariable.__init__
def __init__(self, extrapolation_is_allowed=False, surface_boundary_condition='extrapolate', bottom_boundary_condition='mask', *args, **kwargs):
    super(VectorVariable, self).__init__(*args, surface_boundary_condition=surface_boundary_condition, bottom_boundary_condition=bottom_boundary_condition, **kwargs)
    self.extrapolation_is_allowed = extrapolation_is_allowed
    for var in self.variables:
        if hasattr(self, '_gnome_unit'):
            if hasattr(var, '_gnome_unit') and var._gnome_unit is not None:
                if self._gnome_unit != var._gnome_unit:
                    pass
            else:
                var._gnome_unit = self._gnome_unit

@ gnome.environment.gridded_objects_base.VectorVariable.init_from_netCDF
def init_from_netCDF(self, filename=None, varnames=None, grid_topology=None, name=None, units=None, time=None, time_origin=None, grid=None, depth=None, data_file=None, grid_file=None, dataset=None, load_all=False, variables=None, **kwargs):
    Grid = self._default_component_types['grid']
    Time = self._default_component_types['time']
    Variable = self._default_component_types['variable']
    Depth = self._default_component_types['depth']
    if filename is not None:
        try:
            filename = os.fspath(filename)
        except TypeError:
            pass
        data_file = grid_file = filename
    ds = None
    dg = None
    if dataset is None:
        if grid_file == data_file:
            ds = dg = get_dataset(grid_file)
        else:
            ds = get_dataset(data_file)
            dg = get_dataset(grid_file)
    else:
        if grid_file is not None:
            dg = get_dataset(grid_file)
        else:
            dg = dataset
        ds = dataset
    if grid is None:
        grid = Grid.from_netCDF(grid_file, dataset=dg, grid_topology=grid_topology)
        if grid.filename is None:
            grid.filename = str(grid_file)
    if varnames is None:
        varnames = self._gen_varnames(data_file, dataset=ds)
        if all([v is None for v in varnames]):
            raise ValueError()
    data = ds[varnames[0]]
    if time is None:
        time = Time.from_netCDF(filename=data_file, dataset=ds, datavar=data)
        if time_origin is not None:
            time = Time(data=time.data, filename=data_file, varname=time.varname, origin=time_origin)
    if depth is None:
        if isinstance(grid, (Grid_S, Grid_R)) and len(data.shape) == 4 or (isinstance(grid, Grid_U) and len(data.shape) == 3):
            depth = Depth.from_netCDF(data_file=data_file, grid_file=grid_file, grid=grid, dataset=dg)
    if variables is None:
        variables = []
        for vn in varnames:
            if vn is not None:
                variables.append(Variable.from_netCDF(filename=filename, varname=vn, grid_topology=grid_topology, units=units, time=time, grid=grid, depth=depth, data_file=data_file, grid_file=grid_file, dataset=ds, load_all=load_all, location=None))
    if units is None:
        units = [v.units for v in variables]
        if all((u == units[0] for u in units)):
            units = units[0]
    self.__init__(name=name, filename=filename, varnames=varnames, grid_topology=grid_topology, units=units, time=time, grid=grid, depth=depth, variables=variables, data_file=data_file, grid_file=grid_file, dataset=ds, load_all=load_all, **kwargs)

@ gnome.environment.gridded_objects_base.VectorVariable.from_netCDF
def from_netCDF(cls, *args, **kwargs):
    var = cls.__new__(cls)
    var.init_from_netCDF(*args, **kwargs)
    return var

@ gnome.environment.gridded_objects_base.VectorVariable.constant
def constant(cls, values, name=None, units=None):
    Grid = Grid_S
    Time = cls._default_component_types['time']
    _node_lon = np.array(([-360, 0, 360], [-360, 0, 360], [-360, 0, 360]))
    _node_lat = np.array(([-89.95, -89.95, -89.95], [0, 0, 0], [89.95, 89.95, 89.95]))
    _grid = Grid(node_lon=_node_lon, node_lat=_node_lat)
    _time = Time.constant_time()
    if units is None or isinstance(units, str):
        units = [units] * len(values)
    _datas = [np.full((3, 3), v) for v in values]
    _vars = [Variable(grid=_grid, units=units[i], time=_time, data=d) for i, d in enumerate(_datas)]
    return cls(name=name, grid=_grid, time=_time, variables=_vars)

@ gnome.environment.gridded_objects_base.VectorVariable._get_timezone_offset
def _get_timezone_offset(self):
    if not hasattr(self, 'time') or self.time is None:
        return TZOffset()
    return TZOffset(offset=self.time.tz_offset, title=self.time.tz_offset_name)

@ gnome.environment.gridded_objects_base.VectorVariable._set_timezone_offset
def _set_timezone_offset(self, tzo):
    if not hasattr(self, 'time') or self.time is None:
        return
    if tzo is None:
        tzo = TZOffset(offset=None, title='No Timezone Specified')
    self.time.tz_offset = tzo.offset
    self.time.tz_offset_name = tzo.title
    if self.depth and hasattr(self.depth, 'time') and (self.depth.time is not None):
        self.depth.time.tz_offset = tzo.offset
        self.depth.time.tz_offset_name = tzo.title

@ gnome.environment.gridded_objects_base.VectorVariable.at | ignore_exc=False
def at(self, points, time, *, units=None, extrapolate=None, unmask=True, **kwargs):
    units = units if units else self._gnome_unit
    if extrapolate is None:
        extrapolate = self.extrapolation_is_allowed
    value = super(VectorVariable, self).at(points, time, units=units, extrapolate=extrapolate, unmask=unmask, **kwargs)
    data_units = self.units if self.units else self._gnome_unit
    req_units = units if units else self._gnome_unit
    if data_units is not None and req_units is not None and (data_units != req_units):
        try:
            value = uc.convert(data_units, req_units, value)
        except uc.NotSupportedUnitError:
            if not uc.is_supported(data_units):
                pass
            elif not uc.is_supported(req_units):
                pass
            else:
                raise
    return value
    return value

@ gnome.environment.gridded_objects_base.VectorVariable.get_data_vectors
def get_data_vectors(self):
    raw_u = self.variables[0].data[:]
    raw_v = self.variables[1].data[:]
    if self.depth is not None:
        try:
            raw_u = raw_u[:, self.depth.surface_index]
            raw_v = raw_v[:, self.depth.surface_index]
        except IndexError:
            raw_u = raw_u[:, self.depth.surface_index - 1]
            raw_v = raw_v[:, self.depth.surface_index - 1]
    if np.any(np.array(raw_u.shape) != np.array(raw_v.shape)):
        u_padding_slice = (np.s_[:],) + self.grid.get_padding_slices(self.grid.edge1_padding)
        v_padding_slice = (np.s_[:],) + self.grid.get_padding_slices(self.grid.edge2_padding)
        raw_u = np.ma.filled(raw_u[u_padding_slice], 0)
        raw_v = np.ma.filled(raw_v[v_padding_slice], 0)
        raw_u = (raw_u[:, :, 0:-1] + raw_u[:, :, 1:]) / 2
        raw_v = (raw_v[:, 0:-1, :] + raw_v[:, 1:, :]) / 2
    if isinstance(self.grid, Grid_S) and self.grid.center_mask is not None:
        ctr_padding_slice = self.grid.get_padding_slices(self.grid.center_padding)
        if self.grid._cell_tree_mask is None:
            self.grid.build_celltree()
        x = raw_u[:]
        xt = x.shape[0]
        y = raw_v[:]
        yt = y.shape[0]
        if raw_u.shape[-2:] == raw_v.shape[-2:] and raw_u.shape[-2:] == self.grid.center_mask.shape:
            x = x[(np.s_[:],) + ctr_padding_slice]
            y = y[(np.s_[:],) + ctr_padding_slice]
        x = x.reshape(xt, -1)
        y = y.reshape(yt, -1)
        ctr_mask = gridded.utilities.gen_celltree_mask_from_center_mask(self.grid.center_mask, ctr_padding_slice)
        x = np.ma.MaskedArray(x, mask=np.tile(ctr_mask.reshape(-1), xt))
        y = np.ma.MaskedArray(y, mask=np.tile(ctr_mask.reshape(-1), yt))
        x = x.compressed().reshape(xt, -1)
        y = y.compressed().reshape(yt, -1)
        r = np.ma.concatenate((x[None, :], y[None, :]))
        return np.ascontiguousarray(r.astype(np.float32))
    else:
        raw_u = np.ma.filled(raw_u, 0).reshape(raw_u.shape[0], -1)
        raw_v = np.ma.filled(raw_v, 0).reshape(raw_v.shape[0], -1)
        r = np.stack((raw_u, raw_v))
        return np.ascontiguousarray(r, np.float32)

@ getter gnome.environment.gridded_objects_base.VectorVariable.extrapolation_is_allowed
def extrapolation_is_allowed(self):
    if self.time is not None:
        return self.time.min_time == self.time.max_time or self._extrapolation_is_allowed
    else:
        return self._extrapolation_is_allowed

@ setter gnome.environment.gridded_objects_base.VectorVariable.extrapolation_is_allowed
def extrapolation_is_allowed(self, e):
    self._extrapolation_is_allowed = e

@ getter gnome.environment.gridded_objects_base.VectorVariable.data_start | ignore_exc=False
def data_start(self):
    try:
        return self.time.min_time.replace(tzinfo=None)
    except TypeError:
        return self.time.min_time

@ getter gnome.environment.gridded_objects_base.VectorVariable.data_stop | ignore_exc=False
def data_stop(self):
    try:
        return self.time.max_time.replace(tzinfo=None)
    except TypeError:
        return self.time.max_time

@ gnome.environment.gridded_objects_base.VectorVariable._get_shared_vars
def _get_shared_vars(cls, *sh_args):
    default_shared = ['dataset', 'data_file', 'grid_file', 'grid']
    if len(sh_args) != 0:
        shared = sh_args
    else:
        shared = default_shared

    def getvars(func):

        @wraps(func)
        def wrapper(*args, **kws):

            def _mod(n):
                k = kws
                s = shared
                return n in s and (n not in k or (n in k and k[n] is None))
            if 'filename' in kws and kws['filename'] is not None:
                kws['data_file'] = kws['grid_file'] = kws['filename']
            ds = dg = None
            if _mod('dataset'):
                if 'grid_file' in kws and 'data_file' in kws:
                    if kws['grid_file'] == kws['data_file']:
                        ds = dg = gridded.utilities.get_dataset(kws['grid_file'])
                    else:
                        ds = gridded.utilities.get_dataset(kws['data_file'])
                        dg = gridded.utilities.get_dataset(kws['grid_file'])
                kws['dataset'] = ds
            else:
                if 'grid_file' in kws and kws['grid_file'] is not None:
                    dg = gridded.utilities.get_dataset(kws['grid_file'])
                else:
                    dg = kws['dataset']
                ds = kws['dataset']
            if _mod('grid'):
                gt = kws.get('grid_topology', None)
                kws['grid'] = PyGrid.from_netCDF(kws['filename'], dataset=dg, grid_topology=gt)
            if kws.get('varnames', None) is None:
                varnames = cls._gen_varnames(kws['data_file'], dataset=ds)
            return func(*args, **kws)
        return wrapper
    return getvars

@ gnome.environment.environment_objects.SteadyUniformCurrent.__init__
def __init__(self, speed, direction, units='m/s', name='Steady_Uniform_Current'):
    super().__init__(self, name=name)
    if units != 'm/s':
        speed = uc.convert(units, 'm/s', speed)
    self.units = 'm/s'
    self._speed = speed
    self._direction = direction
    self._set_uv()

@ gnome.environment.environment_objects.SteadyUniformCurrent._set_uv
def _set_uv(self):
    dir = math.radians(self._direction)
    self._u = self._speed * round(math.sin(dir), 15)
    self._v = self._speed * round(math.cos(dir), 15)

@ getter gnome.environment.environment_objects.SteadyUniformCurrent.speed
def speed(self):
    return self._speed

@ setter gnome.environment.environment_objects.SteadyUniformCurrent.speed
def speed(self, speed):
    self._speed = speed
    self._set_uv()

@ getter gnome.environment.environment_objects.SteadyUniformCurrent.direction
def direction(self):
    return self._direction

@ setter gnome.environment.environment_objects.SteadyUniformCurrent.direction
def direction(self, direction):
    self._direction = direction
    self._set_uv()

@ getter gnome.environment.environment_objects.SteadyUniformCurrent.u
def u(self):
    return self._u

@ getter gnome.environment.environment_objects.SteadyUniformCurrent.v
def v(self):
    return self._v

@ gnome.environment.environment_objects.SteadyUniformCurrent.at
def at(self, points, time, *, units=None, extrapolate=None, **kwargs):
    dimensionality = len(points[0])
    vel = np.zeros((len(points), dimensionality), dtype=np.float64)
    vel[:, 0] = self.u
    vel[:, 1] = self.v
    return vel

@ gnome.environment.environment_objects.VelocityGrid.__init__
def __init__(self, angle=None, **kwargs):
    if 'variables' in kwargs:
        variables = kwargs['variables']
        if len(variables) == 2:
            variables = [*variables, TimeseriesData(name='constant w', data=[0.0], time=Time.constant_time(), units='m/s')]
        kwargs['variables'] = variables
    if angle is None:
        df = None
        if kwargs.get('dataset', None) is not None:
            df = kwargs['dataset']
        elif kwargs.get('grid_file', None) is not None:
            df = gridded.utilities.get_dataset(kwargs['grid_file'])
        if df is not None and 'angle' in df.variables.keys():
            units = df['angle'].units if hasattr(df['angle'], 'units') else 'radians'
            self.angle = Variable(name='angle', units=units, time=Time.constant_time(), grid=kwargs['grid'], data=df['angle'])
            self.angle._gnome_unit = 'radians'
        else:
            self.angle = None
    else:
        self.angle = angle
    super(VelocityGrid, self).__init__(**kwargs)

@ gnome.environment.environment_objects.VelocityGrid._set_timezone_offset
def _set_timezone_offset(self, offset):
    super(VelocityGrid, self)._set_timezone_offset(offset)
    if self.angle is not None:
        self.angle._set_timezone_offset(offset)

@ gnome.environment.environment_objects.VelocityGrid.get_data_vectors
def get_data_vectors(self):
    if hasattr(self, 'angle') and self.angle:
        raw_uv = super(VelocityGrid, self).get_data_vectors()
        lin_u = raw_uv[0, :, :]
        lin_v = raw_uv[1, :, :]
        raw_ang = self.angle.data[:]
        angle_padding_slice = self.grid.get_padding_slices(self.grid.center_padding)
        raw_ang = raw_ang[angle_padding_slice]
        if 'degree' in self.angle.units:
            raw_ang = raw_ang * np.pi / 180.0
        if self.grid.center_mask is not None:
            ctr_mask = gridded.utilities.gen_celltree_mask_from_center_mask(self.grid.center_mask, angle_padding_slice)
            ctr_mask = ctr_mask.reshape(-1)
        else:
            ctr_mask = False
        ang = raw_ang.reshape(-1)
        ang = np.ma.MaskedArray(ang, mask=ctr_mask)
        ang = ang.compressed()
        x = lin_u[:] * np.cos(ang) - lin_v[:] * np.sin(ang)
        y = lin_u[:] * np.sin(ang) + lin_v[:] * np.cos(ang)
        r = np.concatenate((x[None, :], y[None, :]))
        return np.ascontiguousarray(r.astype(np.float32))
    else:
        return super(VelocityGrid, self).get_data_vectors()

@ gnome.environment.environment_objects.VelocityGrid.get_bounds
def get_bounds(self):
    lon_max = self.grid.node_lon.max()
    lon_min = self.grid.node_lon.min()
    lat_max = self.grid.node_lat.max()
    lat_min = self.grid.node_lat.min()
    return ((lon_min, lat_min), (lon_max, lat_max))

@ gnome.environment.environment_objects.GridCurrent.at
def at(self, points, time, *, units=None, extrapolate=None, **kwargs):
    _mem = kwargs['_mem'] if '_mem' in kwargs else True
    _hash = kwargs['_hash'] if '_hash' in kwargs else None
    if _hash is None:
        _hash = self._get_hash(points, time)
        if '_hash' not in kwargs:
            kwargs['_hash'] = _hash
    if _mem:
        res = self._get_memoed(points, time, self._result_memo, _hash=_hash)
        if res is not None:
            return res
    if extrapolate is None:
        extrapolate = self.extrapolation_is_allowed
    value = super(GridCurrent, self).at(points, time, units=units, extrapolate=extrapolate, **kwargs)
    if self.angle is not None:
        angs = self.angle.at(points, time, units='radians', extrapolate=extrapolate, **kwargs).reshape(-1)
        x = value[:, 0] * np.cos(angs) - value[:, 1] * np.sin(angs)
        y = value[:, 0] * np.sin(angs) + value[:, 1] * np.cos(angs)
        value[:, 0] = x
        value[:, 1] = y
    if points.shape[-1] == 3:
        value[:, 2][points[:, 2] == 0.0] = 0
    if _mem:
        self._memoize_result(points, time, value, self._result_memo, _hash=_hash)
    return value

@ gnome.environment.environment_objects.GridWind.__init__
def __init__(self, wet_dry_mask=None, *args, **kwargs):
    super(GridWind, self).__init__(*args, **kwargs)
    if wet_dry_mask is not None:
        if self.grid.infer_location(wet_dry_mask) != 'center':
            raise ValueError()
    self.wet_dry_mask = wet_dry_mask

@ gnome.environment.environment_objects.GridWind.at
def at(self, points, time, *, units=None, extrapolate=None, coord_sys='uv', _auto_align=True, **kwargs):
    pts = gridded.utilities._reorganize_spatial_data(points)
    value = None
    has_depth = pts.shape[1] > 2
    mem = kwargs['_mem'] if '_mem' in kwargs else True
    _hash = kwargs['_hash'] if '_hash' in kwargs else None
    if _hash is None:
        _hash = self._get_hash(pts, time)
        if '_hash' not in kwargs:
            kwargs['_hash'] = _hash
    if mem:
        res = self._get_memoed(pts, time, self._result_memo, _hash=_hash)
        if res is not None:
            value = res
            if _auto_align:
                value = gridded.utilities._align_results_to_spatial_data(value, points)
            return self.transform_result(value, coord_sys)
    if value is None:
        if extrapolate is None:
            extrapolate = self.extrapolation_is_allowed
        value = super(GridWind, self).at(pts, time, units=units, extrapolate=extrapolate, _auto_align=False, **kwargs)
        if has_depth:
            value[pts[:, 2] > 0.0] = 0
        if self.angle is not None:
            angs = self.angle.at(pts, time, units='radians', extrapolate=extrapolate, _auto_align=False, **kwargs).reshape(-1)
            x = value[:, 0] * np.cos(angs) - value[:, 1] * np.sin(angs)
            y = value[:, 0] * np.sin(angs) + value[:, 1] * np.cos(angs)
            value[:, 0] = x
            value[:, 1] = y
    if _auto_align:
        value = gridded.utilities._align_results_to_spatial_data(value, points)
    if mem:
        self._memoize_result(pts, time, value, self._result_memo, _hash=_hash)
    return self.transform_result(value, coord_sys)

@ gnome.environment.environment_objects.GridWind.transform_result
def transform_result(self, value, coord_sys):
    rv = value
    if coord_sys == 'u':
        rv = value[:, 0][:, None]
    elif coord_sys == 'v':
        rv = value[:, 1][:, None]
    elif coord_sys in ('r-theta', 'r', 'theta'):
        _mag = np.sqrt(value[:, 0] ** 2 + value[:, 1] ** 2)
        _dir = np.arctan2(value[:, 1], value[:, 0]) * 180.0 / np.pi
        if coord_sys == 'r':
            rv = _mag[:, None]
        elif coord_sys == 'theta':
            rv = _dir[:, None]
        else:
            rv = np.column_stack((_mag, _dir))
    return rv

@ gnome.environment.environment_objects.GridWind.get_start_time
def get_start_time(self):
    return self.time.min_time

@ gnome.environment.environment_objects.GridWind.get_end_time
def get_end_time(self):
    return self.time.max_time

@ gnome.environment.environment_objects.IceAwareCurrent.__init__
def __init__(self, ice_velocity=None, ice_concentration=None, *args, **kwargs):
    self.ice_velocity = ice_velocity
    self.ice_concentration = ice_concentration
    super(IceAwareCurrent, self).__init__(*args, **kwargs)

@ gnome.environment.environment_objects.IceAwareCurrent.from_netCDF
def from_netCDF(cls, *args, **kwargs):
    var = cls.__new__(cls)
    var.init_from_netCDF(*args, **kwargs)
    return var

@ gnome.environment.environment_objects.IceAwareCurrent.init_from_netCDF
def init_from_netCDF(self, ice_file=None, ice_concentration=None, ice_velocity=None, *args, **kwargs):
    super(IceAwareCurrent, self).init_from_netCDF(**kwargs)
    temp_fn = None
    if ice_file is not None:
        temp_fn = kwargs['filename']
        kwargs['filename'] = ice_file
        if ice_concentration is None:
            ice_concentration = IceConcentration.from_netCDF(**kwargs)
        if ice_velocity is None:
            ice_velocity = IceVelocity.from_netCDF(**kwargs)
    else:
        kwargs['time'] = self.time
        kwargs['grid'] = self.grid
        kwargs['depth'] = self.depth
        if ice_concentration is None:
            ice_concentration = IceConcentration.from_netCDF(**kwargs)
        kwargs['angle'] = self.angle
        if ice_velocity is None:
            ice_velocity = IceVelocity.from_netCDF(**kwargs)
    self.ice_concentration = ice_concentration
    self.ice_velocity = ice_velocity

@ gnome.environment.environment_objects.IceAwareCurrent.at
def at(self, points, time, *, units=None, extrapolate=None, **kwargs):
    if extrapolate is None:
        extrapolate = self.extrapolation_is_allowed
    cctn = self.ice_concentration.at(points, time, extrapolate=extrapolate, **kwargs).copy()
    water_v = super(IceAwareCurrent, self).at(points, time, units=units, extrapolate=extrapolate, **kwargs)
    if np.any(cctn >= 0.2):
        ice_mask = cctn >= 0.8
        water_mask = cctn < 0.2
        interp_mask = np.logical_and(cctn >= 0.2, cctn < 0.8)
        ice_vel_factor = cctn.copy()
        ice_vel_factor[ice_mask] = 1
        ice_vel_factor[water_mask] = 0
        ice_vel_factor[interp_mask] = (ice_vel_factor[interp_mask] - 0.2) * 10 / 6
        vels = water_v.copy()
        ice_v = self.ice_velocity.at(points, time, units=units, extrapolate=extrapolate, **kwargs).copy()
        vels[:] = vels[:] + (ice_v - water_v) * ice_vel_factor
        return vels
    else:
        return water_v

@ gnome.environment.environment_objects.IceAwareCurrent._set_timezone_offset
def _set_timezone_offset(self, offset):
    super(IceAwareCurrent, self)._set_timezone_offset(offset)
    self.ice_concentration._set_timezone_offset(offset)
    self.ice_velocity._set_timezone_offset(offset)

@ gnome.environment.environment_objects.IceAwareWind.__init__
def __init__(self, ice_concentration=None, *args, **kwargs):
    self.ice_concentration = ice_concentration
    super(IceAwareWind, self).__init__(*args, **kwargs)

@ gnome.environment.environment_objects.IceAwareWind.from_netCDF
def from_netCDF(cls, ice_concentration=None, **kwargs):
    iaw = super(IceAwareWind, cls).from_netCDF(**kwargs)
    kwargs['time'] = iaw.time
    kwargs['grid'] = iaw.grid
    kwargs['depth'] = iaw.depth
    if ice_concentration is None:
        ice_concentration = IceConcentration.from_netCDF(**kwargs)
    iaw.ice_concentration = ice_concentration
    return iaw

@ gnome.environment.environment_objects.IceAwareWind.at
def at(self, points, time, *, units=None, extrapolate=None, min_val=0, **kwargs):
    if extrapolate is None:
        extrapolate = self.extrapolation_is_allowed
    cctn = self.ice_concentration.at(points, time, extrapolate=extrapolate, **kwargs)
    wind_v = super(IceAwareWind, self).at(points, time, units=units, extrapolate=extrapolate, **kwargs)
    if kwargs.get('coord_sys', 'uv') == 'r':
        wind_v = wind_v.copy()
        wind_v[wind_v < min_val] = min_val
    if np.any(cctn >= 0.2):
        ice_mask = cctn >= 0.8
        water_mask = cctn < 0.2
        interp_mask = np.logical_and(cctn >= 0.2, cctn < 0.8)
        ice_vel_factor = cctn.copy()
        ice_vel_factor[ice_mask] = 1
        ice_vel_factor[water_mask] = 0
        ice_vel_factor[interp_mask] = (ice_vel_factor[interp_mask] - 0.2) * 10 / 6
        vels = wind_v.copy()
        vels[ice_mask.reshape(-1)] = 0
        vels[:] = vels[:] * (1 - ice_vel_factor)
        return vels
    else:
        return wind_v

@ gnome.environment.environment_objects.IceAwareWind._set_timezone_offset
def _set_timezone_offset(self, offset):
    super(IceAwareWind, self)._set_timezone_offset(offset)
    self.ice_concentration._set_timezone_offset(offset)

@ gnome.environment.environment_objects.FileGridCurrent.__init__
def __init__(self, filename=None, extrapolation_is_allowed=False, *args, **kwargs):
    if len(args) == 0 and len(kwargs) == 0:
        if filename is None:
            raise TypeError()
        filename = str(filename)
        if filename.endswith('.nc'):
            try:
                GridCurrent.init_from_netCDF(self, filename=filename, extrapolation_is_allowed=extrapolation_is_allowed, **kwargs)
            except Exception as ex:
                raise ValueError() from ex
        else:
            FileGridCurrent.init_from_gridcur(self, filename, extrapolation_is_allowed, **kwargs)
    else:
        super(FileGridCurrent, self).__init__(*args, extrapolation_is_allowed=extrapolation_is_allowed, **kwargs)
        self.filename = filename

@ gnome.environment.environment_objects.FileGridCurrent.init_from_gridcur
def init_from_gridcur(self, filename, extrapolation_is_allowed, **kwargs):
    try:
        init_from_gridcur(self, filename, extrapolation_is_allowed, **kwargs)
    except GridCurReadError as ex:
        raise ValueError() from ex

@ gnome.environment.environment_objects.IceConcentration.__init__
def __init__(self, *args, **kwargs):
    super(IceConcentration, self).__init__(*args, **kwargs)

@ gnome.environment.gridded_objects_base.Time.from_file
def from_file(cls, filename=None, **kwargs):
    if isinstance(filename, list):
        filename = filename[0]
    t = []
    with open(filename, 'r') as fd:
        for line in fd:
            line = line.rstrip()
            if line is not None:
                t.append(datetime.datetime.strptime(line, '%c'))
    return Time(t)

@ gnome.environment.gridded_objects_base.Grid_S.__init__
def __init__(self, use_masked_boundary=True, *args, **kwargs):
    super(Grid_S, self).__init__(*args, use_masked_boundary=use_masked_boundary, **kwargs)

@ gnome.environment.gridded_objects_base.PyGrid.from_netCDF
def from_netCDF(*args, **kwargs):
    kwargs['_default_types'] = (('ugrid', Grid_U), ('sgrid', Grid_S), ('rgrid', Grid_R))
    return gridded.grids.Grid.from_netCDF(*args, **kwargs)

@ gnome.environment.gridded_objects_base.PyGrid._get_grid_type
def _get_grid_type(*args, **kwargs):
    kwargs['_default_types'] = (('ugrid', Grid_U), ('sgrid', Grid_S), ('rgrid', Grid_R))
    return gridded.grids.Grid._get_grid_type(*args, **kwargs)

@ const gnome.environment.environment_objects.SteadyUniformCurrent._ref_as
'current'

@ const gnome.environment.environment_objects.SteadyUniformCurrent.data_start
MinusInfTime

@ const gnome.environment.environment_objects.SteadyUniformCurrent.data_stop
InfTime

@ const gnome.environment.environment_objects.VelocityGrid._gnome_unit
'm/s'

@ const gnome.environment.environment_objects.VelocityGrid.comp_order
['u', 'v', 'w']

@ const gnome.environment.environment_objects.GridTemperature.default_names
nc_names['grid_temperature']['default_names']

@ const gnome.environment.environment_objects.GridTemperature.cf_names
nc_names['grid_temperature']['cf_names']

@ const gnome.environment.environment_objects.GridTemperature._gnome_unit
'K'

@ const gnome.environment.environment_objects.GridTemperature._default_unit_type
'Temperature'

@ const gnome.environment.environment_objects.GridSalinity.default_names
nc_names['grid_salinity']['default_names']

@ const gnome.environment.environment_objects.GridSalinity.cf_names
nc_names['grid_salinity']['cf_names']

@ const gnome.environment.environment_objects.GridSalinity._gnome_unit
'ppt'

@ const gnome.environment.environment_objects.GridSediment._gnome_unit
'ppt'

@ const gnome.environment.environment_objects.GridSediment.default_names
nc_names['grid_sediment']['default_names']

@ const gnome.environment.environment_objects.IceConcentration._ref_as
['ice_concentration', 'ice_aware']

@ const gnome.environment.environment_objects.IceConcentration.default_names
nc_names['ice_concentration']['default_names']

@ const gnome.environment.environment_objects.IceConcentration.cf_names
nc_names['ice_concentration']['cf_names']

@ const gnome.environment.environment_objects.IceConcentration._gnome_unit
'fraction'

@ const gnome.environment.environment_objects.Bathymetry._gnome_unit
'm'

@ const gnome.environment.environment_objects.Bathymetry.default_names
nc_names['bathymetry']['default_names']

@ const gnome.environment.environment_objects.Bathymetry.cf_names
nc_names['bathymetry']['cf_names']

@ const gnome.environment.environment_objects.GridCurrent._ref_as
'current'

@ const gnome.environment.environment_objects.GridCurrent._gnome_unit
'm/s'

@ const gnome.environment.environment_objects.GridCurrent.default_names
nc_names['grid_current']['default_names']

@ const gnome.environment.environment_objects.GridCurrent.cf_names
nc_names['grid_current']['cf_names']

@ const gnome.environment.environment_objects.GridWind._ref_as
'wind'

@ const gnome.environment.environment_objects.GridWind._gnome_unit
'm/s'

@ const gnome.environment.environment_objects.GridWind.default_names
nc_names['grid_wind']['default_names']

@ const gnome.environment.environment_objects.GridWind.cf_names
nc_names['grid_wind']['cf_names']

@ const gnome.environment.environment_objects.IceVelocity._ref_as
['ice_velocity', 'ice_aware']

@ const gnome.environment.environment_objects.IceVelocity._gnome_unit
'm/s'

@ const gnome.environment.environment_objects.IceVelocity.default_names
nc_names['ice_velocity']['default_names']

@ const gnome.environment.environment_objects.IceVelocity.cf_names
nc_names['ice_velocity']['cf_names']

@ const gnome.environment.environment_objects.IceAwareCurrent._ref_as
['current', 'ice_aware']

@ const gnome.environment.environment_objects.IceAwareCurrent._req_refs
{'ice_concentration': IceConcentration, 'ice_velocity': IceVelocity}

@ const gnome.environment.environment_objects.IceAwareWind._ref_as
['wind', 'ice_aware']

@ const gnome.environment.environment_objects.IceAwareWind._req_refs
{'ice_concentration': IceConcentration}

## R8 gridcur files are read and written as the format says
@ func gnome.environment.gridcur.from_gridcur
def from_gridcur(filename, extrapolation_is_allowed=False, **kwargs):
    from .environment_objects import GridCurrent
    gc = GridCurrent.__new__(GridCurrent)
    init_from_gridcur(gc, filename, extrapolation_is_allowed, **kwargs)
    return gc

@ func gnome.environment.gridcur.init_from_gridcur
def init_from_gridcur(gc, filename, extrapolation_is_allowed=False, **kwargs):
    data_type, units, times, lon, lat, data_u, data_v = read_file(filename)
    if (len(lon), len(lat)) == data_u[0].shape and data_u[0].shape == data_v[0].shape:
        location = 'node'
    elif (len(lon) - 1, len(lat) - 1) == data_u[0].shape and data_u[0].shape == data_v[0].shape:
        location = 'face'
        raise NotImplementedError()
    else:
        raise ValueError()
    grid = Grid_R(node_lon=lon, node_lat=lat)
    time = Time(data=times)
    U = Variable(name=f'eastward surface velocity', units=units, time=time, data=data_u, grid=grid, varname='u', location=location, attributes=None)
    V = Variable(name=f'northward surface velocity', units=units, time=time, data=data_v, grid=grid, varname='v', location=location, attributes=None)
    name = kwargs.pop('name', f'gridcur {data_type}')
    gc.__init__(name=name, filename=filename, units=units, time=time, variables=[U, V], varnames=('u', 'v'), extrapolation_is_allowed=extrapolation_is_allowed, **kwargs)

@ func gnome.environment.gridcur.read_file
def read_file(filename):
    times = []
    data_u = []
    data_v = []
    grid_info = {}
    try:
        with open(filename, encoding='utf-8') as infile:
            for line in infile:
                key = line.split()[0].strip('[]')
                if key in data_types:
                    data_type = data_types[key]
                    units = line.split()[1].strip()
                    break
            else:
                raise ValueError()
            for line in infile:
                if line.strip().startswith('[TIME]'):
                    break
                data = line.split()
                grid_info[data[0].strip()] = float(data[1])
            while True:
                if line.strip().startswith('[TIME]'):
                    time = [int(num) for num in line.split()[1:]]
                    times.append(datetime(time[2], time[1], time[0], time[3], time[4]))
                    lon, lat, U, V = make_grid_arrays(grid_info)
                    data_u.append(U)
                    data_v.append(V)
                    line = infile.readline()
                    continue
                elif not line:
                    break
                data = line.split()
                row = int(data[0]) - 1
                col = int(data[1]) - 1
                u = float(data[2])
                v = float(data[3])
                U[row, col] = u
                V[row, col] = v
                line = infile.readline()
            data_u = np.array(data_u)
            data_v = np.array(data_v)
    except Exception as ex:
        raise GridCurReadError from ex
    return (data_type, units, times, lon, lat, data_u, data_v)

@ func gnome.environment.gridcur.write_gridcur
def write_gridcur(filename, data_type, units, times, lon, lat, data_u, data_v):
    if (len(lon), len(lat)) == (data_u[0].shape[0], data_u[0].shape[1]):
        location = 'nodes'
    elif (len(lon), len(lat)) == (data_u[0].shape[0] + 1, data_u[0].shape[1] + 1):
        location = 'cells'
    else:
        raise ValueError()
    with open(filename, 'w', encoding='utf-8') as outfile:
        outfile.write(f'[{data_type_tags[data_type]}] ')
        outfile.write(f'{units}\n')
        outfile.write(f'NUMROWS {data_u[0].shape[0]}\n')
        outfile.write(f'NUMCOLS {data_u[0].shape[1]}\n')
        if location == 'cells':
            outfile.write(f'LOLAT {lat[0]}\n')
            outfile.write(f'HILAT {lat[-1]}\n')
            outfile.write(f'LOLONG {lon[0]}\n')
            outfile.write(f'HILONG {lon[-1]}\n')
        elif location == 'nodes':
            outfile.write(f'STARTLAT {lat[0]}\n')
            outfile.write(f'STARTLONG {lon[0]}\n')
            outfile.write(f'DLAT {(lat[-1] - lat[0]) / (len(lat) - 1)}\n')
            outfile.write(f'DLONG {(lon[-1] - lon[0]) / (len(lon) - 1)}\n')
        for time, U, V in zip(times, data_u, data_v):
            outfile.write(f'[TIME] {time.day} {time.month} {time.year} {time.hour} {time.minute}\n')
            for row in range(U.shape[0]):
                for col in range(U.shape[1]):
                    outfile.write(f'{row + 1:4d} {col + 1:4d} {U[row, col]:10.6f} {V[row, col]:10.6f}\n')

@ func gnome.environment.gridcur.make_grid_arrays
def make_grid_arrays(grid_info):
    try:
        num_rows = int(grid_info['NUMROWS'])
        num_cols = int(grid_info['NUMCOLS'])
        if 'LOLAT' in grid_info:
            lat = np.linspace(grid_info['LOLAT'], grid_info['HILAT'], int(grid_info['NUMCOLS']) + 1)
            lon = np.linspace(grid_info['LOLONG'], grid_info['HILONG'], int(grid_info['NUMROWS']) + 1)
        elif 'STARTLAT' in grid_info:
            min_lat = grid_info['STARTLAT']
            min_lon = grid_info['STARTLONG']
            dlat = grid_info['DLAT']
            dlon = grid_info['DLONG']
            lat = np.linspace(min_lat, min_lat + dlat * (num_cols - 1), num_cols)
            lon = np.linspace(min_lon, min_lon + dlon * (num_rows - 1), num_rows)
    except KeyError:
        raise ValueError()
    U = np.zeros((num_rows, num_cols), dtype=np.float64)
    V = np.zeros((num_rows, num_cols), dtype=np.float64)
    return (lon, lat, U, V)

@ const gnome.environment.gridcur.data_types
{'GRIDCURTIME': 'currents', 'GRIDWINDTIME': 'winds'}

## R9 every environment object: timezone offset and defaults
@ gnome.environment.environment.Environment.__init__
def __init__(self, make_default_refs=True, *, timezone_offset=TZOffset(), **kwargs):
    self.make_default_refs = make_default_refs
    super().__init__(**kwargs)
    self._timezone_offset = timezone_offset
    self.array_types = {}

@ getter gnome.environment.environment.Environment.timezone_offset
def timezone_offset(self):
    return self._get_timezone_offset()

@ setter gnome.environment.environment.Environment.timezone_offset
def timezone_offset(self, value):
    if value is None or isinstance(value, TZOffset):
        self._set_timezone_offset(value)
    else:
        raise ValueError()

@ gnome.environment.environment.Environment._set_timezone_offset
def _set_timezone_offset(self, tzo):
    if tzo is None:
        tzo = TZOffset(offset=None, title='No Timezone Specified')
    self._timezone_offset = tzo

@ gnome.environment.environment.Environment._get_timezone_offset
def _get_timezone_offset(self):
    return self._timezone_offset

@ const gnome.environment.names.nc_names
{'grid_temperature': {'default_names': ['water_t', 'temp'], 'cf_names': ['sea_water_temperature', 'sea_surface_temperature']}, 'grid_salinity': {'default_names': ['salt'], 'cf_names': ['sea_water_salinity', 'sea_surface_salinity']}, 'grid_sediment': {'default_names': ['sand_06'], 'cf_names': []}, 'ice_concentration': {'default_names': ['ice_fraction', 'aice'], 'cf_names': ['sea_ice_area_fraction']}, 'bathymetry': {'default_names': ['h'], 'cf_names': ['depth']}, 'grid_current': {'default_names': {'u': ['u', 'U', 'water_u', 'curr_ucmp', 'u_surface', 'u_sur'], 'v': ['v', 'V', 'water_v', 'curr_vcmp', 'v_surface', 'v_sur'], 'w': ['w', 'W']}, 'cf_names': {'u': ['eastward_sea_water_velocity', 'surface_eastward_sea_water_velocity'], 'v': ['northward_sea_water_velocity', 'surface_northward_sea_water_velocity'], 'w': ['upward_sea_water_velocity']}}, 'grid_wind': {'default_names': {'u': ['air_u', 'Air_U', 'air_ucmp', 'wind_u', 'u-component_of_wind_height_above_ground', 'Uwind', 'u10'], 'v': ['air_v', 'Air_V', 'air_vcmp', 'wind_v', 'v-component_of_wind_height_above_ground', 'Vwind', 'v10']}, 'cf_names': {'u': ['eastward_wind', 'eastward wind'], 'v': ['northward_wind', 'northward wind']}}, 'ice_velocity': {'default_names': {'u': ['ice_u', 'uice', 'uuice'], 'v': ['ice_v', 'vice', 'vvice']}, 'cf_names': {'u': ['eastward_sea_ice_velocity'], 'v': ['northward_sea_ice_velocity']}}}


## R10 the Cython time series hand times, values, positions and settings to the native series and back
@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.__cinit__
def __cinit__(self):
    if type(self) == CyOSSMTime:
        self.time_dep = OSSMTimeValue_c()
    else:
        self.time_dep = None
    self._file_format = 0

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.__init__
def __init__(self, filename, file_format=0, scale_factor=1, extrapolation_is_allowed=False):
    if not os.path.exists(filename):
        raise IOError()
    s_filename = os.fspath(filename)
    self._file_format = file_format
    self._read_time_values(s_filename)
    self._cy_filename = s_filename
    self.time_dep.fScaleFactor = scale_factor
    self.time_dep.extrapolationIsAllowed = extrapolation_is_allowed

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.user_units
def user_units(self):
    try:
        return ossm_wind_units[self.time_dep.GetUserUnits()]
    except KeyError:
        raise ValueError()

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.filename
def filename(self):
    fname = os.fsdecode(self.time_dep.fileName)
    if fname == '':
        return None
    return fname

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.path_filename
def path_filename(self):
    fname = os.fsdecode(self.time_dep.filePath)
    return (fname, None)[fname == '']

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.scale_factor
def scale_factor(self):
    return self.time_dep.fScaleFactor

@ setter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.scale_factor
def scale_factor(self, value):
    self.time_dep.fScaleFactor = value

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.station_location
def station_location(self):
    wp = np.zeros((1,), dtype=basic_types.world_point)
    wp[0] = self.time_dep.GetStationLocation()
    if int(wp['lat'][0]) == -999:
        return None
    wp['lat'][:] = wp['lat'][:] / 1000000.0
    wp['long'][:] = wp['long'][:] / 1000000.0
    wp['z'][:] = wp['z']
    g_wp = np.zeros((1,), dtype=basic_types.world_point)
    g_wp[0] = (wp['long'][0], wp['lat'][0], 0)
    return tuple(g_wp[0])

@ setter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.station_location
def station_location(self, val):
    wp = WorldPoint3D()
    if not isinstance(val, (list, tuple)) or len(val) != 3:
        raise ValueError()
    wp.p.pLong = val[0] * 1000000.0
    wp.p.pLat = val[1] * 1000000.0
    wp.z = val[2]
    self.time_dep.fStationPosition = wp

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.station
def station(self):
    sName = self.time_dep.fStationName
    if not sName:
        return None
    return sName.decode('ascii')

@ getter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.extrapolation_is_allowed
def extrapolation_is_allowed(self):
    return self.time_dep.extrapolationIsAllowed

@ setter gnome.cy_gnome.cy_ossm_time.CyOSSMTime.extrapolation_is_allowed
def extrapolation_is_allowed(self, value):
    self.time_dep.extrapolationIsAllowed = value

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.__eq
def __eq(self, other):
    scalar_attrs = ('filename', '_file_format', 'scale_factor', 'station_location', 'user_units')
    if not all([getattr(self, a) == getattr(other, a) for a in scalar_attrs]):
        return False
    return True

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.__richcmp__
def __richcmp__(self, other, cmp):
    if cmp not in (2, 3):
        raise NotImplemented()
    if cmp == 2:
        return self.__eq(other)
    elif cmp == 3:
        return not self.__eq(other)

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.get_num_values
def get_num_values(self):
    num_values = self.time_dep.GetNumValues()
    return num_values

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime.get_time_value
def get_time_value(self, modelTime):
    modelTimeArray = np.asarray(modelTime, basic_types.seconds).reshape((-1,))
    err = 0
    vel_rec = np.empty((modelTimeArray.size,), dtype=basic_types.velocity_rec)
    for i in range(0, modelTimeArray.size):
        err = self.time_dep.GetTimeValue(modelTimeArray[i], addr(vel_rec[i]))
        if err != 0:
            raise IndexError()
    return (vel_rec, err)

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime._read_time_values
def _read_time_values(self, filename):
    file_ = filename_as_bytes(filename)
    values = basic_types.ts_format.__members__.values()
    if self._file_format not in values:
        raise ValueError()
    err = self.time_dep.ReadTimeValues(file_, self._file_format, -1)
    self._raise_errors(err)

@ gnome.cy_gnome.cy_ossm_time.CyOSSMTime._raise_errors
def _raise_errors(self, err):
    if err == 1:
        raise ValueError()
    if err == 2:
        raise ValueError()
    if err != 0:
        raise IOError()

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.__cinit__
def __cinit__(self):
    if type(self) == CyTimeseries:
        self.time_dep = OSSMTimeValue_c()
    else:
        self.time_dep = None

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.__init__
def __init__(self, filename=None, file_format=0, timeseries=None, scale_factor=1, extrapolation_is_allowed=False):
    if (filename is None or filename == '') and timeseries is None:
        timeseries = np.zeros((1,), dtype=basic_types.time_value_pair)
    if filename is not None:
        super(CyTimeseries, self).__init__(filename, file_format, scale_factor)
    else:
        self._set_time_value_handle(timeseries)
        self._file_format = 0
        self.scale_factor = scale_factor
        self.time_dep.SetUserUnits(-1)
    self.time_dep.extrapolationIsAllowed = extrapolation_is_allowed

@ getter gnome.cy_gnome.cy_ossm_time.CyTimeseries.timeseries
def timeseries(self):
    return self._get_time_value_handle()

@ setter gnome.cy_gnome.cy_ossm_time.CyTimeseries.timeseries
def timeseries(self, value):
    self._set_time_value_handle(value)

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.__eq
def __eq(self, other):
    if not super(CyTimeseries, self).__eq(other):
        return False
    vector_attrs = ('timeseries',)
    if not all([all(getattr(self, a) == getattr(other, a)) for a in vector_attrs]):
        return False
    return True

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries._set_time_value_handle
def _set_time_value_handle(self, time_val):
    if time_val is None:
        raise TypeError()
    tmp_size = sizeof(TimeValuePair)
    time_val_hdlH = _NewHandle(time_val.nbytes)
    memcpy(time_val_hdlH[0], addr(time_val[0]), time_val.nbytes)
    self.time_dep.SetTimeValueHandle(time_val_hdlH)

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries._get_time_value_handle
def _get_time_value_handle(self):
    tmp_size = sizeof(TimeValuePair)
    time_val_hdlH = self.time_dep.GetTimeValueHandle()
    sz = _GetHandleSize(time_val_hdlH)
    tval = np.empty((sz // tmp_size,), dtype=basic_types.time_value_pair)
    memcpy(addr(tval[0]), time_val_hdlH[0], sz)
    return tval

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.get_start_time
def get_start_time(self):
    err, start_time = self.time_dep.GetDataStartTime('&')
    return start_time

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.get_end_time
def get_end_time(self):
    err, end_time = self.time_dep.GetDataEndTime('&')
    return end_time

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.check_time_in_range
def check_time_in_range(self, model_time):
    err = self.time_dep.CheckStartTime(model_time)
    if err == -1:
        raise OSError()
    if err == -3:
        return False
    return True

@ gnome.cy_gnome.cy_ossm_time.CyTimeseries.create_running_average
def create_running_average(self, past_hours=3, model_time=0):
    tmp_size = sizeof(TimeValuePair)
    time_val_hdlH = self.time_dep.CalculateRunningAverage(past_hours, model_time)
    sz = _GetHandleSize(time_val_hdlH)
    tval = np.empty((sz // tmp_size,), dtype=basic_types.time_value_pair)
    memcpy(addr(tval[0]), time_val_hdlH[0], sz)
    return tval

@ gnome.cy_gnome.cy_shio_time.CyShioTime.__cinit__
def __cinit__(self):
    if type(self) == CyShioTime:
        self.time_dep = ShioTimeValue_c()
        self.shio = dynamic_cast_ptr(self.time_dep)
    else:
        self.shio = None

@ gnome.cy_gnome.cy_shio_time.CyShioTime.__init__
def __init__(self, filename, scale_factor=1, daylight_savings_off=False, yeardata=None):
    super(CyShioTime, self).__init__(filename, 0, scale_factor)
    self.shio.daylight_savings_off = daylight_savings_off
    if not yeardata:
        yeardata = os.path.join(os.path.dirname(basic_types.__file__), 'data/yeardata/')
    self.set_shio_yeardata_path(yeardata)
    self._yeardata_path = yeardata

@ gnome.cy_gnome.cy_shio_time.CyShioTime.set_shio_yeardata_path
def set_shio_yeardata_path(self, yeardata_path_):
    bsep = os.sep.encode('ASCII')
    yeardata_path = filename_as_bytes(yeardata_path_)
    if os.path.exists(yeardata_path):
        if yeardata_path[-1] != bsep:
            yeardata_path = os.path.normpath(yeardata_path) + bsep
        err = self.shio.SetYearDataPath(yeardata_path)
        if err != 0:
            raise ValueError()
    else:
        raise IOError()

@ gnome.cy_gnome.cy_shio_time.CyShioTime._read_time_values
def _read_time_values(self, filename):
    file_ = filename_as_bytes(filename)
    err = self.shio.ReadShioValues(file_)
    self._raise_errors(err)

@ getter gnome.cy_gnome.cy_shio_time.CyShioTime.daylight_savings_off
def daylight_savings_off(self):
    return self.shio.daylight_savings_off

@ setter gnome.cy_gnome.cy_shio_time.CyShioTime.daylight_savings_off
def daylight_savings_off(self, value):
    self.shio.daylight_savings_off = value

@ getter gnome.cy_gnome.cy_shio_time.CyShioTime.yeardata
def yeardata(self):
    return os.fsdecode(self.shio.fYearDataPath)

@ setter gnome.cy_gnome.cy_shio_time.CyShioTime.yeardata
def yeardata(self, value):
    self.set_shio_yeardata_path(value)

@ getter gnome.cy_gnome.cy_shio_time.CyShioTime.station_type
def station_type(self):
    sType = self.shio.fStationType
    return sType.decode('ascii')

@ gnome.cy_gnome.cy_shio_time.CyShioTime.__eq
def __eq(self, other):
    attrs = ('filename', 'daylight_savings_off', 'scale_factor', 'station', 'station_type', 'station_location', 'yeardata')
    return all([getattr(self, a) == getattr(other, a) for a in attrs])

@ gnome.cy_gnome.cy_shio_time.CyShioTime.__richcmp__
def __richcmp__(self, other, cmp):
    if cmp not in (2, 3):
        raise NotImplemented()
    if cmp == 2:
        return self.__eq(other)
    elif cmp == 3:
        return not self.__eq(other)


## R11 native time series evaluate as their references do
@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetTimeFileName
def GetTimeFileName(self, theName):
    strcpy(theName, self.fileName)

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetFileType
def GetFileType(self):
    if self.fFileType == PROGRESSIVETIDEFILE:
        return SHIOHEIGHTSFILE
    else:
        return self.fFileType

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.SetFileType
def SetFileType(self, fileType):
    self.fFileType = fileType

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetTimeValueHandle
def GetTimeValueHandle(self):
    return self.timeValues

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetUserUnits
def GetUserUnits(self):
    return self.fUserUnits

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.SetUserUnits
def SetUserUnits(self, userUnits):
    self.fUserUnits = userUnits

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetStationLocation
def GetStationLocation(self):
    return copy.copy(self.fStationPosition)

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetLocationInTideCycle
def GetLocationInTideCycle(self, model_time, ebbFloodType, fraction):
    ebbFloodType[0] = 0
    fraction[0] = 0
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.__init__
def __init__(self):
    self.fileName[0] = 0
    self.filePath[0] = 0
    self.fFileType = OSSMTIMEFILE
    self.timeValues = None
    self.fUserUnits = -1
    self.fScaleFactor = 0
    self.fStationName[0] = 0
    self.fStationPosition.p.pLat = -999
    self.fStationPosition.p.pLong = -999
    self.fStationPosition.z = 0
    self.bOSSMStyle = True
    self.extrapolationIsAllowed = False
    self.fTransport = 0
    self.fVelAtRefPt = 0
    self.fInterpolationType = LINEAR

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.InitTimeFunc
def InitTimeFunc(self):
    return self.InitTimeFunc()

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetTimeValue
def GetTimeValue(self, forTime, value):
    err = 0
    timeValue = '?timeValue'
    if not self.timeValues or _GetHandleSize(self.timeValues) == 0:
        value.u = 0
        value.v = 0
        return -1
    if self.extrapolationIsAllowed:
        timeValue = self.ClampToTimeRange(forTime)
    else:
        timeValue = forTime
    err = self.GetInterpolatedComponent(timeValue, addr(value.u), 0)
    if err != 0:
        return err
    err = self.GetInterpolatedComponent(timeValue, addr(value.v), 1)
    if err != 0:
        return err
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ClampToTimeRange
def ClampToTimeRange(self, time):
    start_time = '?start_time'
    end_time = '?end_time'
    _, start_time = self.GetDataStartTime(start_time)
    _, end_time = self.GetDataEndTime(end_time)
    if time < start_time:
        return start_time
    if time > end_time:
        return end_time
    return time

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.SetTimeValueHandle
def SetTimeValueHandle(self, t):
    if self.timeValues and t != self.timeValues:
        _DisposeHandleReally(self.timeValues)
    self.timeValues = t

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.RescaleTimeValues
def RescaleTimeValues(self, oldScaleFactor, newScaleFactor):
    numValues = self.GetNumValues()
    tv = TimeValuePair()
    for i in range(0, numValues):
        tv = copy.copy(self.timeValues[0][i])
        tv.value.u = tv.value.u / oldScaleFactor
        tv.value.v = tv.value.v / oldScaleFactor
        tv.value.u = tv.value.u * newScaleFactor
        tv.value.v = tv.value.v * newScaleFactor
        self.timeValues[0][i] = copy.copy(tv)
    return

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetInterpolatedComponent
def GetInterpolatedComponent(self, forTime, value, index):
    err = 0
    startIndex = '?startIndex'
    midIndex = '?midIndex'
    endIndex = '?endIndex'
    a = '?a'
    b = '?b'
    n = '?n'
    dv = '?dv'
    slope = '?slope'
    slope1 = '?slope1'
    slope2 = '?slope2'
    intercept = '?intercept'
    dt = '?dt'
    linear = False
    n = self.GetNumValues()
    if n == 1:
        value[0] = UorV(copy.copy(self.timeValues[0][0].value), index)
        return 0
    if n == 2:
        a = 0
        b = 1
        linear = True
    if forTime < self.timeValues[0][0].time:
        err = -1
        value[0] = 0
        return err
        value[0] = UorV(copy.copy(self.timeValues[0][0].value), index)
        return 0
    if forTime > self.timeValues[0][n - 1].time:
        err = -1
        value[0] = 0
        return err
        value[0] = UorV(copy.copy(self.timeValues[0][n - 1].value), index)
        return 0
    if linear:
        err, dt = self.GetTimeChange(a, b, dt)
        if err != 0:
            return err
        dv = UorV(copy.copy(self.timeValues[0][b].value), index) - UorV(copy.copy(self.timeValues[0][a].value), index)
        slope = dv / dt
        intercept = UorV(copy.copy(self.timeValues[0][a].value), index) - slope * self.timeValues[0][a].time
        value[0] = slope * forTime + intercept
        return 0
    startIndex = 0
    endIndex = n - 1
    while endIndex - startIndex > 3:
        midIndex = (startIndex + endIndex) // 2
        if forTime <= self.timeValues[0][midIndex].time:
            endIndex = midIndex
        else:
            startIndex = midIndex
    for i in range(startIndex, n):
        if forTime <= self.timeValues[0][i].time:
            dt = self.timeValues[0][i].time - forTime
            if dt <= 1e-05:
                value[0] = UorV(copy.copy(self.timeValues[0][i].value), index)
                return 0
            a = i - 1
            b = i
            break
    dv = UorV(copy.copy(self.timeValues[0][b].value), index) - UorV(copy.copy(self.timeValues[0][a].value), index)
    if abs(dv) < 1e-05:
        value[0] = UorV(copy.copy(self.timeValues[0][b].value), index)
        return 0
    err, dt = self.GetTimeChange(a, b, dt)
    if err != 0:
        return err
    if self.fInterpolationType == LINEAR:
        slope = dv / dt
        intercept = UorV(copy.copy(self.timeValues[0][a].value), index) - slope * self.timeValues[0][a].time
        value[0] = slope * forTime + intercept
        return 0
    if b == 1:
        slope1 = dv / dt
        dv = UorV(copy.copy(self.timeValues[0][2].value), index) - UorV(copy.copy(self.timeValues[0][1].value), index)
        err, dt = self.GetTimeChange(1, 2, dt)
        if err != 0:
            return err
        slope2 = dv / dt
        slope2 = 0.5 * (slope1 + slope2)
    elif b == n - 1:
        slope2 = dv / dt
        dv = UorV(copy.copy(self.timeValues[0][n - 2].value), index) - UorV(copy.copy(self.timeValues[0][n - 3].value), index)
        err, dt = self.GetTimeChange(n - 3, n - 2, dt)
        if err != 0:
            return err
        slope1 = dv / dt
        slope1 = 0.5 * (slope1 + slope2)
    else:
        slope = dv / dt
        dv = UorV(copy.copy(self.timeValues[0][b + 1].value), index) - UorV(copy.copy(self.timeValues[0][b].value), index)
        err, dt = self.GetTimeChange(b, b + 1, dt)
        if err != 0:
            return err
        slope2 = dv / dt
        dv = UorV(copy.copy(self.timeValues[0][a].value), index) - UorV(copy.copy(self.timeValues[0][a - 1].value), index)
        err, dt = self.GetTimeChange(a - 1, a, dt)
        if err != 0:
            return err
        slope1 = dv / dt
        slope1 = 0.5 * (slope1 + slope)
        slope2 = 0.5 * (slope2 + slope)
    value[0] = Hermite(UorV(copy.copy(self.timeValues[0][a].value), index), slope1, self.timeValues[0][a].time, UorV(copy.copy(self.timeValues[0][b].value), index), slope2, self.timeValues[0][b].time, forTime)
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetTimeChange
def GetTimeChange(self, a, b, dt):
    if a < b:
        dt[0] = self.timeValues[0][b].time - self.timeValues[0][a].time
    else:
        dt[0] = self.timeValues[0][a].time - self.timeValues[0][b].time
    if dt[0] == 0:
        msg = carray('char[256]')
        timeS = carray('char[128]')
        time = DateTimeRec()
        memset(msg, 0, 256)
        memset(timeS, 0, 128)
        SecondsToDate(self.timeValues[0][a].time, time)
        Date2String(time, timeS)
        p = strrchr(timeS, 58)
        if bool(p):
            p[0] = 0
        snprintf(msg, sizeof('char[256]'), '"Duplicate times in time/value table.%s%s%s"', '"\\r\\n"', timeS, '"\\r\\n"')
        SecondsToDate(self.timeValues[0][b].time, time)
        Date2String(time, timeS)
        p = strrchr(timeS, 58)
        if bool(p):
            p[0] = 0
        strcat(msg, timeS)
        printf('"%s"', msg)
        return -1
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetDataStartTime
def GetDataStartTime(self, startTime):
    err = 0
    startTime[0] = 0
    if not self.timeValues or _GetHandleSize(self.timeValues) == 0:
        return -1
    startTime[0] = self.timeValues[0][0].time
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetDataEndTime
def GetDataEndTime(self, endTime):
    err = 0
    n = self.GetNumValues()
    endTime[0] = 0
    if not self.timeValues or _GetHandleSize(self.timeValues) == 0:
        return -1
    endTime[0] = self.timeValues[0][n - 1].time
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.CheckStartTime
def CheckStartTime(self, forTime):
    n = self.GetNumValues()
    if not self.timeValues or _GetHandleSize(self.timeValues) == 0:
        return -1
    if n == 1:
        return -2
    if forTime < self.timeValues[0][0].time:
        return -3
    if forTime > self.timeValues[0][n - 1].time:
        return -3
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetNumValues
def GetNumValues(self):
    return 0 if not self.timeValues else _GetHandleSize(self.timeValues) // sizeof('TimeValuePair')

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.GetMaxValue
def GetMaxValue(self):
    tv = TimeValuePair()
    val = '?val'
    maxval = -1
    numValues = self.GetNumValues()
    for i in range(0, numValues):
        tv = copy.copy(self.timeValues[0][i])
        val = math.sqrt(tv.value.v * tv.value.v + tv.value.u * tv.value.u)
        if val > maxval:
            maxval = val
    return maxval

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadNCDCWind
def ReadNCDCWind(self, path):
    err = 0
    scanErr = '?scanErr'
    numDataLines = '?numDataLines'
    numHeaderLines = 1
    numValues = '?numValues'
    numLines = '?numLines'
    numScanned = '?numScanned'
    value1 = '?value1'
    value2 = '?value2'
    magnitude = '?magnitude'
    degrees = '?degrees'
    conversionFactor = 0.44704
    format = M19DEGREESMAGNITUDE
    time = DateTimeRec()
    pair = TimeValuePair()
    s = carray('char[512]')
    value1S = carray('char[256]')
    value2S = carray('char[256]')
    timeStr = carray('char[256]')
    stationStr = carray('char[256]')
    hdrStr = carray('char[256]')
    memset(s, 0, 512)
    memset(value1S, 0, 256)
    memset(value2S, 0, 256)
    memset(timeStr, 0, 256)
    memset(stationStr, 0, 256)
    memset(hdrStr, 0, 256)
    err, f = ReadFileContents(TERMINATED, 0, 0, path, None, 0, f)
    if err != 0:
        printf('"%s"', '"TOSSMTimeValue::ReadNCDCWind()"')
        if f:
            _DisposeHandleReally(f)
            f = None
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    numLines = NumLinesInText(f[0])
    numDataLines = numLines - numHeaderLines
    self.SetUserUnits(3)
    self.timeValues = _NewHandle(numDataLines * sizeof('TimeValuePair'))
    if not self.timeValues:
        err = -1
        printf('"%s"', '"TOSSMTimeValue::ReadNCDCWind()"')
        if f:
            _DisposeHandleReally(f)
            f = None
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    time.second = 0
    numValues = 0
    for i in range(0, numLines):
        NthLineInTextOptimized(f[0], i, s, 512)
        if i < numHeaderLines:
            continue
        if i % 200 == 0:
            MySpinCursor()
        RemoveLeadingAndTrailingWhiteSpace(s)
        if s[0] == 0:
            continue
        numScanned = sscanf(s, '"%s %s %s %s %s"', stationStr, hdrStr, timeStr, value1S, value2S)
        if numScanned < 5:
            err = -1
            printf('"%s"', '"TOSSMTimeValue::ReadNDBCWind()"')
            if f:
                _DisposeHandleReally(f)
                f = None
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        if not strncmp(value1S, '"***"', strlen('"***"')) or not strncmp(value2S, '"***"', strlen('"***"')):
            continue
        numScanned = sscanf(timeStr, '"%4hd %2hd %2hd %2hd %2hd"', addr(time.year), addr(time.month), addr(time.day), addr(time.hour), addr(time.minute))
        if numScanned < 5:
            err = -1
            printf('"%s"', '"TOSSMTimeValue::ReadNDBCWind()"')
            if f:
                _DisposeHandleReally(f)
                f = None
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        time.second = 0
        time.minute = time.second
        if ((time.day < 1 or time.day > 31) or time.month < 1) or time.month > 12:
            err = -1
            printf('"%s"', '"Invalid data in time file"')
            if f:
                _DisposeHandleReally(f)
                f = None
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        elif time.year < 1900:
            if time.year >= 40 and time.year <= 99:
                time.year = time.year + 1900
            else:
                time.year = time.year + 2000
        if format == M19REALREAL:
            scanErr, value1 = StringToDouble(value1S, value1)
            scanErr, value2 = StringToDouble(value2S, value2)
            value1 = value1 * conversionFactor
            value2 = value2 * conversionFactor
        elif format == M19MAGNITUDEDEGREES:
            scanErr, magnitude = StringToDouble(value1S, magnitude)
            scanErr, degrees = StringToDouble(value2S, degrees)
            magnitude = magnitude * conversionFactor
            _, value1, value2 = ConvertToUV(magnitude, degrees, value1, value2)
        elif format == M19DEGREESMAGNITUDE:
            scanErr, degrees = StringToDouble(value1S, degrees)
            scanErr, magnitude = StringToDouble(value2S, magnitude)
            if magnitude == 99:
                continue
            if degrees > 360:
                continue
            magnitude = magnitude * conversionFactor
            _, value1, value2 = ConvertToUV(magnitude, degrees, value1, value2)
        elif format == M19MAGNITUDEDIRECTION:
            scanErr, magnitude = StringToDouble(value1S, magnitude)
            magnitude = magnitude * conversionFactor
            _, value1, value2 = ConvertToUV(magnitude, ConvertToDegrees(value2S), value1, value2)
        elif format == M19DIRECTIONMAGNITUDE:
            scanErr, magnitude = StringToDouble(value2S, magnitude)
            magnitude = magnitude * conversionFactor
            _, value1, value2 = ConvertToUV(magnitude, ConvertToDegrees(value1S), value1, value2)
        memset(pair, 0, sizeof('TimeValuePair'))
        DateToSeconds(time, addr(pair.time))
        pair.value.u = value1
        pair.value.v = value2
        if numValues > 0:
            timeVal = self.timeValues[0][numValues - 1].time
            if pair.time < timeVal:
                err = -1
                printf('"%s"', '"Time values are out of order"')
                if f:
                    _DisposeHandleReally(f)
                    f = None
                if err and self.timeValues:
                    _DisposeHandleReally(self.timeValues)
                    self.timeValues = None
                return err
        _old25 = numValues
        numValues += 1
        self.timeValues[0][_old25] = copy.copy(pair)
    if numValues > 0:
        sz = sizeof('TimeValuePair')
        actualSize = numValues * sz
        _SetHandleSize(self.timeValues, actualSize)
        err = _MemError()
    else:
        printf('"%s"', '"No lines were found"')
        err = True
    if f:
        _DisposeHandleReally(f)
        f = None
    if err and self.timeValues:
        _DisposeHandleReally(self.timeValues)
        self.timeValues = None
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadNDBCWind
def ReadNDBCWind(self, linesInFile, numHeaderLines):
    err = 0
    time = DateTimeRec()
    numValues = 0
    numLines = linesInFile.size()
    numDataLines = numLines - numHeaderLines
    time.second = 0
    self.SetUserUnits(2)
    self.timeValues = _NewHandle(numDataLines * sizeof('TimeValuePair'))
    if not self.timeValues:
        err = -1
        printf('"%s"', '"OSSMTimeValue_c::ReadNDBCWind()"')
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    for i in range(0, numLines):
        if i % 200 == 0:
            MySpinCursor()
        if i < numHeaderLines:
            continue
        conversionFactor = 1
        u = '?u'
        v = '?v'
        value1S = std_basic_string_char_()
        value2S = std_basic_string_char_()
        pair = TimeValuePair()
        currentLine = trim(linesInFile[i])
        if currentLine.size() == 0:
            continue
        lineStream = copy.copy(currentLine)
        if numHeaderLines == 1:
            op_shr(op_shr(op_shr(op_shr(lineStream, time.year), time.month), time.day), time.hour)
            time.second = 0
            time.minute = time.second
        else:
            op_shr(op_shr(op_shr(op_shr(op_shr(lineStream, time.year), time.month), time.day), time.hour), time.minute)
            time.second = 0
        if lineStream.fail():
            err = -1
            errMsg = '"Invalid date in data row: \'"'
            op_iadd(errMsg, op_add(linesInFile[i], '"\'"'))
            printf('"%s"', '"OSSMTimeValue_c::ReadNDBCWind()"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        if not self.DateIsValid(time):
            err = -1
            errMsg_2 = '"Invalid date in data row: \'"'
            op_iadd(errMsg_2, op_add(linesInFile[i], '"\'"'))
            printf('"%s"', '"OSSMTimeValue_c::ReadNDBCWind()"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        self.CorrectTwoDigitYear(time)
        op_shr(op_shr(lineStream, value1S), value2S)
        if lineStream.fail():
            err = -1
            printf('"%s"', '"OSSMTimeValue_c::ReadNDBCWind()"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        self.ConvertRowValuesToUV(value1S, value2S, M19DEGREESMAGNITUDE, conversionFactor, u, v)
        memset(pair, 0, sizeof('TimeValuePair'))
        DateToSeconds(time, addr(pair.time))
        pair.value.u = u
        pair.value.v = v
        if numValues > 0:
            timeVal = self.timeValues[0][numValues - 1].time
            if pair.time < timeVal:
                err = -1
                printf('"%s"', '"Time values are out of order"')
                if err and self.timeValues:
                    _DisposeHandleReally(self.timeValues)
                    self.timeValues = None
                return err
        _old19 = numValues
        numValues += 1
        self.timeValues[0][_old19] = copy.copy(pair)
    if numValues > 0:
        sz = sizeof('TimeValuePair')
        actualSize = numValues * sz
        _SetHandleSize(self.timeValues, actualSize)
        err = _MemError()
    else:
        printf('"%s"', '"No lines were found"')
        err = True
    if err and self.timeValues:
        _DisposeHandleReally(self.timeValues)
        self.timeValues = None
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadNDBCWind__2
def ReadNDBCWind__2(self, path, numHeaderLines):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return self.ReadNDBCWind(linesInFile, numHeaderLines)
    else:
        return False

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadTimeValues
def ReadTimeValues(self, path, format, unitsIfKnownInAdvance):
    err = 0
    numValues = 0
    numLines = '?numLines'
    numDataLines = '?numDataLines'
    numHeaderLines = 0
    conversionFactor = 1
    selectedUnits = unitsIfKnownInAdvance
    askForUnits = True
    dataInGMT = False
    isHydrologyFile = False
    isLongWindFile = False
    time = DateTimeRec()
    pair = TimeValuePair()
    s = carray('char[512]')
    err = self.InitTimeFunc()
    if err != 0:
        return err
    time.second = 0
    self.timeValues = None
    self.fileName[0] = 0
    self.filePath[0] = 0
    if not path:
        return 0
    strncpy(s, path, 512)
    s[511] = 0
    strncpy(self.filePath, path, 256)
    self.filePath[256 - 1] = 0
    SplitPathFileName(s, self.fileName)
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        linesInFile = rtrim_empty_lines(linesInFile)
    else:
        return -1
    numLines = linesInFile.size()
    if IsNDBCWindFile(linesInFile, addr(numHeaderLines)):
        err = self.ReadNDBCWind(linesInFile, numHeaderLines)
        return err
    if IsNCDCWindFile(linesInFile):
        err = self.ReadNCDCWind(path)
        return err
    if numLines >= 5:
        if IsLongWindFile(linesInFile, addr(selectedUnits), addr(dataInGMT), addr(numHeaderLines)):
            askForUnits = False
            isLongWindFile = True
    if numLines >= 3 and (not isLongWindFile):
        if IsOSSMTimeFile(linesInFile, addr(selectedUnits)):
            numHeaderLines = 3
            self.ReadOSSMTimeHeader(path)
        else:
            isHydrologyFile = IsHydrologyFile(linesInFile)
            if isHydrologyFile == True:
                self.SetFileType(HYDROLOGYFILE)
                numHeaderLines = 3
                selectedUnits = 2
    if selectedUnits == -1:
        askForUnits = 1
    else:
        askForUnits = 0
    if askForUnits:
        if IsTimeFile(linesInFile):
            err = 1
        else:
            err = 2
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    if selectedUnits == 1:
        conversionFactor = 0.5144
    elif selectedUnits == 3:
        conversionFactor = 0.44704
    elif selectedUnits == 4:
        conversionFactor = 0.277777
    elif selectedUnits == 2:
        conversionFactor = 1
    else:
        err = -1
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    self.SetUserUnits(selectedUnits)
    if isHydrologyFile:
        err = self.ReadHydrologyHeader__2(path)
        if err != 0:
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        if unitsIfKnownInAdvance != -2:
            self.fScaleFactor = conversionFactor
    numDataLines = numLines - numHeaderLines
    self.timeValues = _NewHandle(numDataLines * sizeof('TimeValuePair'))
    if not self.timeValues:
        err = -1
        printf('"%s"', '"TOSSMTimeValue::ReadTimeValues()"')
        if err and self.timeValues:
            _DisposeHandleReally(self.timeValues)
            self.timeValues = None
        return err
    for i in range(0, numLines):
        if i % 200 == 0:
            MySpinCursor()
        if i < numHeaderLines:
            continue
        u = '?u'
        v = '?v'
        value1S = std_basic_string_char_()
        value2S = std_basic_string_char_()
        currentLine = trim(linesInFile[i])
        if currentLine.size() == 0:
            continue
        replace(currentLine.begin(), currentLine.end(), 44, 32)
        lineStream = copy.copy(currentLine)
        op_shr(op_shr(op_shr(op_shr(op_shr(lineStream, time.day), time.month), time.year), time.hour), time.minute)
        if lineStream.fail():
            err = -1
            printf('"%s"', '"TOSSMTimeValue::ReadTimeValues()"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        if i == numLines - 1 and self.DateValuesAreZero(time):
            continue
        if not self.DateIsValid(time):
            err = -1
            printf('"%s"', '"Invalid data in time file"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        self.CorrectTwoDigitYear(time)
        op_shr(op_shr(lineStream, value1S), value2S)
        if lineStream.fail():
            err = -1
            printf('"%s"', '"TOSSMTimeValue::ReadTimeValues()"')
            if err and self.timeValues:
                _DisposeHandleReally(self.timeValues)
                self.timeValues = None
            return err
        self.ConvertRowValuesToUV(value1S, value2S, format, conversionFactor, u, v)
        memset(pair, 0, sizeof('TimeValuePair'))
        DateToSeconds(time, addr(pair.time))
        pair.value.u = u
        pair.value.v = v
        if numValues > 0:
            timeVal = self.timeValues[0][numValues - 1].time
            if pair.time < timeVal:
                err = -1
                printf('"%s"', '"Time values are out of order"')
                if err and self.timeValues:
                    _DisposeHandleReally(self.timeValues)
                    self.timeValues = None
                return err
        _old26 = numValues
        numValues += 1
        self.timeValues[0][_old26] = copy.copy(pair)
    if numValues > 0:
        sz = sizeof('TimeValuePair')
        actualSize = numValues * sz
        _SetHandleSize(self.timeValues, actualSize)
        err = _MemError()
    else:
        printf('"%s"', '"No lines were found"')
        err = True
    if err and self.timeValues:
        _DisposeHandleReally(self.timeValues)
        self.timeValues = None
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadOSSMTimeHeader
def ReadOSSMTimeHeader(self, path):
    err = 0
    line = 0
    lenToRead = '?lenToRead'
    fileLength = '?fileLength'
    numScanned = '?numScanned'
    latdeg = '?latdeg'
    latmin = '?latmin'
    longdeg = '?longdeg'
    longmin = '?longmin'
    selectedUnits = '?selectedUnits'
    wp = WorldPoint3D(WorldPoint(0, 0), 0)
    strLine = carray('char[512]')
    firstPartOfFile = carray('char[512]')
    memset(strLine, 0, 512)
    memset(firstPartOfFile, 0, 512)
    err, fileLength = MyGetFileSize(0, 0, path, fileLength)
    if err:
        return err
    lenToRead = 512 if 512 < fileLength else fileLength
    err = ReadSectionOfFile(0, 0, path, 0, lenToRead, firstPartOfFile, None)
    if err:
        return err
    firstPartOfFile[lenToRead - 1] = 0
    _old14 = line
    line += 1
    NthLineInTextOptimized(firstPartOfFile, _old14, strLine, 512)
    RemoveLeadingAndTrailingWhiteSpace(strLine)
    strncpy(self.fStationName, strLine, 256)
    self.fStationName[256 - 1] = 0
    _old15 = line
    line += 1
    NthLineInTextOptimized(firstPartOfFile, _old15, strLine, 512)
    RemoveLeadingAndTrailingWhiteSpace(strLine)
    if not strcmpnocase(strLine, '"Station Location"'):
        self.fStationPosition = copy.copy(wp)
    else:
        StringSubstitute(strLine, 44, 32)
        numScanned, latdeg, latmin, longdeg, longmin = sscanf(strLine, '"%f %f %f %f"', latdeg, latmin, longdeg, longmin)
        if numScanned == 4:
            wp.p.pLat = (latdeg + latmin / 60) * 1000000
            wp.p.pLong = -(longdeg + longmin / 60) * 1000000
        elif numScanned == 2:
            wp.p.pLat = latdeg * 1000000
            wp.p.pLong = latmin * 1000000
        else:
            wp.p.pLat = 0
            wp.p.pLong = 0
        self.fStationPosition = copy.copy(wp)
    _old16 = line
    line += 1
    NthLineInTextOptimized(firstPartOfFile, _old16, strLine, 512)
    RemoveLeadingAndTrailingWhiteSpace(strLine)
    selectedUnits = StrToSpeedUnits(strLine)
    if selectedUnits == -1:
        err = -1
    else:
        self.fUserUnits = selectedUnits
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadHydrologyHeader
def ReadHydrologyHeader(self, linesInFile):
    err = 0
    line = 0
    latdeg = '?latdeg'
    latmin = '?latmin'
    longdeg = '?longdeg'
    longmin = '?longmin'
    currentLine = std_basic_string_char_()
    wp = WorldPoint3D(WorldPoint(0, 0), 0)
    strLine = carray('char[512]')
    firstPartOfFile = carray('char[512]')
    errmsg = carray('char[256]')
    memset(strLine, 0, 512)
    memset(firstPartOfFile, 0, 512)
    memset(errmsg, 0, 256)
    _old13 = line
    line += 1
    currentLine = trim(linesInFile[_old13])
    stationName = strdup(currentLine.c_str())
    strncpy(self.fStationName, stationName, 256)
    _old14 = line
    line += 1
    currentLine = trim(linesInFile[_old14])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    lineStream = copy.copy(currentLine)
    op_shr(op_shr(op_shr(op_shr(lineStream, latdeg), latmin), longdeg), longmin)
    if lineStream.fail():
        lineStream_2 = copy.copy(currentLine)
        if lineStream_2.fail():
            snprintf(errmsg, sizeof('char[256]'), '"Unable to read data (lat, lon) from line %ld:\\n"', line)
            return err
        else:
            wp.p.pLat = latdeg * 1000000
            wp.p.pLong = latmin * 1000000
            self.bOSSMStyle = False
    else:
        wp.p.pLat = (latdeg + latmin / 60) * 1000000
        wp.p.pLong = -(longdeg + longmin / 60) * 1000000
        self.bOSSMStyle = True
    self.fStationPosition = copy.copy(wp)
    _old17 = line
    line += 1
    currentLine = trim(linesInFile[_old17])
    transform(currentLine.begin(), currentLine.end(), currentLine.begin(), tolower)
    if currentLine == '"cfs"':
        self.fUserUnits = 3
    elif currentLine == '"kcfs"':
        self.fUserUnits = 4
    elif currentLine == '"cms"':
        self.fUserUnits = 1
    elif currentLine == '"kcms"':
        self.fUserUnits = 2
    else:
        err = -1
    return err

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ReadHydrologyHeader__2
def ReadHydrologyHeader__2(self, path):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return self.ReadHydrologyHeader(linesInFile)
    else:
        return False

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.ConvertRowValuesToUV
def ConvertRowValuesToUV(self, value1, value2, format, conversionFactor, uOut, vOut):
    magnitude = '?magnitude'
    degrees = '?degrees'
    v1Stream = copy.copy(value1)
    v2Stream = copy.copy(value2)
    if format == M19REALREAL:
        op_shr(v1Stream, uOut)
        op_shr(v2Stream, vOut)
        uOut = uOut * conversionFactor
        vOut = vOut * conversionFactor
        return 0
    elif format == M19MAGNITUDEDEGREES:
        op_shr(v1Stream, magnitude)
        op_shr(v2Stream, degrees)
        magnitude = magnitude * conversionFactor
    elif format == M19DEGREESMAGNITUDE:
        op_shr(v1Stream, degrees)
        op_shr(v2Stream, magnitude)
        magnitude = magnitude * conversionFactor
    elif format == M19MAGNITUDEDIRECTION:
        op_shr(v1Stream, magnitude)
        degrees = ConvertToDegrees(value2.c_str())
        magnitude = magnitude * conversionFactor
    elif format == M19DIRECTIONMAGNITUDE:
        op_shr(v2Stream, magnitude)
        degrees = ConvertToDegrees(value1.c_str())
        magnitude = magnitude * conversionFactor
    else:
        return -1
    _, uOut, vOut = ConvertToUV(magnitude, degrees, uOut, vOut)
    return 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.DateValuesAreZero
def DateValuesAreZero(self, dateTime):
    return (((dateTime.day == 0 and dateTime.month == 0) and dateTime.year == 0) and dateTime.hour == 0) and dateTime.minute == 0

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.DateIsValid
def DateIsValid(self, dateTime):
    return ((dateTime.day >= 1 and dateTime.day <= 31) and dateTime.month >= 1) and dateTime.month <= 12

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.CorrectTwoDigitYear
def CorrectTwoDigitYear(self, dateTime):
    if dateTime.year < 1900:
        if dateTime.year >= 40 and dateTime.year <= 99:
            dateTime.year = dateTime.year + 1900
        else:
            dateTime.year = dateTime.year + 2000

@ gnome.lib.OSSMTimeValue_c.OSSMTimeValue_c.CalculateRunningAverage
def CalculateRunningAverage(self, pastHoursToAverage, model_time):
    err = 0
    i = '?i'
    j = '?j'
    numTimeValues = 0
    numRunningAverageValues = 0
    speed = 0
    speed1 = 0
    speed2 = 0
    runningAverageTimeValues = None
    startTime = '?startTime'
    endTime = '?endTime'
    currentTime = '?currentTime'
    firstTime = '?firstTime'
    lastTime = '?lastTime'
    timeDiff = '?timeDiff'
    timeToAverage = '?timeToAverage'
    runningAverageTimeStep = 3600
    calculateAll = True
    velocity = VelocityRec(0, 0)
    average = VelocityRec(0, 0)
    if not self.timeValues:
        err = -1
        return runningAverageTimeValues
    numTimeValues = self.GetNumValues()
    if numTimeValues == 0:
        err = -1
        return runningAverageTimeValues
    firstTime = self.timeValues[0][0].time
    lastTime = self.timeValues[0][numTimeValues - 1].time
    if lastTime - firstTime > 48 * 3600:
        calculateAll = False
    if calculateAll:
        startTime = firstTime
        endTime = lastTime
    elif model_time == 0:
        startTime = firstTime
        endTime = startTime + 48 * 3600
    else:
        startTime = model_time
        endTime = startTime + 48 * 3600
        if endTime > lastTime:
            endTime = lastTime
    for i in range(0, numTimeValues - 1):
        timeDiff = self.timeValues[0][i + 1].time - self.timeValues[0][i].time
        if timeDiff < runningAverageTimeStep and runningAverageTimeStep > 0:
            runningAverageTimeStep = timeDiff
    if endTime == startTime:
        numRunningAverageValues = 1
    else:
        numRunningAverageValues = (endTime - startTime) // runningAverageTimeStep + 1
    runningAverageTimeValues = _NewHandle(numRunningAverageValues * sizeof('TimeValuePair'))
    if not runningAverageTimeValues:
        err = -1
        printf('"%s"', '"OSSMTimeValue_c::CalculateRunningAverage()"')
        return runningAverageTimeValues
    for i in range(0, numRunningAverageValues):
        speed = 0
        speed1 = 0
        speed2 = 0
        currentTime = startTime + i * runningAverageTimeStep
        for j in range(0, pastHoursToAverage + 1):
            timeToAverage = currentTime - j * 3600
            err = self.GetTimeValue(timeToAverage, velocity)
            if err == -1:
                start_time = '?start_time'
                end_time = '?end_time'
                err, start_time = self.GetDataStartTime(start_time)
                err, end_time = self.GetDataEndTime(end_time)
                if model_time < start_time:
                    err = self.GetTimeValue(start_time, velocity)
                    if err:
                        return None
                if model_time > end_time:
                    err = self.GetTimeValue(end_time, velocity)
                    if err:
                        return None
            speed2 = math.sqrt(velocity.u * velocity.u + velocity.v * velocity.v)
            if j > 0:
                speed = speed + (speed1 + speed2) / 2
            speed1 = speed2
        speed = speed / pastHoursToAverage
        average.u = speed
        average.v = 0
        runningAverageTimeValues[0][i].value = copy.copy(average)
        runningAverageTimeValues[0][i].time = currentTime
    return runningAverageTimeValues

@ gnome.lib.TimeValue_c.TimeValue_c.__init__
def __init__(self):
    pass

@ gnome.lib.TimeValue_c.TimeValue_c.GetTimeValue
def GetTimeValue(self, forTime, value):
    value.u = 1
    value.v = 1
    return 0

@ gnome.lib.TimeValue_c.TimeValue_c.CheckStartTime
def CheckStartTime(self, forTime):
    return 0

@ gnome.lib.TimeValue_c.TimeValue_c.InitTimeFunc
def InitTimeFunc(self):
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.InitInstanceVariables
def InitInstanceVariables(self):
    self.fUserUnits = 1
    self.fStationName[0] = 0
    self.fStationType = 0
    self.fConstituent = allbytes(0)
    self.fHeightOffset = allbytes(0)
    self.fCurrentOffset = allbytes(0)
    self.fHighLowValuesOpen = False
    self.fEbbFloodValuesOpen = False
    self.fEbbFloodDataHdl = None
    self.fHighLowDataHdl = None

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.__init__
def __init__(self):
    self.daylight_savings_off = False
    self.InitInstanceVariables()
    self.fYearDataPath[0] = 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetKeyedValue
def GetKeyedValue(self, f, key, lineNum, strLine, val):
    h = _NewHandleClear(100 * sizeof('float'))
    scanErr = 0
    value = '?value'
    i = '?i'
    numVals = 0
    str = carray('char[32]')
    err = 0
    if not h:
        return -1
    val[0] = None
    p = GetKeyedLine(f, key, lineNum, strLine)
    if not p:
        err = -2
        if numVals < 10:
            err = -5
        if err and h:
            _DisposeHandleReally(h)
            h = None
        else:
            _SetHandleSize(h, numVals * sizeof('float'))
        val[0] = h
        return err
    while True:
        str[0] = 0
        while p[0] == 32 and p[0] == 9:
            pass
            p += 1
        if p[0] == 0:
            if numVals < 10:
                err = -5
            if err and h:
                _DisposeHandleReally(h)
                h = None
            else:
                _SetHandleSize(h, numVals * sizeof('float'))
            val[0] = h
            return err
        i = 0
        while ((i < 32 and p[0] != 32) and p[0] != 9) and p[0]:
            pass
            _old14 = p
            p += 1
            _old15 = i
            i += 1
            str[_old15] = _old14[0]
        if i == 32:
            err = -3
            if numVals < 10:
                err = -5
            if err and h:
                _DisposeHandleReally(h)
                h = None
            else:
                _SetHandleSize(h, numVals * sizeof('float'))
            val[0] = h
            return err
        str[i] = 0
        _old16 = p
        p += 1
        scanErr, value = StringToDouble(str, value)
        if scanErr:
            return scanErr
        _old17 = numVals
        numVals += 1
        h[0][_old17] = value
        if numVals >= 100:
            err = -4
            if numVals < 10:
                err = -5
            if err and h:
                _DisposeHandleReally(h)
                h = None
            else:
                _SetHandleSize(h, numVals * sizeof('float'))
            val[0] = h
            return err
    if numVals < 10:
        err = -5
    if err and h:
        _DisposeHandleReally(h)
        h = None
    else:
        _SetHandleSize(h, numVals * sizeof('float'))
    val[0] = h
    return err

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetKeyedValue__2
def GetKeyedValue__2(self, f, key, lineNum, strLine, val):
    scanErr = 0
    value = '?value'
    p = GetKeyedLine(f, key, lineNum, strLine)
    if not p:
        return -1
    p2 = p
    while 1:
        if p2[0] == 0:
            return -1
        if p2[0] == 32:
            p2[0] = 0
            _old9 = p2
            p2 += 1
            break
        p2 += 1
    scanErr, value = StringToDouble(p, value)
    if scanErr:
        return scanErr
    val.val = value
    scanErr, value = StringToDouble(p2, value)
    if scanErr:
        return scanErr
    val.dataAvailFlag = int(round(value))
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetKeyedValue__3
def GetKeyedValue__3(self, f, key, lineNum, strLine, val):
    scanErr = 0
    value = '?value'
    p = GetKeyedLine(f, key, lineNum, strLine)
    if not p:
        return -1
    scanErr, value = StringToDouble(p, value)
    if scanErr:
        return scanErr
    val[0] = int(round(value))
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetKeyedValue__4
def GetKeyedValue__4(self, f, key, lineNum, strLine, val):
    scanErr = 0
    value = '?value'
    p = GetKeyedLine(f, key, lineNum, strLine)
    if not p:
        return -1
    scanErr, value = StringToDouble(p, value)
    if scanErr:
        return scanErr
    val[0] = value
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetKeyedValue__5
def GetKeyedValue__5(self, f, key, lineNum, strLine, val):
    scanErr = 0
    value = '?value'
    p = GetKeyedLine(f, key, lineNum, strLine)
    if not p:
        return -1
    scanErr, value = StringToDouble(p, value)
    if scanErr:
        return scanErr
    val[0] = value
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.InitTimeFunc
def InitTimeFunc(self):
    err = self.InitTimeFunc()
    if not err:
        self.InitInstanceVariables()
    return err

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.I_SHIOHIGHLOWS
def I_SHIOHIGHLOWS(self):
    return 1

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.I_SHIOEBBFLOODS
def I_SHIOEBBFLOODS(self):
    if self.fStationType == 72:
        i = 2
        if self.fHighLowValuesOpen:
            i = i + self.GetNumHighLowValues()
        return i
    else:
        return 99999

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetNumEbbFloodValues
def GetNumEbbFloodValues(self):
    numEbbFloodValues = _GetHandleSize(self.fEbbFloodDataHdl) // sizeof('EbbFloodData')
    return numEbbFloodValues

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetNumHighLowValues
def GetNumHighLowValues(self):
    numHighLowValues = _GetHandleSize(self.fHighLowDataHdl) // sizeof('HighLowData')
    return numHighLowValues

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetYearDataDirectory
def GetYearDataDirectory(self, directoryPath):
    applicationFolderPath = carray('char[256]')
    self.GetYearDataPath(applicationFolderPath)
    if applicationFolderPath[0] == 0:
        printf('"%s"', '"The year data directory has not been set\\n"')
    else:
        strcpy(directoryPath, applicationFolderPath)
    return

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.SetYearDataPath
def SetYearDataPath(self, pathName):
    strcpy(self.fYearDataPath, pathName)
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetYearDataPath
def GetYearDataPath(self, pathName):
    strcpy(pathName, self.fYearDataPath)

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetDeriv
def GetDeriv(self, t1, val1, t2, val2, theTime):
    dt = (t2 - t1) / 3600
    if dt < 1e-09:
        return val2
    x = (theTime - t1) / (3600 * dt)
    deriv = 6 * x * (val1 - val2) * (x - 1) / dt
    return 3048 / 3600 * deriv

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.InHeightTimeRange
def InHeightTimeRange(self, forTime):
    numValues = self.GetNumHighLowValues()
    startTime = self.fHighLowDataHdl[0][0].time
    endTime = self.fHighLowDataHdl[0][numValues - 1].time
    if forTime >= startTime and forTime <= endTime:
        return True
    else:
        return False

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetConvertedHeightValue
def GetConvertedHeightValue(self, forTime, value):
    i = '?i'
    startHighLowData = HighLowData()
    endHighLowData = HighLowData()
    for i in range(0, self.GetNumHighLowValues() - 1):
        startHighLowData = copy.copy(self.fHighLowDataHdl[0][i])
        endHighLowData = copy.copy(self.fHighLowDataHdl[0][i + 1])
        if forTime == startHighLowData.time or forTime == self.fHighLowDataHdl[0][self.GetNumHighLowValues() - 1].time:
            value.u = 0
            value.v = 0
            return 0
        if forTime > startHighLowData.time and forTime < endHighLowData.time:
            value.u = self.GetDeriv(startHighLowData.time, startHighLowData.height, endHighLowData.time, endHighLowData.height, forTime) * self.fScaleFactor
            value.v = 0
            return 0
    return -1

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetProgressiveWaveValue
def GetProgressiveWaveValue(self, forTime, value):
    err = 0
    value.u = 0
    value.v = 0
    err = self.GetTimeValue(forTime, value)
    if err > 0:
        return err
    value.u = value.u * self.fScaleFactor
    value.v = value.v * self.fScaleFactor
    return err

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetLocationInTideCycle
def GetLocationInTideCycle(self, model_time, ebbFloodType, fraction):
    time = model_time
    ebbFloodData1 = EbbFloodData()
    ebbFloodData2 = EbbFloodData()
    i = '?i'
    numValues = '?numValues'
    ebbFloodType[0] = -1
    fraction[0] = 0
    if self.fStationType == 67:
        numValues = self.GetNumEbbFloodValues()
        for i in range(0, numValues - 1):
            ebbFloodData1 = copy.copy(self.fEbbFloodDataHdl[0][i])
            ebbFloodData2 = copy.copy(self.fEbbFloodDataHdl[0][i + 1])
            if ebbFloodData1.time <= time and ebbFloodData2.time > time:
                ebbFloodType[0] = ebbFloodData1.type
                fraction[0] = (time - ebbFloodData1.time) / (ebbFloodData2.time - ebbFloodData1.time)
                return 0
            if i == 0 and ebbFloodData1.time > time:
                if ebbFloodData1.type > 0:
                    ebbFloodType[0] = ebbFloodData1.type - 1
                else:
                    ebbFloodType[0] = 3
                fraction[0] = (ebbFloodData1.time - time) / (ebbFloodData2.time - ebbFloodData1.time)
                if fraction[0] > 1:
                    fraction[0] = 1
                return 0
        if time == ebbFloodData2.time:
            ebbFloodType[0] = ebbFloodData2.type
            fraction[0] = 0
            return 0
        printf('"%s"', '"Ebb Flood data could not be determined"')
        return -1
    elif self.fStationType == 72:
        derivTime = '?derivTime'
        derivTime2 = '?derivTime2'
        type1 = '?type1'
        type2 = '?type2'
        numValues = 2 * self.GetNumHighLowValues() - 1
        for i in range(0, numValues):
            startHighLowData = HighLowData()
            endHighLowData = HighLowData()
            midTime = '?midTime'
            midTime2 = '?midTime2'
            index = int(math.floor(i / 2))
            startHighLowData = copy.copy(self.fHighLowDataHdl[0][index])
            endHighLowData = copy.copy(self.fHighLowDataHdl[0][index + 1])
            midTime = (endHighLowData.time - startHighLowData.time) // 2 + startHighLowData.time
            midTime2 = (endHighLowData.time - startHighLowData.time) // 2 + endHighLowData.time
            if startHighLowData.type == 0:
                if math.fmod(i, 2) == 0:
                    derivTime = startHighLowData.time
                    type1 = 0
                else:
                    derivTime = midTime
                    type1 = 1
            elif startHighLowData.type == 1:
                if math.fmod(i, 2) == 0:
                    derivTime = startHighLowData.time
                    type1 = 2
                else:
                    derivTime = midTime
                    type1 = 3
            if endHighLowData.type == 0:
                if math.fmod(i, 2) == 0:
                    derivTime2 = endHighLowData.time
                    type2 = 0
                else:
                    derivTime2 = midTime2
                    type2 = 1
            elif endHighLowData.type == 1:
                if math.fmod(i, 2) == 0:
                    derivTime2 = endHighLowData.time
                    type2 = 2
                else:
                    derivTime2 = midTime2
                    type2 = 3
            if derivTime <= time and derivTime2 > time:
                ebbFloodType[0] = type1
                fraction[0] = (time - derivTime) / (derivTime2 - derivTime)
                return 0
            if i == 0 and derivTime > time:
                if type1 > 0:
                    ebbFloodType[0] = type1 - 1
                else:
                    ebbFloodType[0] = 3
                fraction[0] = (derivTime - time) / (derivTime2 - derivTime)
                if fraction[0] > 1:
                    fraction[0] = 1
                return 0
        if time == derivTime2:
            ebbFloodType[0] = type2
            fraction[0] = 0
            return 0
        printf('"%s"', '"Ebb Flood data could not be determined"')
        return -1
    return 0

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetTimeChange
def GetTimeChange(self, a, b, dt):
    self.ProgrammerError('"GetTimeChange"')
    dt[0] = 0
    return -1

@ gnome.lib.ShioTimeValue_c.ShioTimeValue_c.GetInterpolatedComponent
def GetInterpolatedComponent(self, forTime, value, index):
    self.ProgrammerError('"GetInterpolatedComponent"')
    value[0] = 0
    return -1

@ func gnome.lib.TimeValuesIO.IsHydrologyFile
def IsHydrologyFile(linesInFile):
    line = 0
    currentLine = std_basic_string_char_()
    time = DateTimeRec()
    velocity = VelocityRec()
    _old5 = line
    line += 1
    _old6 = line
    line += 1
    _old7 = line
    line += 1
    currentLine = trim(linesInFile[_old7])
    transform(currentLine.begin(), currentLine.end(), currentLine.begin(), tolower)
    if not (((currentLine == '"cfs"' or currentLine == '"kcfs"') or currentLine == '"cms"') or currentLine == '"kcms"'):
        return False
    _old8 = line
    line += 1
    currentLine = trim(linesInFile[_old8])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, velocity):
        return False
    return True

@ func gnome.lib.TimeValuesIO.IsHydrologyFile__2
def IsHydrologyFile__2(path):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsHydrologyFile(linesInFile)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsLongWindFile
def IsLongWindFile(linesInFile, selectedUnitsOut, dataInGMTOut, numHeaderLines):
    line = 0
    currentLine = std_basic_string_char_()
    val1Str = std_basic_string_char_()
    val2Str = std_basic_string_char_()
    time = DateTimeRec()
    memset(time, 0, sizeof('DateTimeRec'))
    selectedUnits = -1
    dataInGMT = False
    numHeaderLines[0] = 0
    if linesInFile.size() < 5:
        return False
    _old11 = line
    line += 1
    _old12 = line
    line += 1
    _old13 = line
    line += 1
    currentLine = trim(linesInFile[_old13])
    selectedUnits = StrToSpeedUnits(currentLine.c_str())
    if selectedUnits == -1:
        return False
    _old14 = line
    line += 1
    currentLine = trim(linesInFile[_old14])
    transform(currentLine.begin(), currentLine.end(), currentLine.begin(), tolower)
    if currentLine == '"ltime"':
        dataInGMT = False
    elif currentLine == '"gmt"' or currentLine == '"utc"':
        dataInGMT = True
    else:
        dataInGMT = False
        replace(currentLine.begin(), currentLine.end(), 44, 32)
        if not ParseLine(currentLine, time, val1Str, val2Str):
            pass
        else:
            return False
    _old15 = line
    line += 1
    currentLine = trim(linesInFile[_old15])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, val1Str, val2Str):
        pass
    elif time.month == 0 or time.day == 0:
        pass
    else:
        selectedUnitsOut[0] = selectedUnits
        dataInGMTOut[0] = dataInGMT
        numHeaderLines[0] = 4
        return True
    _old16 = line
    line += 1
    currentLine = trim(linesInFile[_old16])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, val1Str, val2Str):
        return False
    selectedUnitsOut[0] = selectedUnits
    dataInGMTOut[0] = dataInGMT
    numHeaderLines[0] = 5
    return True

@ func gnome.lib.TimeValuesIO.IsLongWindFile__2
def IsLongWindFile__2(path, selectedUnitsOut, dataInGMTOut, numHeaderLines):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsLongWindFile(linesInFile, selectedUnitsOut, dataInGMTOut, numHeaderLines)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsNCDCWindFile
def IsNCDCWindFile(linesInFile):
    line = 0
    value = std_basic_string_char_()
    _old3 = line
    line += 1
    if ParseKeyedLine(linesInFile[_old3], '"USAF"', value):
        return True
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsNCDCWindFile__2
def IsNCDCWindFile__2(path):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsNCDCWindFile(linesInFile)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsNDBCWindFile
def IsNDBCWindFile(linesInFile, numHeaderLines):
    currentLine = std_basic_string_char_()
    if linesInFile.size() == 0:
        return False
    numHeaderLines[0] = 0
    currentLine = trim(linesInFile[0])
    if currentLine == '"#YY"':
        numHeaderLines[0] = 2
        return True
    elif currentLine == '"YYYY"' or currentLine == '"YY"':
        numHeaderLines[0] = 1
        return True
    return False

@ func gnome.lib.TimeValuesIO.IsNDBCWindFile__2
def IsNDBCWindFile__2(path, numHeaderLines):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsNDBCWindFile(linesInFile, numHeaderLines)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsOSSMHeightFile
def IsOSSMHeightFile(linesInFile, selectedUnitsP):
    bIsValid = True
    currentLine = std_basic_string_char_()
    line = 0
    selectedUnits = -1
    time = DateTimeRec()
    velocity = VelocityRec()
    _old8 = line
    line += 1
    _old9 = line
    line += 1
    _old10 = line
    line += 1
    currentLine = trim(linesInFile[_old10])
    selectedUnits = StrToSpeedUnits(currentLine.c_str())
    if selectedUnits == -1:
        bIsValid = False
    _old11 = line
    line += 1
    currentLine = trim(linesInFile[_old11])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, velocity):
        bIsValid = False
    if bIsValid:
        selectedUnitsP[0] = selectedUnits
    return bIsValid

@ func gnome.lib.TimeValuesIO.IsOSSMHeightFile__2
def IsOSSMHeightFile__2(path, selectedUnitsP):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsOSSMHeightFile(linesInFile, selectedUnitsP)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsOSSMTimeFile
def IsOSSMTimeFile(linesInFile, selectedUnitsOut):
    line = 0
    currentLine = std_basic_string_char_()
    val1Str = std_basic_string_char_()
    val2Str = std_basic_string_char_()
    selectedUnits = -1
    time = DateTimeRec()
    if linesInFile.size() < 3:
        return False
    _old8 = line
    line += 1
    _old9 = line
    line += 1
    _old10 = line
    line += 1
    currentLine = trim(linesInFile[_old10])
    selectedUnits = StrToSpeedUnits(currentLine.c_str())
    if selectedUnits == -1:
        return False
    _old11 = line
    line += 1
    currentLine = trim(linesInFile[_old11])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, val1Str, val2Str):
        return False
    selectedUnitsOut[0] = selectedUnits
    return True

@ func gnome.lib.TimeValuesIO.IsOSSMTimeFile__2
def IsOSSMTimeFile__2(path, selectedUnitsOut):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsOSSMTimeFile(linesInFile, selectedUnitsOut)
    else:
        return False

@ func gnome.lib.TimeValuesIO.IsTimeFile
def IsTimeFile(linesInFile):
    bIsValid = True
    currentLine = std_basic_string_char_()
    val1Str = std_basic_string_char_()
    val2Str = std_basic_string_char_()
    line = 0
    time = DateTimeRec()
    _old7 = line
    line += 1
    currentLine = copy.copy(linesInFile[_old7])
    replace(currentLine.begin(), currentLine.end(), 44, 32)
    if not ParseLine(currentLine, time, val1Str, val2Str):
        bIsValid = False
    return bIsValid

@ func gnome.lib.TimeValuesIO.IsTimeFile__2
def IsTimeFile__2(path):
    linesInFile = std_vector_std_basic_string_char_()
    if ReadLinesInFile(path, linesInFile):
        return IsTimeFile(linesInFile)
    else:
        return False

@ func gnome.lib.ShioHeight.CheckHeightOffsets
def CheckHeightOffsets(htOffset):
    err = 0
    minTimeDiff = -24
    maxTimeDiff = 24
    minAddFac = -26
    maxAddFac = 26
    minMultFac = 0
    maxMultFac = 6
    if not htOffset:
        err = 25
        return err
    if not htOffset.HighTime.dataAvailFlag:
        err = 22
    if not htOffset.LowTime.dataAvailFlag:
        err = 23
    if not htOffset.HighHeight_Mult.dataAvailFlag:
        err = 26
    if not htOffset.HighHeight_Add.dataAvailFlag:
        err = 27
    if not htOffset.LowHeight_Mult.dataAvailFlag:
        err = 28
    if not htOffset.LowHeight_Add.dataAvailFlag:
        err = 29
    if err != 0:
        return err
    if htOffset.HighTime.val < minTimeDiff:
        err = 30
    if htOffset.HighTime.val > maxTimeDiff:
        err = 30
    if htOffset.LowTime.val < minTimeDiff:
        err = 31
    if htOffset.LowTime.val > maxTimeDiff:
        err = 31
    if htOffset.HighHeight_Add.val < minAddFac:
        err = 32
    if htOffset.HighHeight_Add.val > maxAddFac:
        err = 32
    if htOffset.LowHeight_Add.val < minAddFac:
        err = 33
    if htOffset.LowHeight_Add.val > maxAddFac:
        err = 33
    if htOffset.HighHeight_Mult.val < minMultFac:
        err = 34
    if htOffset.HighHeight_Mult.val > maxMultFac:
        err = 34
    if htOffset.LowHeight_Mult.val < minMultFac:
        err = 35
    if htOffset.LowHeight_Mult.val > maxMultFac:
        err = 35
    return err

@ func gnome.lib.ShioHeight.CompErrors
def CompErrors(errorNum, errStr):
    if errorNum == 0:
        pass
    elif errorNum == 1:
        strcpy(errStr, '"start hour later than end hour!"')
    elif errorNum == 2:
        strcpy(errStr, '"time step less than total time interval"')
    elif errorNum == 3:
        strcpy(errStr, '"month number is invalid"')
    elif errorNum == 4:
        strcpy(errStr, '"day value invalid for given month"')
    elif errorNum == 5:
        strcpy(errStr, '"year value invalid"')
    elif errorNum == 6:
        strcpy(errStr, '"too few constituents"')
    elif errorNum == 7:
        strcpy(errStr, '"not enough memory for VPU array"')
    elif errorNum == 8:
        strcpy(errStr, '"not enough memory for XODE array"')
    elif errorNum == 9:
        strcpy(errStr, '"not enough memory for AMPA array"')
    elif errorNum == 10:
        strcpy(errStr, '"not enough memory for epoch array"')
    elif errorNum == 11:
        strcpy(errStr, '"not enough memory for HHDl handle"')
    elif errorNum == 12:
        strcpy(errStr, '"not enough memory for THdl handle"')
    elif errorNum == 13:
        strcpy(errStr, '"not enough memory for HLHHdl handle"')
    elif errorNum == 14:
        strcpy(errStr, '"not enough memory for HLTHdl handle"')
    elif errorNum == 15:
        strcpy(errStr, '"not enough memory for tHdl handle"')
    elif errorNum == 16:
        strcpy(errStr, '"consecutive heights with same value"')
    elif errorNum == 17:
        strcpy(errStr, '"resource for year data invalid"')
    elif errorNum == 18:
        strcpy(errStr, '"could not find valid high or low value"')
    elif errorNum == 19:
        strcpy(errStr, '"high and low array handle invalid"')
    elif errorNum == 20:
        strcpy(errStr, '"not enough memory for HArray array"')
    elif errorNum == 21:
        strcpy(errStr, '"not enough memory for TArray array"')
    elif errorNum == 22:
        strcpy(errStr, '"Insufficient data to compute heights. The high tide time offset data is unavailable."')
    elif errorNum == 23:
        strcpy(errStr, '"Insufficient data to compute heights. The low tide time offset data is unavailable."')
    elif errorNum == 24:
        strcpy(errStr, '"Unable to compute heights. Time offset data unusable for selected time span."')
    elif errorNum == 25:
        strcpy(errStr, '"Programmer error. Handle to offset data nil"')
    elif errorNum == 26:
        strcpy(errStr, '"Insufficient data to compute heights. The high tide multiplicative factor unavailable."')
    elif errorNum == 27:
        strcpy(errStr, '"Insufficient data to compute heights. The high water additive factor unavailable."')
    elif errorNum == 28:
        strcpy(errStr, '"Insufficient data to compute heights. The low water multiplicative factor unavailable"')
    elif errorNum == 29:
        strcpy(errStr, '"Insufficient data to compute heights. The low water additive factor unavailable"')
    elif errorNum == 30:
        strcpy(errStr, '"high tide time corrections out of range"')
    elif errorNum == 31:
        strcpy(errStr, '"low tide time corrections out of range"')
    elif errorNum == 32:
        strcpy(errStr, '"high tide add height difference out of range"')
    elif errorNum == 33:
        strcpy(errStr, '"low tide add height difference out of range"')
    elif errorNum == 34:
        strcpy(errStr, '"high tide mult factor out of range"')
    elif errorNum == 35:
        strcpy(errStr, '"low tide mult factor out of range"')
    elif errorNum == 41:
        strcpy(errStr, '"HighLowCount >= maxPeaks in GetReferenceCurve"')
    else:
        strcpy(errStr, '"unknown error code"')
    return

@ func gnome.lib.ShioHeight.DoOffSetCorrection
def DoOffSetCorrection(answers, htOffset):
    NoOfHighsLows = '?NoOfHighsLows'
    index = '?index'
    errorFlag = '?errorFlag'
    flag = '?flag'
    numOfPoints = '?numOfPoints'
    i = '?i'
    j = '?j'
    highOffset = '?highOffset'
    lowOffset = '?lowOffset'
    t = '?t'
    HighAdd = '?HighAdd'
    HighMult = '?HighMult'
    LowAdd = '?LowAdd'
    LowMult = '?LowMult'
    low = 0
    high = 1
    lowToHigh = 0
    highToLow = 1
    timeCorrection = '?timeCorrection'
    HeightCorrectionMult = '?HeightCorrectionMult'
    HeightCorrectionAdd = '?HeightCorrectionAdd'
    w1 = '?w1'
    w2 = '?w2'
    HLHeightHdl = None
    ValHdl = None
    HLTimeHdl = None
    TimeHdl = None
    HLFlagHdl = None
    HArrayPtr = None
    TArrayPtr = None
    errorFlag = 0
    HLHeightHdl = answers.HighLowHeights
    HLTimeHdl = answers.HighLowTimes
    HLFlagHdl = answers.HighLow
    ValHdl = answers.height
    TimeHdl = answers.time
    NoOfHighsLows = answers.numHighLows
    if NoOfHighsLows < 1:
        errorFlag = 19
        if HArrayPtr:
            delete(HArrayPtr)
            HArrayPtr = None
        if TArrayPtr:
            delete(TArrayPtr)
            TArrayPtr = None
        if pSlopesMult:
            delete(pSlopesMult)
            pSlopesMult = None
        if pSlopesAdd:
            delete(pSlopesAdd)
            pSlopesAdd = None
        return errorFlag
    try:
        HArrayPtr = new('double *', NoOfHighsLows)
        TArrayPtr = new('EXTFLAG *', NoOfHighsLows + 2, EXTFLAG_())
    except Exception:
        errorFlag = 20
        if HArrayPtr:
            delete(HArrayPtr)
            HArrayPtr = None
        if TArrayPtr:
            delete(TArrayPtr)
            TArrayPtr = None
        if pSlopesMult:
            delete(pSlopesMult)
            pSlopesMult = None
        if pSlopesAdd:
            delete(pSlopesAdd)
            pSlopesAdd = None
        return errorFlag
    for i in range(0, NoOfHighsLows):
        HArrayPtr[i] = HLHeightHdl[i]
        TArrayPtr[i].val = HLTimeHdl[i].val
        TArrayPtr[i].flag = 0
        TArrayPtr[i].xtra = 0
    TArrayPtr[NoOfHighsLows].val = HLTimeHdl[NoOfHighsLows].val
    TArrayPtr[NoOfHighsLows + 1].val = HLTimeHdl[NoOfHighsLows + 1].val
    TArrayPtr[NoOfHighsLows].flag = 0
    TArrayPtr[NoOfHighsLows].xtra = 0
    TArrayPtr[NoOfHighsLows + 1].flag = 0
    TArrayPtr[NoOfHighsLows + 1].xtra = 0
    if htOffset.HighTime.dataAvailFlag != 1:
        errorFlag = 22
        if HArrayPtr:
            delete(HArrayPtr)
            HArrayPtr = None
        if TArrayPtr:
            delete(TArrayPtr)
            TArrayPtr = None
        if pSlopesMult:
            delete(pSlopesMult)
            pSlopesMult = None
        if pSlopesAdd:
            delete(pSlopesAdd)
            pSlopesAdd = None
        return errorFlag
    highOffset = htOffset.HighTime.val
    if htOffset.LowTime.dataAvailFlag != 1:
        errorFlag = 23
        if HArrayPtr:
            delete(HArrayPtr)
            HArrayPtr = None
        if TArrayPtr:
            delete(TArrayPtr)
            TArrayPtr = None
        if pSlopesMult:
            delete(pSlopesMult)
            pSlopesMult = None
        if pSlopesAdd:
            delete(pSlopesAdd)
            pSlopesAdd = None
        return errorFlag
    lowOffset = htOffset.LowTime.val
    if htOffset.HighHeight_Mult.dataAvailFlag != 1:
        HighMult = 1
    else:
        HighMult = htOffset.HighHeight_Mult.val
    if htOffset.HighHeight_Add.dataAvailFlag != 1:
        HighAdd = 0
    else:
        HighAdd = htOffset.HighHeight_Add.val
    if htOffset.LowHeight_Mult.dataAvailFlag != 1:
        LowMult = 1
    else:
        LowMult = htOffset.LowHeight_Mult.val
    if htOffset.LowHeight_Add.dataAvailFlag != 1:
        LowAdd = 0
    else:
        LowAdd = htOffset.LowHeight_Add.val
    for i in range(0, NoOfHighsLows + 2):
        if HLFlagHdl[i] == low:
            HLTimeHdl[i].val = HLTimeHdl[i].val + lowOffset
            HLHeightHdl[i] = LowMult * HLHeightHdl[i] + LowAdd
        else:
            HLTimeHdl[i].val = HLTimeHdl[i].val + highOffset
            HLHeightHdl[i] = HighMult * HLHeightHdl[i] + HighAdd
    for i in range(1, NoOfHighsLows):
        if HLTimeHdl[i].val < HLTimeHdl[i - 1].val:
            errorFlag = 24
            if HArrayPtr:
                delete(HArrayPtr)
                HArrayPtr = None
            if TArrayPtr:
                delete(TArrayPtr)
                TArrayPtr = None
            if pSlopesMult:
                delete(pSlopesMult)
                pSlopesMult = None
            if pSlopesAdd:
                delete(pSlopesAdd)
                pSlopesAdd = None
            return errorFlag
    numOfPoints = answers.nPts
    for i in range(0, numOfPoints):
        t = TimeHdl[i].val
        if i == 0:
            index = -99
        errorFlag, w1, w2, index = GetWeights(t, TArrayPtr, w1, w2, index, NoOfHighsLows)
        flag = lowToHigh
        if index == -99:
            if HLFlagHdl[0] == low:
                flag = highToLow
        elif HLFlagHdl[index] == high:
            flag = highToLow
        if errorFlag == 0:
            if flag == lowToHigh:
                timeCorrection = lowOffset * w1 + highOffset * w2
            else:
                timeCorrection = lowOffset * w2 + highOffset * w1
            TimeHdl[i].val = TimeHdl[i].val + timeCorrection
    pSlopesMult = new('double *', NoOfHighsLows)
    pSlopesAdd = new('double *', NoOfHighsLows)
    pSlopesMult[0] = 0
    pSlopesAdd[0] = 0
    pSlopesMult[NoOfHighsLows - 1] = 0
    pSlopesAdd[NoOfHighsLows - 1] = 0
    for i in range(1, NoOfHighsLows - 1):
        if HLFlagHdl[i] == low:
            pSlopesMult[i] = ((LowMult - HighMult) / (HLTimeHdl[i].val - HLTimeHdl[i - 1].val) + (HighMult - LowMult) / (HLTimeHdl[i + 1].val - HLTimeHdl[i].val)) * 0.5
            pSlopesAdd[i] = ((LowAdd - HighAdd) / (HLTimeHdl[i].val - HLTimeHdl[i - 1].val) + (HighAdd - LowAdd) / (HLTimeHdl[i + 1].val - HLTimeHdl[i].val)) * 0.5
        else:
            pSlopesMult[i] = ((HighMult - LowMult) / (HLTimeHdl[i].val - HLTimeHdl[i - 1].val) + (LowMult - HighMult) / (HLTimeHdl[i + 1].val - HLTimeHdl[i].val)) * 0.5
            pSlopesAdd[i] = ((HighAdd - LowAdd) / (HLTimeHdl[i].val - HLTimeHdl[i - 1].val) + (LowAdd - HighAdd) / (HLTimeHdl[i + 1].val - HLTimeHdl[i].val)) * 0.5
    dT0 = '?dT0'
    dT1 = '?dT1'
    dSMult0 = '?dSMult0'
    dSMult1 = '?dSMult1'
    dSAdd0 = '?dSAdd0'
    dSAdd1 = '?dSAdd1'
    i = 0
    j = 0
    while i < numOfPoints and j < NoOfHighsLows:
        t = TimeHdl[i].val
        if t > HLTimeHdl[j].val:
            _old45 = j
            j += 1
        if j == 0:
            dT0 = HLTimeHdl[NoOfHighsLows].val
            dT1 = HLTimeHdl[0].val
            dSMult0 = 0
            dSMult1 = pSlopesMult[0]
            dSAdd0 = 0
            dSAdd1 = pSlopesAdd[0]
        elif j == NoOfHighsLows:
            dT0 = HLTimeHdl[NoOfHighsLows - 1].val
            dT1 = HLTimeHdl[NoOfHighsLows + 1].val
            dSMult0 = pSlopesMult[NoOfHighsLows - 1]
            dSMult1 = 0
            dSAdd0 = pSlopesAdd[NoOfHighsLows - 1]
            dSAdd1 = 0
        else:
            dT0 = HLTimeHdl[j - 1].val
            dT1 = HLTimeHdl[j].val
        if HLFlagHdl[j] == low:
            HeightCorrectionMult = Hermite(HighMult, dSMult0, dT0, LowMult, dSMult1, dT1, t)
            HeightCorrectionAdd = Hermite(HighAdd, dSAdd0, dT0, LowAdd, dSAdd1, dT1, t)
        else:
            HeightCorrectionMult = Hermite(LowMult, dSMult0, dT0, HighMult, dSMult1, dT1, t)
            HeightCorrectionAdd = Hermite(LowAdd, dSAdd0, dT0, HighAdd, dSAdd1, dT1, t)
        ValHdl[i] = ValHdl[i] * HeightCorrectionMult + HeightCorrectionAdd
        i += 1
    if HArrayPtr:
        delete(HArrayPtr)
        HArrayPtr = None
    if TArrayPtr:
        delete(TArrayPtr)
        TArrayPtr = None
    if pSlopesMult:
        delete(pSlopesMult)
        pSlopesMult = None
    if pSlopesAdd:
        delete(pSlopesAdd)
        pSlopesAdd = None
    return errorFlag

@ func gnome.lib.ShioHeight.FindExtraHL
def FindExtraHL(AMPA, epoch, numOfConstituents, answers, zeroTime, extraTime, datum):
    i = '?i'
    nPts = '?nPts'
    nHL = '?nHL'
    h = '?h'
    lastValue = '?lastValue'
    t = '?t'
    firstTime = '?firstTime'
    lastTime = '?lastTime'
    dt = '?dt'
    HHdl = None
    THdl = None
    tHdl = None
    tHdl = answers.HighLow
    THdl = answers.time
    HHdl = answers.height
    nPts = answers.nPts
    nHL = answers.numHighLows
    firstTime = THdl[0].val
    lastValue = HHdl[0]
    dt = 1 / 60
    if tHdl[0] == 0:
        for i in range(1, 1441):
            t = firstTime - dt * i
            h = RStatHeight(t, AMPA, epoch, numOfConstituents, datum)
            if h <= lastValue:
                break
            lastValue = h
    else:
        for i in range(1, 1441):
            t = firstTime - dt * i
            h = RStatHeight(t, AMPA, epoch, numOfConstituents, datum)
            if h >= lastValue:
                break
            lastValue = h
    zeroTime[0] = t + dt / 2
    lastTime = THdl[nPts - 1].val
    lastValue = HHdl[nPts - 1]
    if tHdl[nHL - 1] == 0:
        for i in range(1, 1441):
            t = lastTime + dt * i
            h = RStatHeight(t, AMPA, epoch, numOfConstituents, datum)
            if h <= lastValue:
                break
            lastValue = h
    else:
        for i in range(1, 1441):
            t = lastTime + dt * i
            h = RStatHeight(t, AMPA, epoch, numOfConstituents, datum)
            if h >= lastValue:
                break
            lastValue = h
    extraTime[0] = t - dt / 2
    return 0

@ func gnome.lib.ShioHeight.FindHighLow
def FindHighLow(startTime, endTime, HighLowFlag, AMPA, epoch, numOfConstituents, theHeight, theTime, datum):
    timeSpan = '?timeSpan'
    t = 0
    h = 0
    t0 = '?t0'
    t1 = '?t1'
    h0 = '?h0'
    h1 = '?h1'
    low = 0
    findFlag = '?findFlag'
    numOfSteps = '?numOfSteps'
    i = '?i'
    timeSpan = endTime - startTime
    if timeSpan <= 0.05:
        t = (startTime + endTime) / 2
        h = RStatHeight(t, AMPA, epoch, numOfConstituents, datum)
        theHeight[0] = h
        theTime[0] = t
        return 0
    numOfSteps = int(timeSpan * 60 + 1)
    t0 = startTime
    h0 = RStatHeight(t0, AMPA, epoch, numOfConstituents, datum)
    findFlag = 0
    for i in range(1, numOfSteps):
        t1 = t0 + 1 / 60
        h1 = RStatHeight(t1, AMPA, epoch, numOfConstituents, datum)
        if HighLowFlag == low:
            if h1 >= h0:
                t = t0
                h = h0
                findFlag = 1
                break
        elif h1 < h0:
            t = t0
            h = h0
            findFlag = 1
            break
        h0 = h1
        t0 = t1
    if findFlag == 0:
        theHeight[0] = 0
        theTime[0] = (startTime + endTime) / 2
    else:
        theHeight[0] = h
        theTime[0] = t
    return 0

@ func gnome.lib.ShioHeight.FixHEnds
def FixHEnds(answers, beginTime, endTime):
    numberOfPoints = '?numberOfPoints'
    i = '?i'
    startCross = '?startCross'
    endCross = '?endCross'
    numberOfHighLows = '?numberOfHighLows'
    w1 = '?w1'
    w2 = '?w2'
    dt = '?dt'
    dt1 = '?dt1'
    firstPointValue = '?firstPointValue'
    lastPointValue = '?lastPointValue'
    numberOfPoints = answers.nPts
    theTimeHdl = answers.time
    theHeightHdl = answers.height
    numberOfHighLows = answers.numHighLows
    theHLTimeHdl = answers.HighLowTimes
    startCross = -1
    endCross = -1
    for i in range(1, numberOfPoints):
        if startCross == -1:
            if theTimeHdl[i].val > beginTime:
                startCross = i - 1
        if endCross == -1:
            if endTime < theTimeHdl[i].val:
                endCross = i - 1
    if startCross == -1:
        startCross = 0
    if endCross == -1:
        endCross = numberOfPoints - 2
    dt = theTimeHdl[startCross + 1].val - theTimeHdl[startCross].val
    dt1 = beginTime - theTimeHdl[startCross].val
    w2 = dt1 / dt
    w1 = 1 - w2
    firstPointValue = w1 * theHeightHdl[startCross] + w2 * theHeightHdl[startCross + 1]
    dt = theTimeHdl[endCross + 1].val - theTimeHdl[endCross].val
    dt1 = endTime - theTimeHdl[endCross].val
    w2 = dt1 / dt
    w1 = 1 - w2
    lastPointValue = w1 * theHeightHdl[endCross] + w2 * theHeightHdl[endCross + 1]
    for i in range(0, startCross + 1):
        if i < startCross:
            theTimeHdl[i].flag = 1
        else:
            theTimeHdl[i].val = beginTime
            theHeightHdl[i] = firstPointValue
    for i in range(endCross + 1, numberOfPoints):
        if i > endCross + 1:
            theTimeHdl[i].flag = 1
        else:
            theTimeHdl[i].val = endTime
            theHeightHdl[i] = lastPointValue
    for i in range(0, numberOfHighLows):
        if theHLTimeHdl[i].val < beginTime:
            theHLTimeHdl[i].flag = 1
        elif theHLTimeHdl[i].val > endTime:
            theHLTimeHdl[i].flag = 1
    return

@ func gnome.lib.ShioHeight.GetJulianDayHr
def GetJulianDayHr(day, month, year, hour):
    DaysInMonth = double_13_(0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
    theHour = 0
    i = 0
    err = 0
    if year % 4 == 0 and year % 100 != 0 or year % 400 == 0:
        DaysInMonth[2] = 29
    if month < 1 or month > 12:
        err = 3
        return err
    if day < 1 or day > DaysInMonth[month]:
        err = 4
        return err
    if year < 1904 or year > 2035:
        err = 5
        return err
    for i in range(1, month):
        theHour = theHour + DaysInMonth[i] * 24
    theHour = theHour + 24 * day
    theHour = theHour - 24
    hour[0] = theHour
    return err

@ func gnome.lib.ShioHeight.GetReferenceCurve
def GetReferenceCurve(constituent, numOfConstituents, XODE, VPU, beginHour, endHour, timestep, answers):
    theHeight = 0
    oldHeight = 0
    theTime = 0
    slope1 = 0
    slope2 = 0
    t0 = 0
    t1 = 0
    t2 = 0
    MaxMinTime = 0
    MaxMinHeight = 0
    theHigh = 0
    theLow = 0
    theHighTime = 0
    theLowTime = 0
    zeroTime = 0
    lastTime = 0
    referenceHeight = 0
    AMPAPtr = None
    epochPtr = None
    HHdl = None
    HLHHdl = None
    THdl = None
    HLTHdl = None
    i = 0
    maxPeaks = 0
    NumOfSteps = 0
    HighLowCount = 0
    pcnt = 0
    tHdl = None
    errorFlag = 0
    stop = False
    err = 0
    NumOfSteps = int((endHour - beginHour) * 60 / timestep)
    NumOfSteps = NumOfSteps + 2
    maxPeaks = int((endHour - beginHour) / 24 * 4) + 4
    try:
        AMPAPtr = new('double *', numOfConstituents)
        epochPtr = new('double *', numOfConstituents)
        HHdl = new('double *', NumOfSteps)
        THdl = new('EXTFLAG *', NumOfSteps, EXTFLAG_())
        HLHHdl = new('double *', maxPeaks)
        HLTHdl = new('EXTFLAG *', maxPeaks + 2, EXTFLAG_())
        tHdl = new('short *', maxPeaks)
        for i in range(0, NumOfSteps):
            HHdl[i] = 0
            THdl[i].val = 0
            THdl[i].flag = 0
            THdl[i].xtra = 0
        for i in range(0, maxPeaks):
            HLHHdl[i] = 0
            HLTHdl[i].val = 0
            HLTHdl[i].flag = 0
            HLTHdl[i].xtra = 0
            tHdl[i] = 0
        HLTHdl[maxPeaks].val = 0
        HLTHdl[maxPeaks].flag = 0
        HLTHdl[maxPeaks].xtra = 0
        HLTHdl[maxPeaks + 1].val = 0
        HLTHdl[maxPeaks + 1].flag = 0
        HLTHdl[maxPeaks + 1].xtra = 0
    except Exception:
        errorFlag = 13
        if errorFlag:
            if HHdl:
                delete(HHdl)
                HHdl = None
            if THdl:
                delete(THdl)
                THdl = None
            if HLHHdl:
                delete(HLHHdl)
            if HLTHdl:
                delete(HLTHdl)
                HLTHdl = None
            if tHdl:
                delete(tHdl)
                tHdl = None
        if AMPAPtr:
            delete(AMPAPtr)
            AMPAPtr = None
        if epochPtr:
            delete(epochPtr)
            epochPtr = None
        return errorFlag
    for i in range(0, numOfConstituents):
        AMPAPtr[i] = constituent[i].H * XODE[i]
        epochPtr[i] = VPU[i] - constituent[i].kPrime
    theTime = beginHour
    oldHeight = 0
    t0 = theTime
    t1 = theTime
    t2 = theTime
    slope1 = 1
    slope2 = 1
    HighLowCount = 0
    referenceHeight = GetDatum(constituent)
    stop = False
    for i in range(0, NumOfSteps):
        theHeight = RStatHeight(theTime, AMPAPtr, epochPtr, numOfConstituents, referenceHeight)
        THdl[i].val = theTime
        HHdl[i] = theHeight
        if i > 0:
            if i == 1:
                slope1 = theHeight - oldHeight
                slope2 = slope1
                t1 = theTime
                t2 = theTime
            elif i == 2:
                slope2 = theHeight - oldHeight
                t2 = theTime
            else:
                slope1 = slope2
                slope2 = theHeight - oldHeight
                t0 = t1
                t1 = t2
                t2 = theTime
            if slope1 == 0:
                MaxMinTime = (t0 + t1) / 2
                MaxMinHeight = RStatHeight(MaxMinTime, AMPAPtr, epochPtr, numOfConstituents, referenceHeight)
                if HighLowCount >= maxPeaks:
                    err = 41
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                if MaxMinHeight < oldHeight:
                    tHdl[HighLowCount] = 0
                if MaxMinHeight > oldHeight:
                    tHdl[HighLowCount] = 1
                else:
                    errorFlag = 16
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                HLHHdl[HighLowCount] = MaxMinHeight
                HLTHdl[HighLowCount].val = MaxMinTime
                HighLowCount = HighLowCount + 1
            elif slope2 == 0:
                pass
            elif slope1 < 0 and slope2 > 0:
                errorFlag, theLow, theLowTime = FindHighLow(t0, theTime, 0, AMPAPtr, epochPtr, numOfConstituents, theLow, theLowTime, referenceHeight)
                if errorFlag != 0:
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                if HighLowCount >= maxPeaks:
                    err = 41
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                HLHHdl[HighLowCount] = theLow
                HLTHdl[HighLowCount].val = theLowTime
                tHdl[HighLowCount] = 0
                HighLowCount = HighLowCount + 1
            elif slope1 > 0 and slope2 < 0:
                errorFlag, theHigh, theHighTime = FindHighLow(t0, theTime, 1, AMPAPtr, epochPtr, numOfConstituents, theHigh, theHighTime, referenceHeight)
                if errorFlag != 0:
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                if HighLowCount >= maxPeaks:
                    err = 41
                    if errorFlag:
                        if HHdl:
                            delete(HHdl)
                            HHdl = None
                        if THdl:
                            delete(THdl)
                            THdl = None
                        if HLHHdl:
                            delete(HLHHdl)
                        if HLTHdl:
                            delete(HLTHdl)
                            HLTHdl = None
                        if tHdl:
                            delete(tHdl)
                            tHdl = None
                    if AMPAPtr:
                        delete(AMPAPtr)
                        AMPAPtr = None
                    if epochPtr:
                        delete(epochPtr)
                        epochPtr = None
                    return errorFlag
                HLHHdl[HighLowCount] = theHigh
                HLTHdl[HighLowCount].val = theHighTime
                tHdl[HighLowCount] = 1
                HighLowCount = HighLowCount + 1
        oldHeight = theHeight
        theTime = beginHour + (i + 1) * timestep / 60
    answers.nPts = NumOfSteps
    answers.time = THdl
    answers.height = HHdl
    answers.numHighLows = HighLowCount
    answers.HighLowHeights = HLHHdl
    answers.HighLowTimes = HLTHdl
    answers.HighLow = tHdl
    errorFlag, zeroTime, lastTime = FindExtraHL(AMPAPtr, epochPtr, numOfConstituents, answers, zeroTime, lastTime, referenceHeight)
    if errorFlag != 0:
        if errorFlag:
            if HHdl:
                delete(HHdl)
                HHdl = None
            if THdl:
                delete(THdl)
                THdl = None
            if HLHHdl:
                delete(HLHHdl)
            if HLTHdl:
                delete(HLTHdl)
                HLTHdl = None
            if tHdl:
                delete(tHdl)
                tHdl = None
        if AMPAPtr:
            delete(AMPAPtr)
            AMPAPtr = None
        if epochPtr:
            delete(epochPtr)
            epochPtr = None
        return errorFlag
    HLTHdl[HighLowCount].val = zeroTime
    HLTHdl[HighLowCount + 1].val = lastTime
    if errorFlag:
        if HHdl:
            delete(HHdl)
            HHdl = None
        if THdl:
            delete(THdl)
            THdl = None
        if HLHHdl:
            delete(HLHHdl)
        if HLTHdl:
            delete(HLTHdl)
            HLTHdl = None
        if tHdl:
            delete(tHdl)
            tHdl = None
    if AMPAPtr:
        delete(AMPAPtr)
        AMPAPtr = None
    if epochPtr:
        delete(epochPtr)
        epochPtr = None
    return errorFlag

@ func gnome.lib.ShioHeight.GetTideHeight
def GetTideHeight(BeginDate, EndDate, XODE, VPU, numOfConstituents, constituent, htOffset, answers, DaylightSavings):
    str1 = '""'
    beginHour = 0
    endHour = 0
    timestep = 10
    deltaTime = 0
    dt = 0
    oldBeginHour = 0
    oldEndHour = 0
    biggestOffset = 0
    absBiggestOffset = 0
    theHour = 0
    numberOfSteps = 0
    errorFlag = 0
    beginDay = 0
    beginMonth = 0
    beginYear = 0
    endDay = 0
    endMonth = 0
    endYear = 0
    tval = 0
    ehour = 0
    julianoffset = 0
    grafBeginHour = 0
    grafEndHour = 0
    i = 0
    size1 = 0
    size2 = 0
    numpnts = 0
    errorFlag = CheckHeightOffsets(htOffset)
    if errorFlag:
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    beginDay = BeginDate.day
    beginMonth = BeginDate.month
    beginYear = BeginDate.year
    timestep = 10
    dt = timestep / 60
    errorFlag, beginHour = GetJulianDayHr(beginDay, beginMonth, beginYear, beginHour)
    if errorFlag != 0:
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    endDay = EndDate.day
    endMonth = EndDate.month
    endYear = EndDate.year
    errorFlag, endHour = GetJulianDayHr(endDay, endMonth, endYear, endHour)
    if errorFlag != 0:
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    if endYear > beginYear:
        errorFlag, theHour = GetJulianDayHr(31, 12, beginYear, theHour)
        if errorFlag != 0:
            CompErrors(errorFlag, str1)
            if errorFlag != 0:
                printf('"%s"', str1)
            return errorFlag
        endHour = theHour + endHour + 24
    else:
        endHour = endHour + 24
    grafBeginHour = beginHour
    grafEndHour = endHour
    biggestOffset = htOffset.HighTime.val
    absBiggestOffset = abs(biggestOffset)
    if absBiggestOffset < abs(htOffset.LowTime.val):
        biggestOffset = htOffset.LowTime.val
        absBiggestOffset = abs(biggestOffset)
    if DaylightSavings:
        beginHour = beginHour - 1
        endHour = endHour - 1
        grafBeginHour = grafBeginHour - 1
        grafEndHour = grafEndHour - 1
    oldBeginHour = beginHour
    oldEndHour = endHour
    endHour = endHour + absBiggestOffset
    beginHour = beginHour - absBiggestOffset
    beginHour = beginHour - dt
    endHour = endHour + dt
    if beginHour >= endHour:
        errorFlag = 1
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    deltaTime = endHour - beginHour
    if deltaTime <= dt:
        errorFlag = 2
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    numberOfSteps = int((endHour - beginHour) / dt + 1)
    if numOfConstituents < 5:
        errorFlag = 6
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    errorFlag = GetReferenceCurve(constituent, numOfConstituents, XODE, VPU, beginHour, endHour, timestep, answers)
    if errorFlag != 0:
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    errorFlag = DoOffSetCorrection(answers, htOffset)
    if errorFlag != 0:
        CompErrors(errorFlag, str1)
        if errorFlag != 0:
            printf('"%s"', str1)
        return errorFlag
    FixHEnds(answers, oldBeginHour, oldEndHour)
    ResetTime(answers, oldBeginHour)
    CompErrors(errorFlag, str1)
    if errorFlag != 0:
        printf('"%s"', str1)
    return errorFlag

@ func gnome.lib.ShioHeight.GetWeights
def GetWeights(t, TArray, w1, w2, index, NoOfHighsLows):
    t0 = 0
    t1 = 0
    start = '?start'
    i = '?i'
    start = index[0]
    if start < -1:
        if t < TArray[0].val:
            if t < TArray[NoOfHighsLows].val:
                return -1
            t0 = TArray[NoOfHighsLows].val
            t1 = TArray[0].val
        else:
            start = 0
    if start >= 0:
        if t > TArray[NoOfHighsLows - 1].val:
            t0 = TArray[NoOfHighsLows - 1].val
            t1 = TArray[NoOfHighsLows + 1].val
            index[0] = NoOfHighsLows - 1
        elif t < TArray[0].val:
            t0 = TArray[NoOfHighsLows].val
            t1 = TArray[0].val
            index[0] = -99
        else:
            i = NoOfHighsLows - 1
            while i >= start:
                if t >= TArray[i].val:
                    t0 = TArray[i].val
                    t1 = TArray[i + 1].val
                    index[0] = i
                    break
                i -= 1
    w1[0] = (t1 - t) / (t1 - t0)
    w2[0] = 1 - (t1 - t) / (t1 - t0)
    return 0

@ func gnome.lib.ShioHeight.RStatHeight
def RStatHeight(theTime, AMPA, epoch, ncoeff, datum):
    f = double_114_(28.9841042, 30, 28.4397295, 15.0410686, 57.9682084, 13.9430356, 86.9523127, 44.0251729, 60, 57.4238337, 28.5125831, 90, 27.9682084, 27.8953548, 16.1391017, 29.4556253, 15, 14.4966939, 15.5854433, 0.5443747, 0.0821373, 0.0410686, 1.0158958, 1.0980331, 13.4715145, 13.3986609, 29.9589333, 30.0410667, 12.8542862, 14.9589314, 31.0158958, 43.4761563, 29.5284789, 42.9271398, 30.0821373, 115.9364169, 58.9841042, 12.9271398, 14.0251729, 14.5695476, 15.9748272, 16.0569644, 30.5443747, 27.4238337, 28.9019669, 29.0662415, 26.879459, 26.9523126, 27.4966873, 31.0980331, 27.8039338, 28.5947204, 29.1483788, 29.373488, 30.7086493, 43.9430356, 45.0410686, 42.3827651, 59.0662415, 58.4397295, 57.4966873, 56.9523127, 58.5125831, 56.879459, 59.5284789, 71.3668693, 71.911244, 73.009277, 74.0251728, 74.10731, 72.9271398, 71.9933813, 72.4649023, 88.9841042, 86.407938, 87.4238337, 87.9682084, 85.3920421, 85.8635632, 88.5125831, 87.4966873, 89.0662415, 85.9364168, 86.4807916, 88.0503457, 100.3509735, 100.9046318, 101.911244, 103.0092771, 116.407938, 116.9523127, 117.9682084, 114.8476674, 115.3920422, 117.4966873, 115.4648958, 116.4807916, 117.03445, 118.0503457, 129.888736, 130.4331108, 130.9774855, 131.9933813, 144.3761464, 144.9205211, 145.3920422, 145.9364169, 146.4807916, 146.9523127, 160.9774855, 174.3761464, 174.9205211, 175.4648958, 175.9364169)
    DegreesToRadians = 0.01745329252
    height = '?height'
    argu = '?argu'
    degrees = '?degrees'
    i = '?i'
    height = 0
    if ncoeff < 37:
        ncoeff = 37
    if ncoeff > 114:
        ncoeff = 114
    for i in range(0, ncoeff):
        if AMPA[i] != 0:
            degrees = f[i] * theTime + epoch[i]
            degrees = math.fmod(degrees, 360)
            argu = degrees * DegreesToRadians
            height = height + AMPA[i] * math.cos(argu)
    height = height + datum
    return height

@ func gnome.lib.ShioHeight.ResetTime
def ResetTime(answers, beginHour):
    numberOfPoints = '?numberOfPoints'
    i = '?i'
    numberOfPoints = answers.nPts
    theTimeHdl = answers.time
    for i in range(0, numberOfPoints):
        theTimeHdl[i].val = theTimeHdl[i].val - beginHour
    numberOfPoints = answers.numHighLows
    theTimeHdl = answers.HighLowTimes
    for i in range(0, numberOfPoints):
        theTimeHdl[i].val = theTimeHdl[i].val - beginHour
    return

