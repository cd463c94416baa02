## R1 times convert to seconds and back, for scalars and arrays
@ gnome.utilities.time_utils.TZOffset.__post_init__ | ignore_exc=False
def __post_init__(self):
    if self.offset is not None:
        try:
            hours = self.offset.total_seconds() / 3600
        except AttributeError:
            hours = float(self.offset)
        object.__setattr__(self, 'offset', hours)
    if self.title == '':
        if self.offset is None:
            title = 'No Timezone Specified'
        else:
            title = self.as_iso_string()
        object.__setattr__(self, 'title', title)

@ gnome.utilities.time_utils.TZOffset.as_timedelta
def as_timedelta(self):
    if self.offset is None:
        return timedelta(0)
    else:
        return timedelta(minutes=int(self.offset * 60))

@ gnome.utilities.time_utils.TZOffset.as_iso_string
def as_iso_string(self):
    if self.offset is None:
        return ''
    else:
        sign = '-' if self.offset < 0 else '+'
        hours = int(abs(self.offset))
        minutes = int((abs(self.offset) - hours) * 60)
        return f'{sign}{hours:0>2}:{minutes:0>2}'

@ gnome.utilities.time_utils.TZOffsetSchema.serialize
def serialize(self, appstruct):
    if appstruct is not null:
        dict_ = {'title': appstruct.title, 'offset': appstruct.offset}
        return dict_
    else:
        return super().serialize(null)

@ gnome.utilities.time_utils.TZOffsetSchema.deserialize
def deserialize(self, cstruct=null):
    dict_ = super().deserialize(cstruct)
    if cstruct is not null:
        return TZOffset(**dict_)
    else:
        return null

@ gnome.utilities.time_utils.FixedOffset.__init__
def __init__(self, offset, name):
    self.__offset = timedelta(minutes=offset)
    self.__name = name

@ gnome.utilities.time_utils.FixedOffset.utcoffset
def utcoffset(self, dt):
    return self.__offset

@ gnome.utilities.time_utils.FixedOffset.tzname
def tzname(self, dt):
    return self.__name

@ gnome.utilities.time_utils.FixedOffset.dst
def dst(self, dt):
    return 0

@ gnome.utilities.time_utils.UTC.__init__
def __init__(self):
    FixedOffset.__init__(self, 0, 'UTC')

@ func gnome.utilities.time_utils.timezone_offset_seconds
def timezone_offset_seconds():
    return time.mktime(time.localtime()) - time.mktime(time.gmtime())

@ func gnome.utilities.time_utils.zero_time
def zero_time():
    offset = timezone_offset_seconds()
    return offset if offset >= 0 else 0

@ func gnome.utilities.time_utils.date_to_sec | ignore_exc=False
def date_to_sec(date_times):
    try:
        date_times[0]
        scalar = False
        if type(date_times) == np.ndarray and date_times.dtype == np.dtype('<M8[s]'):
            date_times = date_times.astype(datetime).tolist()
    except TypeError:
        scalar = True
        date_times = [date_times]
    except IndexError:
        scalar = True
        date_times = [date_times.astype(datetime)]
    if not isinstance(date_times[0], (datetime, cftime.datetime)):
        raise TypeError()
    t_list = []
    for dt in date_times:
        timetuple = dt.timetuple()[:-1] + (0,)
        t_list.append(time.mktime(tuple(timetuple)))
    return np.array(t_list, dtype=np.uint32) if not scalar else t_list[0]

@ func gnome.utilities.time_utils.sec_to_date
def sec_to_date(seconds):
    t_array = np.asarray(seconds, dtype=np.uint32).reshape(-1)
    d_list = [sec_to_datetime(sec) for sec in t_array]
    if len(d_list) == 1:
        return d_list[0]
    else:
        return np.array(d_list, dtype='datetime64[s]')

@ func gnome.utilities.time_utils.sec_to_datetime
def sec_to_datetime(seconds):
    dt = datetime.fromtimestamp(seconds)
    timetuple = time.localtime(seconds)
    if timetuple[-1] == 1:
        dt -= timedelta(hours=1)
    return dt

@ func gnome.utilities.time_utils.sec_to_timestruct
def sec_to_timestruct(seconds):
    SECS_IN_HOUR = 3600
    timetuple = time.localtime(seconds)
    if timetuple[-1] == 1:
        timetuple = list(time.localtime(seconds - SECS_IN_HOUR))
        timetuple[-1] = 0
    return time.struct_time(timetuple)

@ func gnome.utilities.time_utils.round_time
def round_time(dt=None, roundTo=60):
    if dt is None:
        dt = datetime.now()
    dt = np.array(dt, dtype='datetime64[s]').reshape(-1)
    for li in range(len(dt)):
        date = dt[li].astype(object)
        seconds = (date - date.min).seconds
        rounding = (seconds + roundTo / 2) // roundTo * roundTo
        dt[li] = date + timedelta(0, rounding - seconds, -date.microsecond)
    return len(dt) == 1 and dt[0].astype(object) or dt

@ func gnome.utilities.time_utils.asdatetime
def asdatetime(dt):
    if dt is None:
        return dt
    if not isinstance(dt, (datetime, cftime.datetime)):
        return parsetime(dt, ignoretz=True)
    else:
        return dt

@ func gnome.scripting.time_utils.seconds
def seconds(seconds=1):
    return timedelta(seconds=seconds)

@ func gnome.scripting.time_utils.minutes
def minutes(minutes=1):
    return timedelta(minutes=minutes)

@ func gnome.scripting.time_utils.hours
def hours(hours=1):
    return timedelta(hours=hours)

@ func gnome.scripting.time_utils.days
def days(days=1):
    return timedelta(days=days)

@ func gnome.scripting.time_utils.weeks
def weeks(weeks=1):
    return timedelta(days=weeks * 7)

## R2 infinite times compare as infinitely late or early
@ gnome.utilities.inf_datetime.InfTime.isoformat
def isoformat(self):
    return 'inf'

@ gnome.utilities.inf_datetime.InfTime.__lt__
def __lt__(self, other):
    return False

@ gnome.utilities.inf_datetime.InfTime.__le__
def __le__(self, other):
    if isinstance(other, InfTime):
        return True
    else:
        return False

@ gnome.utilities.inf_datetime.InfTime.__eq__
def __eq__(self, other):
    if isinstance(other, InfTime):
        return True
    else:
        return False

@ gnome.utilities.inf_datetime.InfTime.__ne__
def __ne__(self, other):
    if isinstance(other, InfTime):
        return False
    else:
        return True

@ gnome.utilities.inf_datetime.InfTime.__gt__
def __gt__(self, other):
    if isinstance(other, InfTime):
        return False
    else:
        return True

@ gnome.utilities.inf_datetime.InfTime.__ge__
def __ge__(self, other):
    return True

@ gnome.utilities.inf_datetime.InfTime.__pos__
def __pos__(self):
    return self

@ gnome.utilities.inf_datetime.InfTime.__neg__
def __neg__(self):
    return MinusInfTime()

@ gnome.utilities.inf_datetime.MinusInfTime.isoformat
def isoformat(self):
    return '-inf'

@ gnome.utilities.inf_datetime.MinusInfTime.__lt__
def __lt__(self, other):
    if isinstance(other, MinusInfTime):
        return False
    else:
        return True

@ gnome.utilities.inf_datetime.MinusInfTime.__le__
def __le__(self, other):
    return True

@ gnome.utilities.inf_datetime.MinusInfTime.__eq__
def __eq__(self, other):
    if isinstance(other, MinusInfTime):
        return True
    else:
        return False

@ gnome.utilities.inf_datetime.MinusInfTime.__ne__
def __ne__(self, other):
    if isinstance(other, MinusInfTime):
        return False
    else:
        return True

@ gnome.utilities.inf_datetime.MinusInfTime.__gt__
def __gt__(self, other):
    return False

@ gnome.utilities.inf_datetime.MinusInfTime.__ge__
def __ge__(self, other):
    if isinstance(other, MinusInfTime):
        return True
    else:
        return False

@ gnome.utilities.inf_datetime.MinusInfTime.__pos__
def __pos__(self):
    return self

@ gnome.utilities.inf_datetime.MinusInfTime.__neg__
def __neg__(self):
    return InfTime()

@ gnome.utilities.inf_datetime.InfDateTime.__new__ | ignore_exc=False
def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
    if year == 'inf':
        return InfTime()
    elif year == '-inf':
        return MinusInfTime()
    else:
        try:
            int(year)
        except ValueError:
            raise ValueError()
        if month is None:
            raise TypeError()
        if day is None:
            raise TypeError()
        inst = super(InfDateTime, cls).__new__(cls, year, month, day, hour, minute, second, microsecond, tzinfo)
        if inst > max_datetime:
            raise ValueError()
        elif inst < min_datetime:
            raise ValueError()
        return inst

@ const gnome.utilities.inf_datetime.min_datetime
datetime.datetime(1970, 1, 1)

@ const gnome.utilities.inf_datetime.max_datetime
datetime.datetime(2038, 1, 19)

## R3 speed and direction convert to components and back
@ func gnome.utilities.transforms.r_theta_to_uv_current
def r_theta_to_uv_current(r_theta):
    xform = np.array([(-1.0, 0.0), (0.0, -1.0)])
    return np.dot(r_theta_to_uv_wind(r_theta), xform)

@ func gnome.utilities.transforms.uv_to_r_theta_current
def uv_to_r_theta_current(uv):
    xform = np.array([(-1.0, 0.0), (0.0, -1.0)])
    uv = np.dot(uv.reshape(-1, 2), xform)
    return uv_to_r_theta_wind(uv)

@ func gnome.utilities.transforms.r_theta_to_uv_wind
def r_theta_to_uv_wind(r_theta):
    r_theta = np.asarray(r_theta, dtype=np.float64).reshape(-1, 2)
    if np.any(r_theta[:, 1] > 360) or np.any(r_theta[:, 1] < 0):
        raise ValueError()
    if np.any(r_theta[:, 0] < 0):
        raise ValueError()
    rq = np.array(r_theta)
    rq[:, 1] = np.deg2rad(rq[:, 1])
    uv = np.zeros_like(rq)
    uv[:, 0] = np.round(rq[:, 0] * np.sin(rq[:, 1]), decimals=14)
    uv[:, 1] = np.round(rq[:, 0] * np.cos(rq[:, 1]), decimals=14)
    uv = -1 * uv
    return uv

@ func gnome.utilities.transforms.uv_to_r_theta_wind
def uv_to_r_theta_wind(uv):
    uv = np.asarray(uv, dtype=np.float64).reshape(-1, 2)
    r_theta = np.zeros_like(uv)
    r_theta[:, 0] = np.apply_along_axis(np.linalg.norm, 1, uv)
    uv = -1 * uv
    r_theta[:, 1] = (np.rad2deg(np.arctan2(uv[:, 0], uv[:, 1])) + 360) % 360
    return r_theta

@ func gnome.utilities.convert.to_time_value_pair
def to_time_value_pair(datetime_value, in_ts_format=None):
    if datetime_value.dtype not in (basic_types.datetime_value_2d, basic_types.datetime_value_1d):
        raise ValueError()
    time_value_pair = np.zeros((len(datetime_value),), dtype=basic_types.time_value_pair)
    time_value_pair['time'] = time_utils.date_to_sec(datetime_value['time'])
    if datetime_value.dtype == basic_types.datetime_value_1d:
        time_value_pair['value']['u'] = datetime_value['value'][:]
    else:
        if in_ts_format is None:
            raise ValueError()
        in_ts_format = tsformat(in_ts_format)
        if in_ts_format == basic_types.ts_format.magnitude_direction:
            uv = transforms.r_theta_to_uv_wind(datetime_value['value'])
            time_value_pair['value']['u'] = uv[:, 0]
            time_value_pair['value']['v'] = uv[:, 1]
        elif in_ts_format == basic_types.ts_format.uv:
            time_value_pair['value']['u'] = datetime_value['value'][:, 0]
            time_value_pair['value']['v'] = datetime_value['value'][:, 1]
        else:
            raise ValueError()
    return time_value_pair

@ func gnome.utilities.convert.to_datetime_value_2d
def to_datetime_value_2d(time_value_pair, out_ts_format):
    if time_value_pair.dtype != basic_types.time_value_pair:
        raise ValueError()
    datetime_value_2d = np.zeros((len(time_value_pair),), dtype=basic_types.datetime_value_2d)
    out_ts_format = tsformat(out_ts_format)
    if out_ts_format == basic_types.ts_format.magnitude_direction:
        datetime_value_2d['time'] = time_utils.sec_to_date(time_value_pair['time'])
        uv = np.zeros((len(time_value_pair), 2), dtype=np.double)
        uv[:, 0] = time_value_pair['value']['u']
        uv[:, 1] = time_value_pair['value']['v']
        datetime_value_2d['value'] = transforms.uv_to_r_theta_wind(uv)
    elif out_ts_format == basic_types.ts_format.uv:
        datetime_value_2d['time'] = time_utils.sec_to_date(time_value_pair['time'])
        datetime_value_2d['value'][:, 0] = time_value_pair['value']['u']
        datetime_value_2d['value'][:, 1] = time_value_pair['value']['v']
    else:
        raise ValueError()
    return datetime_value_2d

@ func gnome.utilities.convert.to_datetime_value_1d
def to_datetime_value_1d(time_value_pair):
    if time_value_pair.dtype != basic_types.time_value_pair:
        raise ValueError()
    datetime_value_1d = np.zeros((len(time_value_pair),), dtype=basic_types.datetime_value_1d)
    datetime_value_1d['time'] = time_utils.sec_to_date(time_value_pair['time'])
    datetime_value_1d['value'][:] = time_value_pair['value']['u']
    return datetime_value_1d

@ func gnome.utilities.convert.tsformat | ignore_exc=False
def tsformat(format_obj):
    names = list(basic_types.ts_format.__members__.keys())
    val_error = 'timeseries format can only be one of {}Format entered is not recognized: {}'.format(names, format_obj)
    if format_obj in basic_types.ts_format.__members__.values():
        return format_obj
    try:
        format_obj = format_obj.replace('-', '_')
    except AttributeError:
        pass
    try:
        return basic_types.ts_format[format_obj]
    except KeyError:
        raise ValueError()

## R4 longitudes, significant figures and masses convert as stated
@ func gnome.utilities.convert_longitude
def convert_longitude(lon, coord_system='-180--180'):
    if coord_system not in {'-180--180', '0--360'}:
        raise TypeError()
    lon = np.array(lon)
    if coord_system == '0--360':
        return (lon + 360) % 360
    elif coord_system == '-180--180':
        lon[lon > 180] -= 360
        lon[lon <= -180] += 360
        return lon

@ func gnome.utilities._round_sf_float
def _round_sf_float(x, sigfigs):
    formatter = '{x:.%d}' % sigfigs
    result = float(formatter.format(x=x))
    return result

@ func gnome.utilities.round_sf_scalar
def round_sf_scalar(x, sigfigs):
    x = float(x)
    sigfigs = operator.index(sigfigs)
    return _round_sf_float(x, sigfigs)

@ func gnome.utilities.round_sf_array
def round_sf_array(x, sigfigs):
    sigfigs = operator.index(sigfigs)
    x = np.asarray(x, dtype=np.float64)
    x = np.asarray(x)
    shape = x.shape
    result = np.fromiter((_round_sf_float(val, sigfigs) for val in x.flat), dtype=np.float64)
    result.shape = shape
    return result

@ func gnome.utilities.convert_mass_to_mass_or_volume | ignore_exc=False
def convert_mass_to_mass_or_volume(in_unit, out_unit, density, value):
    try:
        result = nucos.convert('mass', in_unit, out_unit, value)
    except nucos.InvalidUnitError:
        mass = nucos.convert('mass', in_unit, 'kg', value)
        vol = mass / density
        result = nucos.convert('volume', 'm^3', out_unit, vol)
    except nucos.InvalidUnitError as err:
        raise err
    return result

@ func gnome.utilities.compute_fraction.fraction_below_d
def fraction_below_d(d, alpha, lambda_):
    alpha = float(alpha)
    lambda_ - float(lambda_)
    return 1 - exp(-(d / lambda_) ** alpha)

