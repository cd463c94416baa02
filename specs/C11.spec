## R1 a release schedules its elements over its own period
@ gnome.spills.release.Release.__init__
def __init__(self, release_time=None, num_elements=None, num_per_timestep=None, end_release_time=None, custom_positions=None, release_mass=0, retain_initial_positions=False, timezone_offset=TZOffset(), **kwargs):
    self._num_elements = self._num_per_timestep = None
    if num_elements is None and num_per_timestep is None:
        num_elements = 1000
    if num_elements is not None and num_per_timestep is not None:
        msg = 'Either num_elements released or a release rate, defined by num_per_timestep must be given, not both'
        raise TypeError()
    self._num_per_timestep = num_per_timestep
    self.num_elements = num_elements
    self.release_time = asdatetime(release_time)
    self.end_release_time = asdatetime(end_release_time)
    if self.release_time is None:
        self.release_time = datetime.now()
    self.release_mass = release_mass
    self.custom_positions = custom_positions
    self.retain_initial_positions = retain_initial_positions
    self.rewind()
    super(Release, self).__init__(**kwargs)
    self._timezone_offset = timezone_offset
    self.array_types.update({'positions': gat('positions'), 'mass': gat('mass'), 'init_mass': gat('mass'), 'density': gat('density'), 'release_rate': gat('release_rate'), 'bulk_init_volume': gat('bulk_init_volume'), 'area': gat('area'), 'fay_area': gat('fay_area'), 'frac_coverage': gat('frac_coverage')})
    if self.retain_initial_positions:
        self.array_types.update({'init_positions': gat('positions')})
    self._previously_released = 0.0
    self.cumulative_time_scale = SPREADING_CUMULATIVE_TIME_SCALE

@ getter gnome.spills.release.Release.timezone_offset
def timezone_offset(self):
    return self._get_timezone_offset()

@ gnome.spills.release.Release._get_timezone_offset
def _get_timezone_offset(self):
    return self._timezone_offset

@ setter gnome.spills.release.Release.timezone_offset
def timezone_offset(self, value):
    if value is None or isinstance(value, TZOffset):
        self._set_timezone_offset(value)
    else:
        raise ValueError()

@ gnome.spills.release.Release._set_timezone_offset
def _set_timezone_offset(self, tzo):
    if tzo is None:
        tzo = TZOffset(offset=None, title='No Timezone Specified')
    if self._timezone_offset is not None and self._timezone_offset.offset is not None:
        if tzo.offset is not None:
            off = timedelta(hours=tzo.offset) - timedelta(hours=self._timezone_offset.offset)
            self.release_time = self.release_time + off
            if self._end_release_time is not None:
                self.end_release_time = self.end_release_time + off
    self._timezone_offset = tzo

@ gnome.spills.release.Release.rewind
def rewind(self):
    self._prepared = False
    self._mass_per_le = 0
    self._release_ts = None
    self._pos_ts = None
    self._previously_released = 0.0

@ getter gnome.spills.release.Release.centroid
def centroid(self):
    if len(self.custom_positions):
        mp = shapely.geometry.MultiPoint(self.custom_positions)
        return np.array((mp.centroid.x, mp.centroid.y, 0))

@ getter gnome.spills.release.Release.release_mass
def release_mass(self):
    return self._release_mass

@ setter gnome.spills.release.Release.release_mass
def release_mass(self, val):
    if val is None or val < 0:
        val = 0
    self._release_mass = val

@ getter gnome.spills.release.Release.num_per_timestep
def num_per_timestep(self):
    return self._num_per_timestep

@ setter gnome.spills.release.Release.num_per_timestep
def num_per_timestep(self, val):
    self._num_per_timestep = val
    if val is not None:
        self._num_elements = None

@ getter gnome.spills.release.Release.num_elements
def num_elements(self):
    return self._num_elements

@ setter gnome.spills.release.Release.num_elements
def num_elements(self, val):
    if val is None:
        self._num_elements = val
        if self._num_per_timestep is None:
            self._num_per_timestep = 1
    elif val < 0:
        raise ValueError()
    else:
        self._num_elements = val
    if val is not None:
        self._num_per_timestep = None

@ getter gnome.spills.release.Release.release_duration
def release_duration(self):
    if self.end_release_time is None:
        return 0
    else:
        return (self.end_release_time - self.release_time).total_seconds()

@ getter gnome.spills.release.Release.end_release_time
def end_release_time(self):
    if self._end_release_time is None:
        return self.release_time
    else:
        return self._end_release_time

@ setter gnome.spills.release.Release.end_release_time
def end_release_time(self, val):
    val = asdatetime(val)
    if val is not None and self.release_time > val:
        raise ValueError()
    self._end_release_time = val

@ gnome.spills.release.Release.element_timestep_ratio
def element_timestep_ratio(self, ts):
    if self.num_elements is None and self.num_per_timestep is not None:
        return self.num_per_timestep
    return 1.0 * self.num_elements / self.get_num_release_time_steps(ts)

@ gnome.spills.release.Release.get_num_release_time_steps
def get_num_release_time_steps(self, ts):
    rts = int(ceil(self.release_duration / ts))
    if rts == 0:
        rts = 1
    return rts

@ gnome.spills.release.Release.generate_release_timeseries
def generate_release_timeseries(self, num_ts, max_release, ts):
    t = None
    if num_ts == 1:
        if self.release_duration == 0:
            t = Time(data=[self.release_time, self.end_release_time + timedelta(seconds=1)])
        else:
            t = Time(data=[self.release_time, self.end_release_time])
    else:
        t = Time(data=[self.release_time + timedelta(seconds=ts * step) for step in range(0, num_ts + 1)])
        t.data[-1] = self.end_release_time
    if self.release_duration == 0:
        self._release_ts = TimeseriesData(name=self.name + '_release_ts', time=t, data=np.full(t.data.shape, max_release).astype(int))
    else:
        self._release_ts = TimeseriesData(name=self.name + '_release_ts', time=t, data=np.linspace(0, max_release, num_ts + 1).astype(int))

@ gnome.spills.release.Release.num_elements_after_time
def num_elements_after_time(self, current_time):
    if not self._prepared:
        return 0
    if current_time < self.release_time:
        return 0
    return int(math.ceil(self._release_ts.at(None, current_time, extrapolate=True)))

@ gnome.spills.release.Release.prepare_for_model_run
def prepare_for_model_run(self, ts):
    if self._prepared:
        self.rewind()
    if ts < 1 and self.end_release_time != self.release_time:
        raise ValueError()
    if self.element_timestep_ratio(ts) < 1:
        raise ValueError()
    num_ts = self.get_num_release_time_steps(ts)
    max_release = 0
    if self.num_per_timestep is not None:
        max_release = self.num_per_timestep * num_ts
    else:
        max_release = self.num_elements
    self.generate_release_timeseries(num_ts, max_release, ts)
    self._mass_per_le = self.release_mass * 1.0 / max_release
    if isinstance(self, Release):
        self._prepared = True

@ gnome.spills.release.Release.initialize_elements
def initialize_elements(self, to_rel, sc, start_time, end_time):
    if self.custom_positions is None or len(self.custom_positions) == 0:
        raise ValueError()
    num_locs = len(self.custom_positions)
    if to_rel < num_locs:
        pass
    sl = slice(-to_rel, None, 1)
    c_p = np.asarray(self.custom_positions)
    qt = to_rel // num_locs
    rem = to_rel % num_locs
    qt_pos = np.tile(c_p, (qt, 1))
    rem_pos = c_p[np.random.randint(0, len(c_p), rem)]
    pos = np.vstack((qt_pos, rem_pos))
    assert len(pos) == to_rel
    sc['positions'][sl] = pos
    sc['mass'][sl] = self._mass_per_le
    sc['init_mass'][sl] = self._mass_per_le
    if self.retain_initial_positions:
        sc['init_positions'][sl] = pos

@ gnome.spills.release.Release.initialize_elements_post_substance
def initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment):
    sl = slice(-to_rel, None, 1)
    if sc.substance.is_weatherable:
        if environment['water'] is not None:
            water = environment['water']
        else:
            water = Water(default_constants.default_water_temperature)
        spread = FayGravityViscous(water=water)
        spread.prepare_for_model_run(sc)
        spread._set_init_relative_buoyancy(sc.substance)
        if self.release_duration > 0:
            sc['release_rate'][sl] = sum(sc['init_mass'][sl] / sc['density'][sl]) / (end_time - start_time).total_seconds()
        else:
            sc['release_rate'][sl] = np.nan
        if end_time <= self.release_time + self.cumulative_time_scale:
            self._previously_released = self._previously_released + sum(sc['init_mass'][sl] / sc['density'][sl])
        if not np.isnan(sc['release_rate'][sl][0]):
            sc['bulk_init_volume'][sl] = self._previously_released
        else:
            sc['bulk_init_volume'][sl] = sum(sc['init_mass'][sl] / sc['density'][sl])
        if sc['bulk_init_volume'][sl][0] > 0:
            sc['vol_frac_le_st'][sl] = sc['init_mass'][sl] / sc['density'][sl] / sc['bulk_init_volume'][sl]
        else:
            sc['vol_frac_le_st'][sl] = 0
        init_blob_area = spread.init_area(sc.substance.kvis_at_temp(temp_k=water.get('temperature')), spread._init_relative_buoyancy, sc['bulk_init_volume'][sl][0])
        sc['fay_area'][sl] = init_blob_area * sc['vol_frac_le_st'][sl]
        sc['area'][sl] = sc['fay_area'][sl]

## R2 a point or line release places elements along its line
@ gnome.spills.release.PointLineRelease.__init__
def __init__(self, release_time=None, start_position=None, num_elements=None, num_per_timestep=None, end_release_time=None, end_position=None, release_mass=0, **kwargs):
    super(PointLineRelease, self).__init__(release_time=release_time, end_release_time=end_release_time, num_elements=num_elements, num_per_timestep=num_per_timestep, release_mass=release_mass, **kwargs)
    self.start_position = start_position
    self.end_position = end_position

@ getter gnome.spills.release.PointLineRelease.is_pointsource
def is_pointsource(self):
    if self.end_position is None:
        return True
    if np.all(self.end_position == self.start_position):
        return True
    return False

@ getter gnome.spills.release.PointLineRelease.centroid
def centroid(self):
    if self.is_pointsource:
        return self.start_position
    else:
        return (self.start_position + self.end_position) / 2.0

@ getter gnome.spills.release.PointLineRelease.start_position
def start_position(self):
    return self._start_position

@ setter gnome.spills.release.PointLineRelease.start_position
def start_position(self, val):
    self._start_position = np.array(val, dtype=world_point_type).reshape((3,))

@ getter gnome.spills.release.PointLineRelease.end_position
def end_position(self):
    if self._end_position is None:
        return self.start_position
    else:
        return self._end_position

@ setter gnome.spills.release.PointLineRelease.end_position
def end_position(self, val):
    if val is not None:
        val = np.array(val, dtype=world_point_type).reshape((3,))
    self._end_position = val

@ gnome.spills.release.PointLineRelease.generate_release_timeseries
def generate_release_timeseries(self, num_ts, max_release, ts):
    super(PointLineRelease, self).generate_release_timeseries(num_ts, max_release, ts)
    t = self._release_ts.time
    lon_ts = TimeseriesData(name=self.name + '_lon_ts', time=t, data=np.linspace(self.start_position[0], self.end_position[0], num_ts + 1))
    lat_ts = TimeseriesData(name=self.name + '_lat_ts', time=t, data=np.linspace(self.start_position[1], self.end_position[1], num_ts + 1))
    z_ts = TimeseriesData(name=self.name + '_z_ts', time=t, data=np.linspace(self.start_position[2], self.end_position[2], num_ts + 1))
    self._pos_ts = TimeseriesVector(name=self.name + '_pos_ts', time=t, variables=[lon_ts, lat_ts, z_ts])

@ gnome.spills.release.PointLineRelease.rewind
def rewind(self):
    self._prepared = False
    self._mass_per_le = 0
    self._release_ts = None
    self._pos_ts = None
    self._previously_released = 0.0

@ gnome.spills.release.PointLineRelease.prepare_for_model_run
def prepare_for_model_run(self, ts):
    super(PointLineRelease, self).prepare_for_model_run(ts)
    self._prepared = True

@ gnome.spills.release.PointLineRelease.initialize_elements
def initialize_elements(self, to_rel, sc, start_time, end_time):
    if self.release_duration == 0 and start_time != end_time:
        if self.release_time <= end_time and self.release_time >= start_time:
            start_time = end_time = self.release_time
    if start_time == end_time:
        end_time += timedelta(seconds=1)
    sl = slice(-to_rel, None, 1)
    start_position = self._pos_ts.at(None, start_time, extrapolate=True)
    end_position = self._pos_ts.at(None, end_time, extrapolate=True)
    sc['positions'][sl, 0] = np.linspace(start_position[0], end_position[0], to_rel)
    sc['positions'][sl, 1] = np.linspace(start_position[1], end_position[1], to_rel)
    sc['positions'][sl, 2] = np.linspace(start_position[2], end_position[2], to_rel)
    sc['mass'][sl] = self._mass_per_le
    sc['init_mass'][sl] = self._mass_per_le
    if self.retain_initial_positions:
        sc['init_positions'][sl] = sc['positions'][sl]

@ gnome.spills.release.SubsurfaceRelease.__init__
def __init__(self, distribution=None, distribution_type='droplet_size', release_time=None, start_position=None, num_elements=None, num_per_timestep=None, end_release_time=None, end_position=None, release_mass=0, **kwargs):
    super(SubsurfaceRelease, self).__init__(release_time=release_time, end_release_time=end_release_time, num_elements=num_elements, num_per_timestep=num_per_timestep, release_mass=release_mass, start_position=start_position, end_position=end_position, **kwargs)
    self.distribution = distribution
    self.distribution_type = distribution_type
    if distribution_type == 'droplet_size':
        self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs)
    elif distribution_type == 'rise_velocity':
        self._init_rise_vel = InitRiseVelFromDist(distribution=distribution, **kwargs)
    else:
        raise TypeError()
    self.array_types.update(self._init_rise_vel.array_types)

@ gnome.spills.release.SubsurfaceRelease.initialize_elements_post_substance
def initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment):
    sl = slice(-to_rel, None, 1)
    Release.initialize_elements_post_substance(self, to_rel, sc, start_time, end_time, environment)
    self._init_rise_vel.initialize(to_rel, sc, sc.substance)

## R3 a polygon, grid or file release places elements inside its area
@ gnome.spills.release.PolygonRelease.__init__
def __init__(self, filename=None, features=None, polygons=None, weights=None, thicknesses=None, **kwargs):
    if filename is not None and features is not None:
        raise ValueError()
    if filename is not None:
        file_fc = geo_routines.load_shapefile(filename)
        self.features = file_fc
        self.filename = filename
    elif features is not None:
        self.features = features
    else:
        if polygons is not None:
            if weights is not None:
                if thicknesses is not None:
                    raise ValueError()
                if len(weights) != len(polygons):
                    raise ValueError()
        else:
            raise ValueError()
        self.features = self.gen_fc_from_kwargs({'polygons': polygons, 'weights': weights, 'thicknesses': thicknesses})
        for i, feature in enumerate(self.features[:]):
            if 'feature_index' not in feature.properties:
                feature.properties['feature_index'] = i
    super(PolygonRelease, self).__init__(**kwargs)

@ getter gnome.spills.release.PolygonRelease.filename
def filename(self):
    if not hasattr(self, '_filename'):
        self._filename = None
    return self._filename

@ setter gnome.spills.release.PolygonRelease.filename
def filename(self, f):
    self._filename = f

@ getter gnome.spills.release.PolygonRelease.centroid
def centroid(self):
    return np.array([self.polygons[0].centroid.x, self.polygons[0].centroid.y, 0])

@ getter gnome.spills.release.PolygonRelease.__geo_interface__
def __geo_interface__(self):
    return self.features.__geo_interface__

@ gnome.spills.release.PolygonRelease.gen_fc_from_kwargs
def gen_fc_from_kwargs(self, kwargs):
    fc = geojson.FeatureCollection(features=[])
    feats = [geojson.Feature(geometry=poly) for poly in kwargs.pop('polygons', [])]
    attrnames = {'thicknesses': 'thickness', 'weights': 'weight', 'names': 'name'}
    for k, v in attrnames.items():
        if kwargs.get(k, False):
            for f, val in zip(feats, kwargs.get(k)):
                f.properties[v] = val
    fc.features = feats
    return fc

@ getter gnome.spills.release.PolygonRelease.features
def features(self):
    return self._features

@ setter gnome.spills.release.PolygonRelease.features
def features(self, fc):
    self._features = fc

@ getter gnome.spills.release.PolygonRelease.polygons
def polygons(self):
    return [shapely.geometry.shape(feat.geometry) for feat in self.features[:]]

@ setter gnome.spills.release.PolygonRelease.polygons
def polygons(self, polys):
    for feat, poly in zip(self.features[:], polys):
        feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))

@ getter gnome.spills.release.PolygonRelease.thicknesses
def thicknesses(self):
    rv = [feat.properties.get('thickness', None) for feat in self.features[:]]
    return None if all([r == None for r in rv]) else rv

@ setter gnome.spills.release.PolygonRelease.thicknesses
def thicknesses(self, vals):
    if vals is None:
        for feat in self.features[:]:
            del feat.properties['thickness']
        return
    if self.weights is not None:
        raise ValueError()
    for feat, t in zip(self.features[:], vals):
        feat.properties['thickness'] = t

@ getter gnome.spills.release.PolygonRelease.weights
def weights(self):
    rv = [feat.properties.get('weight', None) for feat in self.features[:]]
    return None if all([r == None for r in rv]) else rv

@ setter gnome.spills.release.PolygonRelease.weights
def weights(self, vals):
    if vals is None:
        for feat in self.features[:]:
            del feat.properties['weight']
        return
    if self.thicknesses is not None:
        raise ValueError()
    for feat, w in zip(self.features[:], vals):
        feat.properties['weight'] = w

@ getter gnome.spills.release.PolygonRelease.areas
def areas(self):
    return [geo_routines.geo_area_of_polygon(p) for p in self.polygons]

@ gnome.spills.release.PolygonRelease.rewind
def rewind(self):
    self._prepared = False
    self._mass_per_le = 0
    self._release_ts = None
    self._tris = None
    self._weights = None
    self._previously_released = 0.0

@ gnome.spills.release.PolygonRelease.get_polys_as_tris
def get_polys_as_tris(self, polys, weights=None):
    _tris = []
    _weights = []
    if weights is not None:
        if len(weights) != len(polys):
            raise ValueError()
        for p, w in zip(polys, weights):
            tris = geo_routines.triangulate_poly(p)
            ws = [w * tri_weight for tri_weight in geo_routines.poly_area_weight(tris)]
            _tris += tris
            _weights += ws
    else:
        _tris = sum([geo_routines.triangulate_poly(p) for p in self.polygons], _tris)
        _weights = geo_routines.poly_area_weight(_tris)
    assert np.isclose(sum(_weights), 1.0)
    return (_tris, _weights)

@ gnome.spills.release.PolygonRelease.compute_distribution
def compute_distribution(self):
    areas = [geo_routines.geo_area_of_polygon(p) for p in self.polygons]
    if any(np.isnan(areas)):
        raise ValueError()
    volumes = [a * t for a, t in zip(areas, self.thicknesses)]
    total_vol = sum(volumes)
    weights = [v / total_vol for v in volumes]
    return weights

@ gnome.spills.release.PolygonRelease.prepare_for_model_run
def prepare_for_model_run(self, ts):
    super(PolygonRelease, self).prepare_for_model_run(ts)
    for poly in self.polygons:
        geo_routines.check_valid_polygon(poly)
    if self.thicknesses:
        weights = self.compute_distribution()
    else:
        weights = self.weights
    self._tris, self._weights = self.get_polys_as_tris(self.polygons, weights)
    self._prepared = True

@ gnome.spills.release.PolygonRelease.initialize_elements
def initialize_elements(self, to_rel, data, start_time, end_time):
    sl = slice(-to_rel, None, 1)
    pts = [geo_routines.random_pt_in_tri(s) for s in np.random.choice(self._tris, to_rel, p=self._weights)]
    pts = [np.append(pt, 0) for pt in pts]
    data['positions'][sl] = pts
    if self.retain_initial_positions:
        data['init_positions'][sl] = data['positions'][sl]
    data['mass'][sl] = self._mass_per_le
    data['init_mass'][sl] = self._mass_per_le

@ gnome.spills.release.PolygonRelease.get_polygons
def get_polygons(self):
    uniq_polys = geo_routines.mixed_polys_to_polygon(self.polygons)
    polycoords = [np.array(p.exterior.xy).T.astype(np.float32) for p in uniq_polys]
    lengths = np.array([len(p) for p in polycoords]).astype(np.int32)
    return (lengths, polycoords)

@ gnome.spills.release.GridRelease.__init__
def __init__(self, release_time, bounds, resolution, release_mass=0):
    self.bounds = np.array(bounds, dtype=np.float64)
    try:
        resolution = (int(resolution[0]), int(resolution[1]))
    except TypeError:
        resolution = self._compute_resolution(self.bounds, resolution)
    self.resolution = resolution
    super().__init__(release_time=release_time, release_mass=release_mass)

@ getter gnome.spills.release.GridRelease.num_elements
def num_elements(self):
    res = self.resolution
    return res[0] * res[1]

@ setter gnome.spills.release.GridRelease.num_elements
def num_elements(self, num):
    pass

@ gnome.spills.release.GridRelease.num_elements_after_time
def num_elements_after_time(self, current_time):
    if not self._prepared:
        return 0
    if current_time < self.release_time:
        return 0
    else:
        return self.num_elements

@ gnome.spills.release.GridRelease.initialize_elements
def initialize_elements(self, to_rel, sc, start_time, end_time):
    positions = self._compute_grid_points()
    num_locs = len(positions)
    if to_rel < num_locs:
        pass
    sl = slice(-to_rel, None, 1)
    sc['positions'][sl] = positions
    sc['mass'][sl] = self._mass_per_le
    sc['init_mass'][sl] = self._mass_per_le
    if self.retain_initial_positions:
        sc['init_positions'][sl] = positions

@ gnome.spills.release.GridRelease._compute_resolution
def _compute_resolution(bounds, avg_res):
    center = bounds.mean(axis=0)
    width, height = np.abs(bounds[1] - bounds[0])
    width *= np.cos(math.radians(center[1]))
    ry = math.sqrt(height / width) * avg_res
    rx = round(avg_res ** 2 / ry)
    ry = round(avg_res ** 2 / rx)
    return (rx, ry)

@ gnome.spills.release.GridRelease._compute_grid_points
def _compute_grid_points(self):
    bounds = self.bounds
    resolution = self.resolution
    lon = np.linspace(bounds[0][0], bounds[1][0], resolution[0])
    lat = np.linspace(bounds[0][1], bounds[1][1], resolution[1])
    lon, lat = np.meshgrid(lon, lat)
    positions = np.c_[lon.flat, lat.flat, np.zeros(resolution[0] * resolution[1])]
    return positions

@ getter gnome.spills.release.GridRelease.centroid
def centroid(self):
    cent = np.zeros((3,), dtype=np.float64)
    cent[:2] = self.bounds.mean(axis=0)
    return cent

@ gnome.spills.release.NESDISRelease.__init__
def __init__(self, filename=None, features=None, timezone_offset=TZOffset(offset=0, title='UTC'), **kwargs):
    for kw in ('thicknesses', 'weights', 'polygons'):
        if kwargs.get(kw):
            pass
    if filename is not None and features is not None:
        raise ValueError()
    if filename is None and features is None:
        raise ValueError()
    if filename is not None:
        file_fc = NESDISRelease.load_nesdis(filename, kwargs.get('release_time', None))
        features = file_fc
        self.filename = filename
        kwargs['release_time'] = datetime.fromisoformat(features[0].properties['release_time'])
        kwargs['end_release_time'] = kwargs['release_time']
    if features and 'release_time' not in kwargs:
        kwargs['release_time'] = datetime.fromisoformat(features[0].properties['release_time'])
    super(NESDISRelease, self).__init__(features=features, timezone_offset=timezone_offset, **kwargs)

@ gnome.spills.release.NESDISRelease.load_nesdis
def load_nesdis(filename, release_time=None):
    fc = geo_routines.load_shapefile(filename)
    release_time = datetime.now() if release_time is None else release_time
    for i, feature in enumerate(fc.features):
        im_date = feature.properties.get('DATE', None)
        im_time = feature.properties.get('TIME', None)
        if im_date and im_time:
            parsed_time = ''.join([d for d in im_time if d.isdigit()])
            try:
                release_time = datetime.strptime(im_date + ' ' + parsed_time, '%m/%d/%Y %H%M')
            except ValueError as ve:
                pass
        feature.properties['feature_index'] = i
        feature.properties['thickness'] = 5e-05 if feature.properties.get('OILTYPE', '').lower() == 'thick' else 5e-06
        feature.properties['release_time'] = release_time.isoformat()
    return fc

@ getter gnome.spills.release.NESDISRelease.record_areas
def record_areas(self):
    return self.areas

@ getter gnome.spills.release.NESDISRelease.oil_types
def oil_types(self):
    return [feat.properties.get('OILTYPE') if 'OILTYPE' in feat.properties else 'Group_{}'.format(feat.properties.get('feature_index')) for feat in self.features[:]]

@ setter gnome.spills.release.NESDISRelease.oil_types
def oil_types(self, ot):
    for o, feat in zip(ot, self.features[:]):
        feat.properties['OILTYPE'] = o

@ func gnome.spills.release.release_from_splot_data
def release_from_splot_data(release_time, filename):
    pos = np.loadtxt(filename)
    num_per_pos = np.asarray(pos[:, 2], dtype=int)
    pos[:, 2] = 0
    start_positions = np.repeat(pos, num_per_pos, axis=0)
    return Release(release_time=release_time, custom_positions=start_positions)

@ func gnome.utilities.geometry.geo_routines.geo_area_of_polygon
def geo_area_of_polygon(poly):
    if isinstance(poly, (geojson.MultiPolygon, geojson.Polygon)):
        poly = shape(poly)
    return abs(geod.geometry_area_perimeter(poly)[0])

@ func gnome.utilities.geometry.geo_routines.triangulate_poly
def triangulate_poly(poly):
    if isinstance(poly, (geojson.MultiPolygon, geojson.Polygon)):
        poly = shape(poly)
    retval = []
    if isinstance(poly, MultiPolygon):
        for p in poly.geoms:
            pts, tris = trimesh.creation.triangulate_polygon(p, engine='earcut')
            retval = retval + [Polygon(k) for k in pts[tris]]
    else:
        pts, tris = trimesh.creation.triangulate_polygon(poly, engine='earcut')
        retval = [Polygon(k) for k in pts[tris]]
    return retval

@ func gnome.utilities.geometry.geo_routines.poly_area_weight
def poly_area_weight(polys, geo_area=False):
    areas = None
    if geo_area:
        areas = [geo_area_of_polygon(p) for p in polys]
    else:
        areas = [p.area for p in polys]
    t_area = sum(areas)
    weights = [s / t_area for s in areas]
    return weights

@ func gnome.utilities.geometry.geo_routines.mixed_polys_to_polygon
def mixed_polys_to_polygon(polys):
    rv = []
    for p in polys:
        p = shape(p)
        if isinstance(p, MultiPolygon):
            for subp in p.geoms:
                rv.append(subp)
        else:
            rv.append(p)
    return rv

@ func gnome.utilities.geometry.geo_routines.check_valid_polygon
def check_valid_polygon(poly):
    if isinstance(poly, MultiPolygon):
        for p in poly.geoms:
            for point in p.exterior.coords:
                assert -360 < point[0] < 360
                assert -90 < point[1] < 90
    else:
        for point in poly.exterior.coords:
            assert -360 < point[0] < 360
            assert -90 < point[1] < 90

@ func gnome.utilities.geometry.geo_routines.random_pt_in_tri
def random_pt_in_tri(tri):
    coords = None
    if isinstance(tri, Polygon):
        coords = tri.exterior.coords
    else:
        coords = tri
    coords = np.array(coords)
    R = random.random()
    S = random.random()
    if R + S >= 1:
        R = 1 - R
        S = 1 - S
    A = coords[0]
    AB = coords[1] - coords[0]
    AC = coords[2] - coords[0]
    RPP = A + R * AB + S * AC
    return RPP

@ func gnome.utilities.geometry.geo_routines.load_shapefile
def load_shapefile(filename, transform_crs=True):
    with zipfile.ZipFile(filename, 'r') as zipper:
        shapefiles = [f for f in zipper.namelist() if f.split('.')[-1] == 'shp' and 'point' not in f.lower()]
        if not shapefiles:
            raise ValueError()
        if len(shapefiles) > 1:
            pass
        shapefile = gpd.read_file(f'zip://{str(filename)}!{shapefiles[0]}', engine='pyogrio')
        if transform_crs:
            shapefile = shapefile.to_crs('epsg:4326')
        shapefile_json = geojson.loads(shapefile.to_json())
        shapefile_json['bbox'] = list(shapefile.total_bounds)
        return shapefile_json

## R4 initial values come from the chosen distributions
@ gnome.spills.initializers.InitWindages.__init__
def __init__(self, windage_range=(0.01, 0.04), windage_persist=900, *args, **kwargs):
    super(InitWindages, self).__init__(*args, **kwargs)
    self.windage_persist = windage_persist
    self.windage_range = windage_range
    self.array_types.update({'windages': gat('windages'), 'windage_range': gat('windage_range'), 'windage_persist': gat('windage_persist')})

@ gnome.spills.initializers.InitWindages.to_dict
def to_dict(self, json_=None):
    return InitBaseClass.to_dict(self, json_=json_)

@ gnome.spills.initializers.InitWindages.initialize
def initialize(self, num_new_particles, data_arrays, substance):
    if any([k not in data_arrays for k in self.array_types.keys()]):
        return
    sl = slice(-num_new_particles, None, 1)
    data_arrays['windage_range'][sl] = self.windage_range
    data_arrays['windage_persist'][sl] = self.windage_persist
    random_with_persistance(data_arrays['windage_range'][-num_new_particles:, 0], data_arrays['windage_range'][-num_new_particles:, 1], data_arrays['windages'][-num_new_particles:])

@ gnome.spills.initializers.InitRiseVelFromDist.__init__
def __init__(self, distribution=None, **kwargs):
    super(InitRiseVelFromDist, self).__init__(**kwargs)
    if distribution and hasattr(distribution, 'set_values'):
        self.distribution = distribution
    else:
        raise TypeError()
    self.array_types['rise_vel'] = gat('rise_vel')
    self.name = 'rise_vel'

@ gnome.spills.initializers.InitRiseVelFromDist.initialize
def initialize(self, num_new_particles, data_arrays, substance):
    if any([k not in data_arrays for k in self.array_types.keys()]):
        return
    self.distribution.set_values(data_arrays['rise_vel'][-num_new_particles:])

@ gnome.spills.initializers.InitRiseVelFromDropletSizeFromDist.__init__
def __init__(self, distribution=None, water_density=1020.0, water_viscosity=1e-06, **kwargs):
    super(InitRiseVelFromDropletSizeFromDist, self).__init__(**kwargs)
    if distribution:
        self.distribution = distribution
    else:
        raise TypeError()
    self.water_viscosity = water_viscosity
    self.water_density = water_density
    self.array_types.update({'rise_vel': gat('rise_vel'), 'droplet_diameter': gat('droplet_diameter')})
    self.name = 'rise_vel'

@ gnome.spills.initializers.InitRiseVelFromDropletSizeFromDist.initialize
def initialize(self, num_new_particles, data_arrays, substance):
    if any([k not in data_arrays for k in self.array_types.keys()]):
        return
    drop_size = np.zeros((num_new_particles,), dtype=np.float64)
    le_density = np.zeros((num_new_particles,), dtype=np.float64)
    self.distribution.set_values(drop_size)
    data_arrays['droplet_diameter'][-num_new_particles:] = drop_size
    if hasattr(substance, 'water'):
        water = substance.water
    else:
        water = None
    if water is not None:
        water_temp = water.get('temperature')
        le_density[:] = substance.density_at_temp(water_temp)
    else:
        le_density[:] = substance.density_at_temp()
    rise_velocity_from_drop_size(data_arrays['rise_vel'][-num_new_particles:], le_density, drop_size, self.water_viscosity, self.water_density)

@ func gnome.spills.initializers.plume_from_model_initializers
def plume_from_model_initializers(distribution_type='droplet_size', distribution=None, windage_range=(0.01, 0.04), windage_persist=900, **kwargs):
    if distribution_type == 'droplet_size':
        return [InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs), InitWindages(windage_range, windage_persist), InitMassFromPlume()]
    elif distribution_type == 'rise_velocity':
        return [InitRiseVelFromDist(distribution=distribution, **kwargs), InitWindages(windage_range, windage_persist), InitMassFromPlume()]

@ gnome.spills.substance.Substance.__init__
def __init__(self, windage_range=None, windage_persist=None, standard_density=1000.0, *args, **kwargs):
    super(Substance, self).__init__(*args, **kwargs)
    self._windage_init = InitWindages()
    self.windage_range = windage_range
    self.windage_persist = windage_persist
    self.initializers = [self._windage_init]
    self.array_types.update(self._windage_init.array_types)
    try:
        self.standard_density = standard_density
    except AttributeError:
        pass
    self.array_types.update({'density': gat('density'), 'fate_status': gat('fate_status')})

@ getter gnome.spills.substance.Substance.all_array_types
def all_array_types(self):
    arr = self.array_types.copy()
    for init in self.initializers:
        arr.update(init.all_array_types)
    return arr

@ getter gnome.spills.substance.Substance.is_weatherable
def is_weatherable(self):
    if not hasattr(self, '_is_weatherable'):
        self._is_weatherable = True
    return self._is_weatherable

@ setter gnome.spills.substance.Substance.is_weatherable
def is_weatherable(self, val):
    self._is_weatherable = True if val else False

@ getter gnome.spills.substance.Substance.windage_range
def windage_range(self):
    if self._windage_init:
        return self._windage_init.windage_range
    else:
        raise ValueError()

@ setter gnome.spills.substance.Substance.windage_range
def windage_range(self, windage_range):
    windage_range = (0.01, 0.04) if windage_range is None else windage_range
    if self._windage_init:
        if np.any(np.asarray(windage_range) < 0) or np.asarray(windage_range).size != 2:
            raise ValueError()
        self._windage_init.windage_range = windage_range
    else:
        raise ValueError()

@ getter gnome.spills.substance.Substance.windage_persist
def windage_persist(self):
    if self._windage_init:
        return self._windage_init.windage_persist
    else:
        raise ValueError()

@ setter gnome.spills.substance.Substance.windage_persist
def windage_persist(self, windage_persist):
    windage_persist = 900 if windage_persist is None else windage_persist
    windage_persist = -1 if np.isinf(windage_persist) else windage_persist
    if self._windage_init:
        if windage_persist == 0:
            raise ValueError()
        self._windage_init.windage_persist = windage_persist
    else:
        raise ValueError()

@ gnome.spills.substance.Substance.get_initializer_by_name
def get_initializer_by_name(self, name):
    init = [i for i in self.initializers if i.name == name]
    if len(init) == 0:
        return None
    else:
        return init[0]

@ gnome.spills.substance.Substance.has_initializer
def has_initializer(self, name):
    for i in self.initializers:
        if name in i.array_types:
            return True
    return False

@ gnome.spills.substance.Substance.initialize_elements
def initialize_elements(self, to_rel, arrs, environment=None):
    water = self._pick_water(environment)
    init_density(arrs, to_rel, water=water, substance=self, aggregate=False)
    for init in self.initializers:
        init.initialize(to_rel, arrs, self)

@ gnome.spills.substance.Substance._pick_water
def _pick_water(self, environment):
    return environment.get('water') if environment else self.water if hasattr(self, 'water') and self.water else Water()

@ gnome.spills.substance.Substance.density_at_temp
def density_at_temp(self, temp=273.15):
    return self.standard_density

@ gnome.spills.substance.Substance._attach_default_refs
def _attach_default_refs(self, ref_dict):
    for i in self.initializers:
        i._attach_default_refs(ref_dict)
    return GnomeId._attach_default_refs(self, ref_dict)

@ getter gnome.spills.substance.NonWeatheringSubstance.is_weatherable
def is_weatherable(self):
    if not hasattr(self, '_is_weatherable'):
        self._is_weatherable = False
    return self._is_weatherable

@ setter gnome.spills.substance.NonWeatheringSubstance.is_weatherable
def is_weatherable(self, val):
    pass

@ gnome.spills.substance.NonWeatheringSubstance.initialize_elements
def initialize_elements(self, to_rel, arrs, environment=None):
    sl = slice(-to_rel, None, 1)
    if 'fate_status' in arrs:
        arrs['fate_status'][sl] = fate.non_weather
    super(NonWeatheringSubstance, self).initialize_elements(to_rel, arrs, environment=environment)

@ gnome.spills.substance.SubsurfaceSubstance.__init__
def __init__(self, distribution, *args, **kwargs):
    super().__init__(*args, **kwargs)
    init = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
    self.initializers.append(init)
    self.array_types.update(init.array_types)

@ func gnome.utilities.distributions.get_distribution_by_name
def get_distribution_by_name(dist_name):
    try:
        return ALL_DISTS[dist_name]
    except KeyError:
        raise ValueError()

@ gnome.utilities.distributions.UniformDistribution.__init__
def __init__(self, low=0.0, high=0.1, **kwargs):
    super(UniformDistribution, self).__init__(**kwargs)
    self.low = low
    self.high = high
    self._check_uniform_args()

@ gnome.utilities.distributions.UniformDistribution._check_uniform_args
def _check_uniform_args(self):
    if None in (self.low, self.high):
        raise TypeError()

@ gnome.utilities.distributions.UniformDistribution._uniform
def _uniform(self, np_array):
    np_array[:] = np.random.uniform(self.low, self.high, len(np_array))

@ gnome.utilities.distributions.UniformDistribution.set_values
def set_values(self, np_array):
    self._uniform(np_array)

@ gnome.utilities.distributions.NormalDistribution.__init__
def __init__(self, mean=0.0, sigma=0.1, **kwargs):
    super(NormalDistribution, self).__init__(**kwargs)
    self.mean = mean
    self.sigma = sigma
    self._check_normal_args()

@ gnome.utilities.distributions.NormalDistribution._check_normal_args
def _check_normal_args(self):
    if None in (self.mean, self.sigma):
        raise TypeError()

@ gnome.utilities.distributions.NormalDistribution._normal
def _normal(self, np_array):
    np_array[:] = np.random.normal(self.mean, self.sigma, len(np_array))

@ gnome.utilities.distributions.NormalDistribution.set_values
def set_values(self, np_array):
    self._normal(np_array)

@ gnome.utilities.distributions.LogNormalDistribution.__init__
def __init__(self, mean=0.0, sigma=0.1, **kwargs):
    super(LogNormalDistribution, self).__init__(**kwargs)
    self.mean = mean
    self.sigma = sigma
    self._check_lognormal_args()

@ gnome.utilities.distributions.LogNormalDistribution._check_lognormal_args
def _check_lognormal_args(self):
    if None in (self.mean, self.sigma):
        raise TypeError()

@ gnome.utilities.distributions.LogNormalDistribution._lognormal
def _lognormal(self, np_array):
    np_array[:] = np.random.lognormal(self.mean, self.sigma, len(np_array))

@ gnome.utilities.distributions.LogNormalDistribution.set_values
def set_values(self, np_array):
    self._lognormal(np_array)

@ gnome.utilities.distributions.WeibullDistribution.__init__
def __init__(self, alpha=None, lambda_=1.0, min_=None, max_=None, **kwargs):
    super().__init__(**kwargs)
    self.alpha = alpha
    self.lambda_ = lambda_
    self.min_ = min_
    self.max_ = max_
    self._check_weibull_args()

@ gnome.utilities.distributions.WeibullDistribution._check_weibull_args
def _check_weibull_args(self):
    if self.alpha is None:
        raise TypeError()
    if self.min_ is not None:
        if self.min_ < 0:
            raise ValueError()
        if fraction_below_d(self.min_, self.alpha, self.lambda_) > 0.999:
            raise ValueError()
    if self.max_ is not None:
        if self.max_ <= 0:
            raise ValueError()
        if fraction_below_d(self.max_, self.alpha, self.lambda_) < 0.001:
            raise ValueError()
        if self.min_ is not None and self.max_ < self.min_:
            raise ValueError()
        if self.max_ < 5e-05:
            raise ValueError()

@ gnome.utilities.distributions.WeibullDistribution._weibull
def _weibull(self, np_array):
    np_array[:] = self.lambda_ * np.random.weibull(self.alpha, len(np_array))
    if self.min_ is not None and self.max_ is not None:
        for x in range(len(np_array)):
            while np_array[x] < self.min_ or np_array[x] > self.max_:
                np_array[x] = self.lambda_ * np.random.weibull(self.alpha)
    elif self.min_ is not None:
        for x in range(len(np_array)):
            while np_array[x] < self.min_:
                np_array[x] = self.lambda_ * np.random.weibull(self.alpha)
    elif self.max_ is not None:
        for x in range(len(np_array)):
            while np_array[x] > self.max_:
                np_array[x] = self.lambda_ * np.random.weibull(self.alpha)

@ gnome.utilities.distributions.WeibullDistribution.set_values
def set_values(self, np_array):
    self._weibull(np_array)

@ gnome.utilities.distributions.RayleighDistribution.sigma_from_wind
def sigma_from_wind(cls, avg_speed):
    return np.sqrt(2.0 / np.pi) * avg_speed

@ gnome.utilities.distributions.RayleighDistribution.pdf
def pdf(cls, x, sigma):
    return x / sigma ** 2.0 * np.exp(-1.0 / 2.0 * (x ** 2.0 / sigma ** 2.0))

@ gnome.utilities.distributions.RayleighDistribution.cdf
def cdf(cls, x, sigma):
    return 1.0 - np.exp(-1.0 / 2.0 * (x ** 2.0 / sigma ** 2.0))

@ gnome.utilities.distributions.RayleighDistribution.quantile
def quantile(cls, f, sigma):
    return (sigma * np.sqrt(-1.0 * np.log((1.0 - f) ** 2.0) + 0j)).real

## R5 the helpers that make spills pass on every argument
@ func gnome.spills.spill._setup_spill
def _setup_spill(release, water, substance, amount, units, name, on, windage_range, windage_persist):
    spill = Spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on)
    if windage_range is not None:
        spill.substance.windage_range = windage_range
    if windage_persist is not None:
        spill.substance.windage_persist = windage_persist
    return spill

@ func gnome.spills.spill.point_line_spill
def point_line_spill(num_elements, start_position, release_time, end_position=None, end_release_time=None, substance=None, amount=0, units='kg', water=None, on=True, windage_range=None, windage_persist=None, name='Point-Line Spill'):
    if len(start_position) == 2:
        start_position = (*start_position[:2], 0)
    if end_position is not None and len(end_position) == 2:
        end_position = (*end_position[:2], 0)
    release = PointLineRelease(release_time=release_time, start_position=start_position, num_elements=num_elements, end_position=end_position, end_release_time=end_release_time)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

@ func gnome.spills.spill.surface_point_line_spill
def surface_point_line_spill(num_elements, start_position, release_time, end_position=None, end_release_time=None, substance=None, amount=0, units='kg', water=None, on=True, windage_range=None, windage_persist=None, name='Surface Point or Line Release'):
    start_position = (*start_position[:2], 0)
    end_position = (*end_position[:2], 0) if end_position is not None else None
    release = PointLineRelease(release_time=release_time, start_position=start_position, num_elements=num_elements, end_position=end_position, end_release_time=end_release_time)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

@ func gnome.spills.spill.grid_spill
def grid_spill(bounds, resolution, release_time, substance=None, amount=1.0, units='kg', on=True, water=None, windage_range=None, windage_persist=None, name='Surface Grid Spill'):
    release = GridRelease(release_time, bounds, resolution)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

@ func gnome.spills.spill.subsurface_spill
def subsurface_spill(num_elements, start_position, release_time, distribution, distribution_type='droplet_size', end_release_time=None, substance=None, amount=0, units='kg', water=None, on=True, windage_range=None, windage_persist=None, name='Subsurface plume'):
    release = SubsurfaceRelease(distribution_type=distribution_type, distribution=distribution, release_time=release_time, start_position=start_position, num_elements=num_elements, end_release_time=end_release_time)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

@ func gnome.spills.spill.spatial_release_spill
def spatial_release_spill(start_positions, release_time, substance=None, water=None, on=True, amount=0, units='kg', windage_range=None, windage_persist=None, name='spatial_release'):
    release = Release(release_time=release_time, custom_positions=start_positions, name=name)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

@ func gnome.spills.spill.polygon_release_spill
def polygon_release_spill(filename, release_time=None, substance=None, water=None, on=True, amount=0, units='kg', windage_range=None, windage_persist=None, name='spatial_release'):
    release = PolygonRelease(filename=filename, release_time=release_time, name=name)
    spill = _setup_spill(release=release, water=water, substance=substance, amount=amount, units=units, name=name, on=on, windage_range=windage_range, windage_persist=windage_persist)
    return spill

## R6 constants
@ const gnome.spills.release.SPREADING_CUMULATIVE_TIME_SCALE
timedelta(hours=12.0)

