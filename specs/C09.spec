## R1 a map knows what is on the map, on land and in the water, and where a spill may start
@ gnome.maps.map.GnomeMap.__init__
def __init__(self, map_bounds=None, spillable_area=None, land_polys=None, **kwargs):
    super(GnomeMap, self).__init__(**kwargs)
    self.map_bounds = map_bounds
    self.spillable_area = spillable_area
    self.land_polys = land_polys

@ getter gnome.maps.map.GnomeMap.refloat_halflife
def refloat_halflife(self):
    return self._refloat_halflife / self.seconds_in_hour

@ setter gnome.maps.map.GnomeMap.refloat_halflife
def refloat_halflife(self, value):
    self._refloat_halflife = value * self.seconds_in_hour

@ gnome.maps.map.GnomeMap.__add__
def __add__(self, other):
    raise TypeError()

@ gnome.maps.map.GnomeMap.get_polygons
def get_polygons(self):
    polys = {}
    polys['spillable_area'] = self.spillable_area
    polys['map_bounds'] = self.map_bounds
    polys['land_polys'] = self.land_polys
    return polys

@ gnome.maps.map.GnomeMap._attr_from_list_to_array
def _attr_from_list_to_array(self, l_):
    return np.asarray(l_, dtype=np.float64).reshape(-1, 2)

@ getter gnome.maps.map.GnomeMap.map_bounds
def map_bounds(self):
    return self._map_bounds

@ setter gnome.maps.map.GnomeMap.map_bounds
def map_bounds(self, mb):
    try:
        bounds = np.array(mb, dtype=np.float64)
        bounds.shape = (-1, 2)
    except ValueError as exp:
        if mb is None or mb == 'global':
            bounds = np.array(((-360, -90), (-360, 90), (360, 90), (360, -90)), dtype=np.float64)
        else:
            raise ValueError() from exp
    self._map_bounds = bounds

@ gnome.maps.map.GnomeMap.get_map_bounding_box
def get_map_bounding_box(self):
    bounds = self._map_bounds
    longs = bounds[:, 0]
    lats = bounds[:, 1]
    left, right = (longs.min(), longs.max())
    bottom, top = (lats.min(), lats.max())
    return ((left, bottom), (right, top))

@ getter gnome.maps.map.GnomeMap.spillable_area
def spillable_area(self):
    return self._spillable_area

@ setter gnome.maps.map.GnomeMap.spillable_area
def spillable_area(self, sa):
    if sa is None:
        self._spillable_area = None
    elif isinstance(sa, PolygonSet):
        self._spillable_area = sa
    else:
        ps = PolygonSet()
        try:
            sa[0][0][0]
        except TypeError:
            sa = [sa]
        for poly in sa:
            ps.append(poly)
        self._spillable_area = ps

@ getter gnome.maps.map.GnomeMap.land_polys
def land_polys(self):
    return self._land_polys

@ setter gnome.maps.map.GnomeMap.land_polys
def land_polys(self, sa):
    if sa is None or (isinstance(sa, list) and len(sa) == 0):
        sa = PolygonSet()
    if isinstance(sa, PolygonSet):
        self._land_polys = sa
        return
    ps = PolygonSet()
    try:
        sa[0][0][0]
    except TypeError:
        sa = [sa]
    for poly in sa:
        ps.append(poly)
    self._land_polys = ps

@ gnome.maps.map.GnomeMap.on_map
def on_map(self, coords):
    coords = np.asarray(coords, dtype=world_point_type)
    return points_in_poly(self.map_bounds, coords)

@ gnome.maps.map.GnomeMap.on_land
def on_land(self, coord):
    return False

@ gnome.maps.map.GnomeMap.on_land_points
def on_land_points(self, coords):
    return np.zeros((len(coords),), dtype=np.bool)

@ gnome.maps.map.GnomeMap.in_water
def in_water(self, coords):
    return self.on_map(coords)

@ gnome.maps.map.GnomeMap.allowable_spill_position
def allowable_spill_position(self, coord):
    if self.spillable_area is not None:
        for poly in self.spillable_area:
            if point_in_poly(poly.points, coord):
                return True
    elif point_in_poly(self.map_bounds, coord):
        return True
    return False

@ gnome.maps.map.GnomeMap._set_off_map_status
def _set_off_map_status(self, sc):
    next_positions = sc['next_positions']
    status_codes = sc['status_codes']
    off_map = np.logical_not(self.on_map(next_positions))
    if len(next_positions) != 0 and np.all(off_map):
        pass
    status_codes[off_map] = oil_status.off_maps
    sc.mass_balance['beached'] = sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
    sc.mass_balance['off_maps'] += sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()

@ gnome.maps.map.GnomeMap.beach_elements
def beach_elements(self, sc, model_time=None):
    self.resurface_airborne_elements(sc)
    self._set_off_map_status(sc)

@ gnome.maps.map.GnomeMap.refloat_elements
def refloat_elements(self, spill_container, time_step, model_time=None):
    pass

@ gnome.maps.map.GnomeMap.resurface_airborne_elements
def resurface_airborne_elements(self, spill_container):
    next_positions = spill_container['next_positions']
    np.maximum(next_positions[:, 2], 0.0, out=next_positions[:, 2])
    return None

@ gnome.maps.map.GnomeMap.to_geojson
def to_geojson(self):
    return FeatureCollection([])

@ func gnome.maps.map.ShiftLon360
def ShiftLon360(points):
    points[points[:, 0] < 0, 0] += 360
    return points

@ func gnome.maps.map.ShiftLon180
def ShiftLon180(points):
    points[points[:, 0] > 180, 0] -= 360
    return points

@ func gnome.maps.map.map_from_rectangular_grid
def map_from_rectangular_grid(mask, lon, lat, refine=1, **kwargs):
    grid = np.repeat(mask, refine, axis=0)
    grid = np.repeat(grid, refine, axis=1)
    lon = refine_axis(lon, refine)
    lat = refine_axis(lat, refine)
    nlon, nlat = grid.shape
    map_bounds = np.array(((lon[0], lat[0]), (lon[-1], lat[0]), (lon[-1], lat[-1]), (lon[0], lat[-1])), dtype=np.float64)
    proj = RectangularGridProjection(lon, lat)
    return RasterMap(grid, proj, map_bounds=map_bounds, **kwargs)

@ func gnome.maps.map.map_from_regular_grid
def map_from_regular_grid(grid_mask, lon, lat, refine=4, refloat_halflife=1, map_bounds=None):
    nlon, nlat = grid_mask.shape
    dlon = (lon[-1] - lon[0]) / (len(lon) - 1)
    dlat = (lat[-1] - lat[0]) / (len(lat) - 1)
    raster_array = np.zeros((nlon * refine, nlat * refine), dtype=np.uint8)
    for i in range(refine):
        for j in range(refine):
            raster_array[i::refine, j::refine] = grid_mask
    bounding_box = np.array(((lon[0], lat[0]), (lon[-1] + dlon, lat[-1] + dlat)), dtype=np.float64)
    proj = RegularGridProjection(bounding_box, image_size=raster_array.shape)
    return RasterMap(raster=raster_array, projection=proj, refloat_halflife=refloat_halflife, map_bounds=map_bounds)

@ func gnome.maps.map.refine_axis
def refine_axis(old_axis, refine):
    refine = int(refine)
    axis = old_axis.reshape((-1, 1))
    axis = (axis[1:] - axis[:-1]) / refine * np.arange(refine) + axis[:-1]
    axis.shape = (-1,)
    axis = np.r_[axis, old_axis[-1]]
    return axis

## R2 straight-shoreline maps beach at the shoreline and count what leaves the map once
@ gnome.maps.map.ParamMap.__init__
def __init__(self, center=(0.0, 0.0), distance=30000, bearing=90, units=None, **kwargs):
    refloat_halflife = kwargs.pop('refloat_halflife', 1)
    self._refloat_halflife = refloat_halflife * 3600
    self.build(center, distance, bearing, units)

@ gnome.maps.map.ParamMap.build
def build(self, center, distance, bearing, units):
    self.units = units if units is not None else 'm'
    self._check_units(self.units)
    if units != 'm':
        self._distance = uc.convert('Length', self.units, 'm', distance)
    else:
        self._distance = distance
    if self._distance < 30:
        raise ValueError()
    if abs(center[0]) > 360 or abs(center[1]) > 90:
        raise ValueError()
    self.center = center = (center[0], center[1], 0)
    self.bearing = bearing
    map_dist = (self._distance, 0.0, 0)
    d = FlatEarthProjection.meters_to_lonlat(map_dist, center)[0][0]
    init_points = [(d, -16 * d), (d, 16 * d), (16 * d, 16 * d), (16 * d, -16 * d)]
    ang = np.deg2rad(90 - bearing)
    rot_matrix = [(np.cos(ang), np.sin(ang)), (-np.sin(ang), np.cos(ang))]
    self.land_points = np.dot(init_points, rot_matrix)
    self.land_points = np.array([(x + center[0], y + center[1]) for x, y in self.land_points])
    land_polys = PolygonSet((self.land_points, [0, 4], []))
    land_polys._MetaDataList = [('polygon', '1', '1')]
    map_bounds = np.array(((-16 * d, -16 * d), (-16 * d, 16 * d), (16 * d, 16 * d), (16 * d, -16 * d)), dtype=np.float64) + (center[0], center[1])
    GnomeMap.__init__(self, map_bounds=map_bounds, land_polys=land_polys)

@ getter gnome.maps.map.ParamMap.distance
def distance(self):
    return uc.convert('Length', 'm', self.units, self._distance)

@ gnome.maps.map.ParamMap._check_units
def _check_units(self, units):
    if units in self._valid_dist_units:
        return True
    else:
        ex = uc.InvalidUnitError((units, 'Length'))
        raise ex

@ gnome.maps.map.ParamMap.get_map_bounds
def get_map_bounds(self):
    return (self.map_bounds[0], self.map_bounds[2])

@ gnome.maps.map.ParamMap.get_land_polygon
def get_land_polygon(self):
    poly = PolygonSet((self.land_points, [0, 4], []))
    poly._MetaDataList = [('polygon', '1', '1')]
    return poly

@ gnome.maps.map.ParamMap.on_map
def on_map(self, coord):
    return points_in_poly(self.map_bounds, coord)

@ gnome.maps.map.ParamMap.on_land
def on_land(self, coord):
    return self.on_map(coord) and points_in_poly(self.land_points, coord)

@ gnome.maps.map.ParamMap.in_water
def in_water(self, coord):
    return self.on_map(coord) and (not self.on_land(coord))

@ gnome.maps.map.ParamMap.allowable_spill_position
def allowable_spill_position(self, coord):
    if coord == self.center:
        return True
    else:
        return False

@ gnome.maps.map.ParamMap.find_last_water_pos
def find_last_water_pos(self, starts, ends):
    return starts + (ends - starts) * 1e-06

@ gnome.maps.map.ParamMap.beach_elements
def beach_elements(self, sc, model_time=None):
    self.resurface_airborne_elements(sc)
    start_pos = sc['positions']
    next_pos = sc['next_positions']
    status_codes = sc['status_codes']
    last_water_positions = sc['last_water_positions']
    move_particles(start_pos, next_pos, status_codes, last_water_positions, self.land_points)
    self._set_off_map_status(sc)

@ gnome.maps.map.ParamMap.refloat_elements
def refloat_elements(self, spill_container, time_step, model_time=None):
    r_idx = np.where(spill_container['status_codes'] == oil_status.on_land)[0]
    if r_idx.size == 0:
        return
    if self._refloat_halflife > 0.0:
        refloat_probability = 1.0 - 0.5 ** (float(time_step) / self._refloat_halflife)
        rnd = np.random.uniform(0, 1, len(r_idx))
        r_idx = r_idx[np.where(rnd <= refloat_probability)[0]]
    elif self._refloat_halflife < 0.0:
        r_idx = np.array((), bool)
    if r_idx.size > 0:
        spill_container['positions'][r_idx] = spill_container['last_water_positions'][r_idx]
        spill_container['status_codes'][r_idx] = oil_status.in_water

@ gnome.maps.map.ParamMap.to_geojson
def to_geojson(self):
    shoreline_geo = [p.points.tolist() for p in self.land_polys]
    shoreline = Feature(id='1', properties={'name': 'Shoreline Polys'}, geometry=MultiPolygon(coordinates=[shoreline_geo]))
    stuff = FeatureCollection([shoreline])
    return stuff

## R3 raster maps: land check on every layer, beached elements keep their last water position, refloating by half-life
@ gnome.maps.map.RasterMap.__init__
def __init__(self, raster=None, projection=None, refloat_halflife=1, **kwargs):
    super(RasterMap, self).__init__(**kwargs)
    self._refloat_halflife = refloat_halflife * self.seconds_in_hour
    if raster is None:
        self.raster = np.zeros((1024, 1024))
    else:
        self.raster = np.ascontiguousarray(raster)
    self.projection = projection

@ gnome.maps.map.RasterMap.build_coarser_rasters
def build_coarser_rasters(self):
    self.layers = []
    base_w = self.raster.shape[0]
    base_h = self.raster.shape[1]
    for ratio in self.ratios[:-1]:
        genned_layer = np.zeros((int(math.ceil(float(base_w) / ratio)), int(math.ceil(float(base_h) / ratio))), dtype=np.uint8, order='C')
        for j in range(0, genned_layer.shape[1]):
            for i in range(0, genned_layer.shape[0]):
                genned_layer[i, j] = np.any(self.raster[i * ratio:(i + 1) * ratio, j * ratio:(j + 1) * ratio])
        self.layers.append(genned_layer)
    self.layers.append(self.raster)

@ getter gnome.maps.map.RasterMap.ratios
def ratios(self):
    if self._ratios is None:
        self._ratios = (16, 1)
    return self._ratios

@ setter gnome.maps.map.RasterMap.ratios
def ratios(self, r):
    self._ratios = r
    self.build_coarser_rasters()

@ getter gnome.maps.map.RasterMap.raster
def raster(self):
    return self._raster

@ setter gnome.maps.map.RasterMap.raster
def raster(self, arr):
    if arr.size > 16000000:
        self._ratios = np.array((128, 32, 1), dtype=np.int32)
    elif arr.size > 1000000:
        self._ratios = np.array((32, 1), dtype=np.int32)
    else:
        self._ratios = np.array((16, 1), dtype=np.int32)
    self._raster = np.ascontiguousarray(arr)
    self.build_coarser_rasters()

@ getter gnome.maps.map.RasterMap.approximate_raster_interval
def approximate_raster_interval(self):
    orig, diag = self.projection.to_lonlat(np.array([(0, 0), (1, 1)]))
    orig = np.r_[orig, 0]
    diag = np.r_[diag, 0]
    diff = self.projection.lonlat_to_meters(orig - diag, orig)
    return np.average(np.abs(diff))

@ gnome.maps.map.RasterMap.save_as_image
def save_as_image(self, filename):
    raster = self.raster.copy()
    np.putmask(raster, self.raster > 0, 2)
    im = py_gd.from_array(raster)
    im.save(filename, 'bmp')

@ gnome.maps.map.RasterMap._off_raster
def _off_raster(self, coord):
    shape = self.raster.shape
    return coord[0] < 0 or coord[1] < 0 or coord[0] >= shape[0] or (coord[1] >= shape[1])

@ gnome.maps.map.RasterMap._off_raster_array
def _off_raster_array(self, coords):
    shape = self.raster.shape
    return (coords[:, 0] < 0) | (coords[:, 1] < 0) | (coords[:, 0] >= shape[0]) | (coords[:, 1] >= shape[1])

@ gnome.maps.map.RasterMap._on_land_pixel
def _on_land_pixel(self, coord):
    if self._off_raster(coord):
        return False
    else:
        return self.raster[coord[0], coord[1]] & self.land_flag

@ gnome.maps.map.RasterMap._on_land_pixel_array
def _on_land_pixel_array(self, coords):
    on_raster = ~self._off_raster_array(coords)
    coords_on_raster = coords[on_raster]
    on_land = self.raster[coords_on_raster[:, 0], coords_on_raster[:, 1]] == self.land_flag
    result = np.zeros((len(coords),), dtype=np.bool)
    result[on_raster] = on_land
    return result

@ gnome.maps.map.RasterMap.on_land
def on_land(self, coord):
    return self._on_land_pixel(self.projection.to_pixel(coord, asint=True)[0])

@ gnome.maps.map.RasterMap.on_land_points
def on_land_points(self, coords):
    pixel_coords = self.projection.to_pixel(coords, asint=True)
    result = self._on_land_pixel_array(pixel_coords)
    return result

@ gnome.maps.map.RasterMap._in_water_pixel
def _in_water_pixel(self, coord):
    if self._off_raster(coord):
        return True
    else:
        return not self.raster[coord[0], coord[1]] & self.land_flag

@ gnome.maps.map.RasterMap.in_water
def in_water(self, coord):
    if not self.on_map(coord):
        return False
    else:
        return self._in_water_pixel(self.projection.to_pixel(coord, asint=True)[0])

@ gnome.maps.map.RasterMap.beach_elements
def beach_elements(self, sc, model_time=None):
    self.resurface_airborne_elements(sc)
    start_pos = sc['positions']
    next_pos = sc['next_positions']
    status_codes = sc['status_codes']
    last_water_positions = sc['last_water_positions']
    start_pos_pixel = self.projection.to_pixel(start_pos, asint=True)
    next_pos_pixel = self.projection.to_pixel(next_pos, asint=True)
    last_water_pos_pixel = self.projection.to_pixel(last_water_positions, asint=True)
    self._check_land_layers(self.layers, self.ratios, start_pos_pixel, next_pos_pixel, status_codes, last_water_pos_pixel)
    beached = status_codes == oil_status.on_land
    next_pos[beached, :2] = self.projection.to_lonlat(next_pos_pixel[beached])
    last_water_positions[beached, :2] = self.projection.to_lonlat(last_water_pos_pixel[beached, :2])
    if self.refloat_halflife == 0.0:
        next_pos[beached, :2] = last_water_positions[beached, :2]
        status_codes[beached] = oil_status.in_water
    self._set_off_map_status(sc)

@ gnome.maps.map.RasterMap.refloat_elements
def refloat_elements(self, spill_container, time_step, model_time=None):
    r_idx = np.where(spill_container['status_codes'] == oil_status.on_land)[0]
    if r_idx.size == 0:
        return
    if self._refloat_halflife > 0.0:
        refloat_probability = 1.0 - 0.5 ** (float(time_step) / self._refloat_halflife)
        rnd = np.random.uniform(0, 1, len(r_idx))
        r_idx = r_idx[np.where(rnd <= refloat_probability)[0]]
    elif self._refloat_halflife < 0.0:
        r_idx = np.array((), bool)
    if r_idx.size > 0:
        spill_container['positions'][r_idx] = spill_container['last_water_positions'][r_idx]
        spill_container['status_codes'][r_idx] = oil_status.in_water

@ gnome.maps.map.RasterMap._check_land_layers
def _check_land_layers(self, raster_map_layers, ratios, positions, end_positions, status_codes, last_water_positions):
    check_land_layers(raster_map_layers, ratios, positions, end_positions, status_codes, last_water_positions)

@ gnome.maps.map.RasterMap.allowable_spill_position
def allowable_spill_position(self, coord):
    if self.on_map(coord):
        if not self.on_land(coord):
            return super(RasterMap, self).allowable_spill_position(coord)
        else:
            return False
    else:
        return False

@ gnome.maps.map.RasterMap.to_pixel_array
def to_pixel_array(self, coords):
    return self.projection.to_pixel(coords)

@ gnome.maps.map.MapFromBNA.__init__
def __init__(self, filename, raster_size=4096 * 4096, map_bounds=None, spillable_area=None, land_polys=None, shift_lons=0, **kwargs):
    self.filename = filename
    self._raster_size = raster_size
    self.shift_lons = shift_lons
    polygons = haz_files.ReadBNA(filename, 'PolygonSet')
    if kwargs.get('name', False):
        self.name = os.path.split(filename)[1]
    land_polys = PolygonSet()
    spillable_area_bna = PolygonSet()
    tf = ShiftLon360 if shift_lons == 360 else ShiftLon180 if shift_lons == 180 else None
    if tf is not None:
        polygons.TransformData(tf)
        if map_bounds:
            map_bounds = tf(np.array(map_bounds)).tolist()
    for p in polygons:
        if p.metadata[1].lower().replace(' ', '') == 'spillablearea':
            spillable_area_bna.append(p)
        elif p.metadata[1].lower().replace(' ', '') == 'mapbounds':
            if map_bounds is not None:
                pass
            else:
                map_bounds = p
        elif len(p) > 2:
            land_polys.append(p)
    BB = land_polys.bounding_box
    if not spillable_area:
        if len(spillable_area_bna) == 0:
            spillable_area = None
        else:
            spillable_area = spillable_area_bna
    if map_bounds is None:
        if spillable_area:
            saBB = spillable_area.bounding_box
            saBB.Merge(BB)
            map_bounds = saBB.AsPoly()
        else:
            map_bounds = BB.AsPoly()
    raster, projection = self.build_raster(land_polys, BB)
    super().__init__(raster=raster, projection=projection, map_bounds=map_bounds, spillable_area=spillable_area, land_polys=land_polys, **kwargs)
    return None

@ gnome.maps.map.MapFromBNA.build_raster
def build_raster(self, land_polys=None, BB=None):
    land_polys = self.land_polys if land_polys is None else land_polys
    BB = land_polys.bounding_box if BB is None else BB
    raster_size = self.raster_size
    aspect_ratio = np.cos(BB.Center[1] * np.pi / 180) * (BB.Width / BB.Height)
    w = int(np.sqrt(raster_size * aspect_ratio))
    h = raster_size // w
    canvas = MapCanvas(image_size=(w, h), preset_colors=None, background_color='water', viewport=BB)
    canvas.add_colors((('water', (0, 255, 255)), ('land', (255, 204, 153))))
    canvas.clear_background()
    for poly in land_polys:
        if poly.metadata[2] == '1':
            canvas.draw_polygon(poly, line_color='land', fill_color='land', line_width=1, background=True)
        elif poly.metadata[2] == '2':
            canvas.draw_polygon(poly, line_color='water', fill_color='water', line_width=1, background=True)
    raster_array = canvas.back_asarray()
    return (raster_array, canvas.projection)

@ getter gnome.maps.map.MapFromBNA.raster_size
def raster_size(self):
    return self._raster_size

@ setter gnome.maps.map.MapFromBNA.raster_size
def raster_size(self, size):
    if size != self._raster_size:
        self._raster_size = size
        self.raster, self.projection = self.build_raster()

@ gnome.maps.map.MapFromBNA.to_geojson
def to_geojson(self):
    land_coords = []
    lake_coords = []
    crds = None
    for poly in self.land_polys:
        if poly.metadata[2] == '1':
            crds = land_coords
        elif poly.metadata[2] == '2':
            crds = lake_coords
        else:
            continue
        pts = poly.points.tolist()
        pts.append(pts[0])
        crds.append([pts])
    features = []
    if land_coords:
        land = Feature(id='1', properties={'name': 'Shoreline Polys'}, geometry=MultiPolygon(land_coords))
        lakes = Feature(id='2', properties={'name': 'Lakes'}, geometry=MultiPolygon(lake_coords))
        features.append(land)
        features.append(lakes)
    return FeatureCollection(features)

## R4 tide flats: elements dry out and float again with the tide
@ gnome.maps.tideflat_map.TideflatMap.__init__
def __init__(self, land_map, tideflat):
    self.land_map = land_map
    self.tideflat = tideflat

@ gnome.maps.tideflat_map.TideflatMap.__getattr__
def __getattr__(self, name):
    return getattr(self.land_map, name)

@ gnome.maps.tideflat_map.TideflatMap.beach_elements
def beach_elements(self, spill_container, model_time=None):
    self.land_map.beach_elements(spill_container, model_time)
    status_codes = spill_container['status_codes']
    positions = spill_container['next_positions']
    in_water_idx = np.nonzero(status_codes == oil_status.in_water)[0]
    if in_water_idx.size > 0:
        in_water_pos = positions[in_water_idx]
        now_dry = self.tideflat.is_dry(in_water_pos, model_time)
        status_codes[in_water_idx[now_dry]] = oil_status.on_tideflat

@ gnome.maps.tideflat_map.TideflatMap.refloat_elements
def refloat_elements(self, spill_container, time_step, model_time=None):
    status_codes = spill_container['status_codes']
    positions = spill_container['next_positions']
    tf_idx = np.nonzero(status_codes == oil_status.on_tideflat)[0]
    if tf_idx.size > 0:
        on_tideflat = positions[tf_idx]
        now_wet = self.tideflat.is_wet(on_tideflat, model_time)
        status_codes[tf_idx[now_wet]] = oil_status.in_water
    self.land_map.refloat_elements(spill_container, time_step)

@ gnome.maps.tideflat_map.TideflatBase.is_dry
def is_dry(self, points, time):
    points = np.asarray(points, dtype=np.float64)
    if points.shape[1] != 3:
        raise ValueError()
    return np.zeros(points.shape[0], dtype=bool)

@ gnome.maps.tideflat_map.TideflatBase.is_wet
def is_wet(self, points, time):
    return np.logical_not(self.is_dry(points, time))

@ gnome.maps.tideflat_map.SimpleTideflat.__init__
def __init__(self, bounds, dry_start, dry_end):
    self.bounds = np.array(bounds, dtype=np.float64).reshape((-1, 2))
    self.dry_start = asdatetime(dry_start)
    self.dry_end = asdatetime(dry_end)

@ gnome.maps.tideflat_map.SimpleTideflat.is_dry
def is_dry(self, points, model_time):
    points = np.array(points, dtype=np.float64).reshape((-1, 3))
    if model_time < self.dry_start or model_time > self.dry_end:
        return np.zeros(points.shape[0], dtype=bool)
    return points_in_poly(self.bounds, points)


## R5 an element marches along its straight path over the land raster and stops at the first land pixel it meets
@ func gnome.cy_gnome.cy_land_check.overlap_grid
def overlap_grid(m, n, pt1, pt2):
    x1 = pt1[0]
    y1 = pt1[1]
    x2 = pt2[0]
    y2 = pt2[1]
    return c_overlap_grid(m, n, x1, y1, x2, y2)

@ func gnome.cy_gnome.cy_land_check.c_overlap_grid
def c_overlap_grid(m, n, x1, y1, x2, y2):
    if x1 < 0 and x2 < 0:
        return 0
    elif y1 < 0 and y2 < 0:
        return 0
    elif x1 >= m and x2 >= m:
        return 0
    elif y1 >= n and y2 >= n:
        return 0
    else:
        return 1

@ func gnome.cy_gnome.cy_land_check.c_find_first_pixel
def c_find_first_pixel(grid, m, n, x0, y0, x1, y1, prev_x, prev_y, hit_x, hit_y):
    was_on_grid = False
    if not c_overlap_grid(m, n, x0, y0, x1, y1):
        return False
    dx = abs(x1 - x0)
    dy = abs(y1 - y0)
    if x0 < x1:
        sx = 1
    else:
        sx = -1
    if y0 < y1:
        sy = 1
    else:
        sy = -1
    err = dx - dy
    if not (x0 < 0 or x0 >= m or y0 < 0 or (y0 >= n)):
        if grid[x0 * n + y0] != 0:
            prev_x[0] = x0
            prev_y[0] = y0
            hit_x[0] = x0
            hit_y[0] = y0
            return True
        was_on_grid = True
    while True:
        if x0 == x1 and y0 == y1:
            break
        prev_x[0] = x0
        prev_y[0] = y0
        e2 = 2 * err
        if e2 > -dy:
            err = err - dy
            x0 = x0 + sx
        if e2 < dx:
            err = err + dx
            y0 = y0 + sy
        if x0 < 0 or x0 >= m or y0 < 0 or (y0 >= n):
            if was_on_grid:
                return False
            else:
                continue
        else:
            if grid[x0 * n + y0] != 0:
                hit_x[0] = x0
                hit_y[0] = y0
                return True
            elif was_on_grid and e2 > -dy and (e2 < dx):
                pt1_x = x0
                pt1_y = y0 - sy
                pt2_x = x0 - sx
                pt2_y = y0
                if grid[pt1_x * n + pt1_y] != 0 and grid[pt2_x * n + pt2_y] != 0:
                    hit_x[0] = pt1_x
                    hit_y[0] = pt1_y
                    return True
            was_on_grid = True
    return False

@ func gnome.cy_gnome.cy_land_check.find_first_pixel
def find_first_pixel(grid, pt1, pt2):
    m, n = grid.shape
    x1 = pt1[0]
    y1 = pt1[1]
    x2 = pt2[0]
    y2 = pt2[1]
    grid_arr = grid
    dataptr = addr(grid_arr[0, 0])
    prev_x = x1
    prev_y = y1
    result, prev_x, prev_y, hit_x, hit_y = c_find_first_pixel(dataptr, m, n, x1, y1, x2, y2, prev_x, prev_y, '&', '&')
    if result:
        return ((prev_x, prev_y), (hit_x, hit_y))
    else:
        return None

@ func gnome.cy_gnome.cy_land_check.check_land
def check_land(grid, positions, end_positions, status_codes, last_water_positions):
    num_le = positions.shape[0]
    m = grid.shape[0]
    n = grid.shape[1]
    grid_arr = grid
    dataptr = addr(grid_arr[0, 0])
    for i in range(num_le):
        if status_codes[i] == type_defs.OILSTAT_ONLAND:
            continue
        did_hit, prev_x, prev_y, hit_x, hit_y = c_find_first_pixel(dataptr, m, n, positions[i, 0], positions[i, 1], end_positions[i, 0], end_positions[i, 1], '&', '&', '&', '&')
        if did_hit:
            last_water_positions[i, 0] = prev_x
            last_water_positions[i, 1] = prev_y
            end_positions[i, 0] = hit_x
            end_positions[i, 1] = hit_y
            status_codes[i] = type_defs.OILSTAT_ONLAND
        else:
            positions[i, 0] = end_positions[i, 0]
            positions[i, 1] = end_positions[i, 1]
    return None

@ func gnome.cy_gnome.cy_land_check.check_land_layers
def check_land_layers(grid_layers, grid_ratios, positions, end_positions, status_codes, last_water_positions):
    coarse_pos = PyMem_Malloc(2 * sizeof(int32_t))
    coarse_end = PyMem_Malloc(2 * sizeof(int32_t))
    num_ratios = grid_ratios.shape[0]
    dataptrs = PyMem_Malloc(num_ratios * sizeof(uint8_t))
    widths = PyMem_Malloc(num_ratios * sizeof(int32_t))
    heights = PyMem_Malloc(num_ratios * sizeof(int32_t))
    for i in range(num_ratios):
        grid_arr = grid_layers[i]
        widths[i] = grid_layers[i].shape[0]
        heights[i] = grid_layers[i].shape[1]
        dataptrs[i] = addr(grid_arr[0, 0])
    num_le = positions.shape[0]
    for i in range(num_le):
        if status_codes[i] == type_defs.OILSTAT_ONLAND:
            continue
        layer = 0
        while True:
            coarse_pos[0] = div(positions[i, 0], grid_ratios[layer]).quot
            coarse_pos[1] = div(positions[i, 1], grid_ratios[layer]).quot
            coarse_end[0] = div(end_positions[i, 0], grid_ratios[layer]).quot
            coarse_end[1] = div(end_positions[i, 1], grid_ratios[layer]).quot
            cur_ratio = grid_ratios[layer]
            did_hit, prev_x, prev_y, hit_x, hit_y = c_find_first_pixel(dataptrs[layer], widths[layer], heights[layer], coarse_pos[0], coarse_pos[1], coarse_end[0], coarse_end[1], '&', '&', '&', '&')
            if did_hit:
                if layer == num_ratios - 1:
                    last_water_positions[i, 0] = prev_x
                    last_water_positions[i, 1] = prev_y
                    end_positions[i, 0] = hit_x
                    end_positions[i, 1] = hit_y
                    status_codes[i] = type_defs.OILSTAT_ONLAND
                    break
                else:
                    layer += 1
                    coarse_pos[0] = div(positions[i, 0], grid_ratios[layer]).quot
                    coarse_pos[1] = div(positions[i, 1], grid_ratios[layer]).quot
                    coarse_end[0] = div(end_positions[i, 0], grid_ratios[layer]).quot
                    coarse_end[1] = div(end_positions[i, 1], grid_ratios[layer]).quot
            else:
                positions[i, 0] = end_positions[i, 0]
                positions[i, 1] = end_positions[i, 1]
                break
    PyMem_Free(coarse_pos)
    PyMem_Free(coarse_end)
    PyMem_Free(dataptrs)
    PyMem_Free(widths)
    PyMem_Free(heights)

@ func gnome.cy_gnome.cy_land_check.move_particles
def move_particles(positions, end_positions, status_codes, last_water_positions, land_points):
    shoreline = land_points[0:2]
    [x1, y1], [x2, y2] = (shoreline[0], shoreline[1])
    [a1, a2] = shoreline[1] - shoreline[0]
    beaching = points_in_poly(land_points, end_positions)
    for i in range(positions.shape[0]):
        if status_codes[i] == type_defs.OILSTAT_ONLAND:
            continue
        if beaching[i]:
            p1, p2 = (positions[i][0:2], end_positions[i][0:2])
            [b1, b2] = p2 - p1
            [x3, y3], [x4, y4] = (p1, p2)
            den = a1 * b2 - b1 * a2
            if den == 0:
                raise ValueError()
            u = ((x4 - x3) * (y1 - y3) - (y4 - y3) * (x1 - x3)) / den
            x = x1 + u * (x2 - x1)
            y = y1 + u * (y2 - y1)
            end_positions[i, 0] = x
            end_positions[i, 1] = y
            last_water_positions[i, 0] = p1[0] + (x - p1[0]) * 0.1
            last_water_positions[i, 1] = p1[1] + (y - p1[1]) * 0.1
            status_codes[i] = type_defs.OILSTAT_ONLAND
        else:
            positions[i, 0] = end_positions[i, 0]
            positions[i, 1] = end_positions[i, 1]

