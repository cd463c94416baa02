## R1 projections map positions to pixels and back without touching their arguments
@ func gnome.utilities.projections.to_2d_coords
def to_2d_coords(coords):
    coords = np.atleast_2d(coords)
    if coords.shape[1] == 2:
        return coords
    if coords.shape[1] == 3:
        return coords[:, :2]
    else:
        raise ValueError()

@ gnome.utilities.projections.NoProjection.set_scale
def set_scale(self, bounding_box, image_size=None):
    pass

@ getter gnome.utilities.projections.NoProjection.bounding_box
def bounding_box(self):
    return self.image_box

@ gnome.utilities.projections.NoProjection.to_pixel
def to_pixel(self, coords, asint=False):
    if asint:
        return np.asarray(to_2d_coords(coords), dtype=np.int32, order='C')
    else:
        return np.asarray(to_2d_coords(coords), order='C')

@ gnome.utilities.projections.NoProjection.to_pixel_2D
def to_pixel_2D(self, coords, asint=False):
    raise NotImplementedError()

@ gnome.utilities.projections.NoProjection.to_lonlat
def to_lonlat(self, coords):
    return np.asarray(coords, dtype=np.float64, order='C')

@ gnome.utilities.projections.GeoProjection.__init__
def __init__(self, bounding_box=None, image_size=None, *args, **kwargs):
    super(GeoProjection, self).__init__(*args, **kwargs)
    self.center = None
    self.offset = None
    self.scale = None
    if image_size is None:
        self.image_size = (600, 600)
    if bounding_box is None:
        bounding_box = ((-180, -90), (180, 90))
    self.image_box = bounding_box
    self.set_scale(bounding_box, image_size)

@ getter gnome.utilities.projections.GeoProjection.bounding_box
def bounding_box(self):
    return self.image_box

@ gnome.utilities.projections.GeoProjection.__eq__
def __eq__(self, other):
    if type(self) is not type(other):
        return False
    elif not np.allclose(self.center, other.center, rtol=0.0001, atol=0.0001):
        return False
    elif not np.array_equal(self.offset, other.offset):
        return False
    elif not np.allclose(self.scale, other.scale, rtol=0.0001, atol=0.0001):
        return False
    elif not np.array_equal(self.image_size, other.image_size):
        return False
    else:
        return True

@ gnome.utilities.projections.GeoProjection.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.utilities.projections.GeoProjection.set_scale
def set_scale(self, bounding_box, image_size=None):
    if image_size is None:
        image_size = self.image_size
    bounding_box = np.asarray(bounding_box, dtype=np.float64)
    self.center = np.mean(bounding_box, axis=0)
    self.offset = np.array(image_size, dtype=np.float64) / 2
    h = bounding_box[1, 1] - bounding_box[0, 1]
    w = bounding_box[1, 0] - bounding_box[0, 0]
    if w / h > image_size[0] / image_size[1]:
        s = image_size[0] / w
    else:
        s = image_size[1] / h
    self.scale = (s, -s)
    self.image_box = (self.to_lonlat((0, image_size[1])), self.to_lonlat((image_size[0], 0)))
    self.image_size = image_size

@ gnome.utilities.projections.GeoProjection.to_pixel
def to_pixel(self, coords, asint=False):
    coords = to_2d_coords(coords)
    coords = coords - self.center
    coords *= self.scale
    coords += self.offset
    if asint:
        return np.floor(coords, coords).astype(np.int32)
    else:
        return coords

@ gnome.utilities.projections.GeoProjection.to_pixel_2D
def to_pixel_2D(self, coords, asint=False):
    raise NotImplementedError()

@ gnome.utilities.projections.GeoProjection.to_pixel_multipoint
def to_pixel_multipoint(self, coords, asint=False):
    coords = coords - self.center
    coords *= self.scale
    coords += self.offset
    if asint:
        return np.floor(coords, coords).astype(np.int32)
    else:
        return coords

@ gnome.utilities.projections.GeoProjection.to_lonlat
def to_lonlat(self, coords):
    coords = np.array(coords)
    if np.issubdtype(coords.dtype, np.integer):
        coords = coords.astype(np.float64)
        coords += 0.5
    coords -= self.offset
    coords /= self.scale
    coords += self.center
    return coords

@ gnome.utilities.projections.FlatEarthProjection.meters_to_lonlat
def meters_to_lonlat(meters, ref_positions):
    delta_lon_lat = np.array(meters, dtype=np.float64)
    if len(delta_lon_lat.shape) == 1:
        if delta_lon_lat.shape[0] == 2:
            delta_lon_lat = delta_lon_lat.reshape(1, 2)
        else:
            delta_lon_lat = delta_lon_lat.reshape(1, 3)
    ref_positions = np.asarray(ref_positions, dtype=np.float64)
    if len(ref_positions.shape) == 1:
        if ref_positions.shape[0] == 2:
            ref_positions = ref_positions.reshape(1, 2)
        else:
            ref_positions = ref_positions.reshape(1, 3)
    delta_lon_lat[:, :2] *= 8.9992801e-06
    delta_lon_lat[:, 0] /= np.cos(np.deg2rad(ref_positions[:, 1]))
    return delta_lon_lat

@ gnome.utilities.projections.FlatEarthProjection.lonlat_to_meters
def lonlat_to_meters(lon_lat, ref_positions):
    delta_meters = np.array(lon_lat, dtype=np.float64).reshape(-1, 3)
    ref_positions = np.asarray(ref_positions, dtype=np.float64).reshape(-1, 3)
    delta_meters[:, :2] /= 8.9992801e-06
    delta_meters[:, 0] *= np.cos(np.deg2rad(ref_positions[:, 1]))
    return delta_meters

@ gnome.utilities.projections.FlatEarthProjection.geodesic_sphere
def geodesic_sphere(lon, lat, distance, bearing):
    EarthRadius = 6366706.989
    lat = np.deg2rad(lat)
    lon = np.deg2rad(lon)
    bearing = np.deg2rad(bearing)
    distance = distance / EarthRadius
    latout = np.arcsin(np.sin(lat) * np.cos(distance) + np.cos(lat) * np.sin(distance) * np.cos(bearing))
    lonout = lon + np.arctan2(np.sin(bearing) * np.sin(distance) * np.cos(lat), np.cos(distance) - np.sin(lat) * np.sin(latout))
    lonout = np.rad2deg(lonout)
    latout = np.rad2deg(latout)
    return (lonout, latout)

@ gnome.utilities.projections.FlatEarthProjection.set_scale
def set_scale(self, bounding_box, image_size=None):
    if image_size is None:
        image_size = self.image_size
    bb = np.asarray(bounding_box, dtype=np.float64)
    self.center = np.mean(bb, axis=0)
    self.offset = np.array(image_size, dtype=np.float64) / 2.0
    lon_scale = np.cos(np.deg2rad(self.center[1]))
    h = bb[1, 1] - bb[0, 1]
    w = (bb[1, 0] - bb[0, 0]) * lon_scale
    if w / h > image_size[0] / image_size[1]:
        s = image_size[0] / w
        self.scale = (s * lon_scale, -s)
    else:
        s = image_size[1] / h
        self.scale = (s * lon_scale, -s)
    self.image_box = (self.to_lonlat((0, image_size[1])), self.to_lonlat((image_size[0], 0)))
    self.image_size = image_size

@ gnome.utilities.projections.RectangularGridProjection.__init__
def __init__(self, longitude, latitude):
    import scipy.interpolate
    latitude = np.array(latitude, dtype=np.float64)
    longitude = np.array(longitude, dtype=np.float64)
    self.max_lat_index = len(latitude) - 1
    self.max_lon_index = len(longitude) - 1
    self.min_lon = longitude.min()
    self.max_lon = longitude.max()
    self.min_lat = latitude.min()
    self.max_lat = latitude.max()
    self._lon_to_pixel_interp = scipy.interpolate.interp1d(longitude, np.arange(len(longitude)), kind='linear', copy=True, bounds_error=False, fill_value=None)
    self._lat_to_pixel_interp = scipy.interpolate.interp1d(latitude, np.arange(len(latitude)), kind='linear', copy=True, bounds_error=False, fill_value=None)
    self._pixel_to_lon_interp = scipy.interpolate.interp1d(np.arange(len(longitude)), longitude, kind='linear', copy=True, bounds_error=False, fill_value=None)
    self._pixel_to_lat_interp = scipy.interpolate.interp1d(np.arange(len(latitude)), latitude, kind='linear', copy=True, bounds_error=False, fill_value=None)

@ gnome.utilities.projections.RectangularGridProjection.set_scale
def set_scale(self, bounding_box, image_size=None):
    raise NotImplementedError()

@ gnome.utilities.projections.RectangularGridProjection.to_pixel
def to_pixel(self, coords, asint=False):
    coords = to_2d_coords(coords)
    coords = np.array(coords, dtype=np.float64)
    pixel_coords = np.zeros_like(coords, dtype=np.float64)
    np.putmask(coords, coords < (self.min_lon, self.min_lat), (self.min_lon, self.min_lat))
    np.putmask(coords, coords > (self.max_lon, self.max_lat), (self.max_lon, self.max_lat))
    np.clip(coords, (self.min_lon, self.min_lat), (self.max_lon, self.max_lat), out=coords)
    pixel_coords[:, 0] = self._lon_to_pixel_interp(coords[:, 0])
    pixel_coords[:, 1] = self.max_lat_index - self._lat_to_pixel_interp(coords[:, 1])
    if asint:
        pixel_coords = np.floor(pixel_coords, pixel_coords).astype(np.int32)
    return pixel_coords

@ gnome.utilities.projections.RectangularGridProjection.to_pixel_2D
def to_pixel_2D(self, coords, asint=False):
    raise NotImplementedError

@ gnome.utilities.projections.RectangularGridProjection.to_lonlat
def to_lonlat(self, coords):
    coords = to_2d_coords(coords)
    if np.issubdtype(coords.dtype, np.integer):
        coords = coords.astype(np.float64)
        coords += 0.5
    coords = np.clip(coords, (0, 0), (self.max_lon_index, self.max_lat_index))
    lon = self._pixel_to_lon_interp(coords[:, 0])
    lat = self._pixel_to_lat_interp(self.max_lat_index - coords[:, 1])
    return np.c_[lon, lat]

@ gnome.utilities.projections.RegularGridProjection.set_scale
def set_scale(self, bounding_box, image_size=None):
    if image_size is None:
        image_size = self.image_size
    bounding_box = np.asarray(bounding_box, dtype=np.float64)
    self.center = np.mean(bounding_box, axis=0)
    self.offset = np.array(image_size, dtype=np.float64) / 2
    h = bounding_box[1, 1] - bounding_box[0, 1]
    w = bounding_box[1, 0] - bounding_box[0, 0]
    self.scale = (image_size[0] / w, -image_size[1] / h)
    self.image_box = bounding_box
    self.image_size = image_size

## R2 bounding boxes, polygons and orientation tests compute what they are named after
@ gnome.utilities.geometry.BBox.BBox.__new__
def __new__(subtype, data):
    arr = np.array(data, np.float64)
    arr.shape = (2, 2)
    if arr[0, 0] > arr[1, 0] or arr[0, 1] > arr[1, 1]:
        raise ValueError()
    return np.ndarray.__new__(BBox, shape=arr.shape, dtype=arr.dtype, buffer=arr)

@ gnome.utilities.geometry.BBox.BBox.Overlaps
def Overlaps(self, BB):
    if np.isinf(self).all() or np.isinf(BB).all():
        return True
    if self[1, 0] >= BB[0, 0] and self[0, 0] <= BB[1, 0] and (self[1, 1] >= BB[0, 1]) and (self[0, 1] <= BB[1, 1]):
        return True
    else:
        return False

@ gnome.utilities.geometry.BBox.BBox.Inside
def Inside(self, BB):
    if BB[0, 0] >= self[0, 0] and BB[1, 0] <= self[1, 0] and (BB[0, 1] >= self[0, 1]) and (BB[1, 1] <= self[1, 1]):
        return True
    else:
        return False

@ gnome.utilities.geometry.BBox.BBox.PointInside
def PointInside(self, Point):
    if Point[0] >= self[0, 0] and Point[0] <= self[1, 0] and (Point[1] <= self[1, 1]) and (Point[1] >= self[0, 1]):
        return True
    else:
        return False

@ gnome.utilities.geometry.BBox.BBox.Merge
def Merge(self, BB):
    if self.IsNull():
        self[:] = BB
    elif np.isnan(BB).all():
        pass
    else:
        if BB[0, 0] < self[0, 0]:
            self[0, 0] = BB[0, 0]
        if BB[0, 1] < self[0, 1]:
            self[0, 1] = BB[0, 1]
        if BB[1, 0] > self[1, 0]:
            self[1, 0] = BB[1, 0]
        if BB[1, 1] > self[1, 1]:
            self[1, 1] = BB[1, 1]
    return None

@ gnome.utilities.geometry.BBox.BBox.AsPoly
def AsPoly(self):
    return np.array(((self[0, 0], self[0, 1]), (self[0, 0], self[1, 1]), (self[1, 0], self[1, 1]), (self[1, 0], self[0, 1])), dtype=np.float64)

@ gnome.utilities.geometry.BBox.BBox.IsNull
def IsNull(self):
    return np.isnan(self).all()

@ gnome.utilities.geometry.BBox.BBox._getLeft
def _getLeft(self):
    return self[0, 0]

@ gnome.utilities.geometry.BBox.BBox._getRight
def _getRight(self):
    return self[1, 0]

@ gnome.utilities.geometry.BBox.BBox._getBottom
def _getBottom(self):
    return self[0, 1]

@ gnome.utilities.geometry.BBox.BBox._getTop
def _getTop(self):
    return self[1, 1]

@ gnome.utilities.geometry.BBox.BBox._getWidth
def _getWidth(self):
    return self[1, 0] - self[0, 0]

@ gnome.utilities.geometry.BBox.BBox._getHeight
def _getHeight(self):
    return self[1, 1] - self[0, 1]

@ gnome.utilities.geometry.BBox.BBox._getCenter
def _getCenter(self):
    return self.sum(0) / 2.0

@ gnome.utilities.geometry.BBox.BBox.__eq__
def __eq__(self, BB):
    if self.IsNull() and np.isnan(BB).all():
        return True
    else:
        return self.Array__eq__(BB).all()

@ func gnome.utilities.geometry.BBox.asBBox
def asBBox(data):
    if isinstance(data, BBox):
        return data
    arr = np.asarray(data, np.float64)
    return np.ndarray.__new__(BBox, shape=arr.shape, dtype=arr.dtype, buffer=arr)

@ func gnome.utilities.geometry.BBox.fromPoints
def fromPoints(Points):
    Points = np.asarray(Points, np.float64).reshape(-1, 2)
    arr = np.vstack((Points.min(0), Points.max(0)))
    return np.ndarray.__new__(BBox, shape=arr.shape, dtype=arr.dtype, buffer=arr)

@ func gnome.utilities.geometry.BBox.fromBBArray
def fromBBArray(BBarray):
    BBarray = np.asarray(BBarray, np.float64).reshape(-1, 2, 2)
    arr = np.vstack((BBarray[:, 0, :].min(0), BBarray[:, 1, :].max(0)))
    return asBBox(arr)

@ func gnome.utilities.geometry.BBox.NullBBox
def NullBBox():
    arr = np.array(((np.nan, np.nan), (np.nan, np.nan)), np.float64)
    return np.ndarray.__new__(BBox, shape=arr.shape, dtype=arr.dtype, buffer=arr)

@ func gnome.utilities.geometry.BBox.InfBBox
def InfBBox():
    arr = np.array(((-np.inf, -np.inf), (np.inf, np.inf)), np.float64)
    return np.ndarray.__new__(BBox, shape=arr.shape, dtype=arr.dtype, buffer=arr)

@ func gnome.utilities.geometry.PinP.points_in_poly
def points_in_poly(pgon, points):
    points = np.asarray(points, dtype=np.float64)
    scalar = len(points.shape) == 1
    points = points.reshape((-1, 3))
    result = np.zeros((points.shape[0],), dtype=bool)
    for i, point in enumerate(points):
        result[i] = CrossingsTest(pgon, point[:2])
    if scalar:
        return bool(result[0])
    else:
        return result

@ func gnome.utilities.geometry.PinP.CrossingsTest
def CrossingsTest(pgon, xxx_todo_changeme):
    tx, ty = xxx_todo_changeme
    pgon = np.asarray(pgon).reshape((-1, 2))
    if pgon[0, 0] == pgon[-1, 0] and pgon[0, 1] == pgon[-1, 1]:
        numverts = len(pgon) - 1
    else:
        numverts = len(pgon)
    vtx0 = pgon[numverts - 1]
    yflag0 = vtx0[1] >= ty
    vtx1 = pgon[0]
    inside_flag = False
    for j in range(numverts):
        vtx1 = pgon[j]
        yflag1 = vtx1[1] >= ty
        if yflag0 != yflag1:
            xflag0 = vtx0[0] >= tx
            if xflag0 == (vtx1[0] >= tx):
                if xflag0:
                    inside_flag = not inside_flag
            elif vtx1[0] - (vtx1[1] - ty) * (vtx0[0] - vtx1[0]) / (vtx0[1] - vtx1[1]) >= tx:
                inside_flag = not inside_flag
        yflag0 = yflag1
        vtx0 = vtx1
    return inside_flag

@ func gnome.utilities.geometry.poly_clockwise.is_clockwise
def is_clockwise(poly):
    total = poly[-1][0] * poly[0][1] - poly[0][0] * poly[-1][1]
    for i in range(len(poly) - 1):
        total += poly[i][0] * poly[i + 1][1] - poly[i + 1][0] * poly[i][1]
    if total <= 0:
        return True
    else:
        return False

@ func gnome.utilities.geometry.poly_clockwise.is_clockwise_convex
def is_clockwise_convex(poly):
    x0 = poly[0][0]
    y0 = poly[0][1]
    x1 = poly[1][0]
    y1 = poly[1][1]
    x2 = poly[2][0]
    y2 = poly[2][1]
    cp = (x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1)
    if cp <= 0:
        return True
    else:
        return False

@ gnome.utilities.geometry.polygons.Polygon.__new__
def __new__(Polygon, points, metadata=None, copy=True, dtype=np.float64):
    arr = np.array(points, dtype, copy=copy)
    arr.shape = (-1, 2)
    arr = arr.view(Polygon)
    if metadata is not None:
        arr.metadata = metadata
    else:
        arr.metadata = getattr(points, 'metadata', {})
    return arr

@ gnome.utilities.geometry.polygons.Polygon.__array_finalize__
def __array_finalize__(self, obj):
    if obj is None:
        return
    self.metadata = getattr(obj, 'metadata', {})

@ gnome.utilities.geometry.polygons.Polygon.__array_wrap__
def __array_wrap__(self, out_arr, context=None, return_scalar=False):
    return np.ndarray.__array_wrap__(self, out_arr, context, return_scalar)

@ gnome.utilities.geometry.polygons.Polygon.__getitem__
def __getitem__(self, index):
    if type(index) is slice:
        return Polygon(np.ndarray.__getitem__(self, index), self.metadata)
    return np.asarray(np.ndarray.__getitem__(self, index))

@ gnome.utilities.geometry.polygons.Polygon.__eq__
def __eq__(self, other):
    if not isinstance(other, Polygon):
        return False
    else:
        return np.array_equal(self, other) and self.metadata == other.metadata

@ gnome.utilities.geometry.polygons.Polygon.__ne__
def __ne__(self, other):
    return False if self == other else True

@ getter gnome.utilities.geometry.polygons.Polygon.points
def points(self):
    return np.asarray(self)

@ getter gnome.utilities.geometry.polygons.Polygon.bounding_box
def bounding_box(self):
    return BBox.fromPoints(self)

@ gnome.utilities.geometry.polygons.Polygon._scaling_fun
def _scaling_fun(arr, scale):
    arr *= scale
    np.round(arr, out=arr)
    return arr

@ gnome.utilities.geometry.polygons.Polygon.thin
def thin(self, scale):
    scale = np.asarray(scale, dtype=np.float64)
    orig_poly = self
    sc_poly = self._scaling_fun(np.array(self), scale)
    prev_point = np.asarray(sc_poly[0])
    last_same = 1 if np.array_equal(orig_poly[0], orig_poly[-1]) else 0
    thinned = [orig_poly[0]]
    for j in range(len(sc_poly) - last_same):
        point = sc_poly[j]
        if not np.array_equal(point, prev_point):
            thinned.append(orig_poly[j])
        prev_point = point
    if len(thinned) > 1:
        if last_same:
            thinned.append(orig_poly[0])
        return Polygon(thinned, metadata=orig_poly.metadata)
    else:
        return Polygon((), metadata=orig_poly.metadata)

@ gnome.utilities.geometry.polygons.PolygonSet.__init__
def __init__(self, data=None, dtype=np.float64):
    self.dtype = dtype
    if data is None:
        self._PointsArray = np.zeros((0, 2), self.dtype)
        self._IndexArray = np.array((0,), dtype=np.int32)
        self._MetaDataList = []
    else:
        self._PointsArray = np.array(data[0])
        self._IndexArray = np.array(data[1])
        self._MetaDataList = list(data[2])

@ gnome.utilities.geometry.polygons.PolygonSet.append
def append(self, polygon, metadata=None):
    if metadata is None:
        metadata = getattr(polygon, 'metadata', {})
    polygon = np.asarray(polygon, dtype=self.dtype).reshape((-1, 2))
    old_length = self._PointsArray.shape[0]
    added_length = polygon.shape[0]
    self._PointsArray.resize((old_length + added_length, 2), refcheck=False)
    self._PointsArray[-added_length:, :] = polygon
    self._IndexArray.resize(self._IndexArray.shape[0] + 1, refcheck=False)
    self._IndexArray[-1] = self._PointsArray.shape[0]
    self._MetaDataList.append(metadata)

@ gnome.utilities.geometry.polygons.PolygonSet._get_bounding_box
def _get_bounding_box(self):
    if len(self._PointsArray) > 0:
        return BBox.fromPoints(self._PointsArray)
    else:
        return None

@ gnome.utilities.geometry.polygons.PolygonSet._get_total_num_points
def _get_total_num_points(self):
    return len(self._PointsArray)

@ gnome.utilities.geometry.polygons.PolygonSet.GetPointsData
def GetPointsData(self):
    return (self._PointsArray.copy(), self._IndexArray.copy())

@ gnome.utilities.geometry.polygons.PolygonSet.GetMetaData
def GetMetaData(self):
    return copy.copy(self._MetaDataList)

@ gnome.utilities.geometry.polygons.PolygonSet.SetPointsData
def SetPointsData(self, PointData, MetaData=None):
    self._PointsArray = np.array(PointData[0], self.dtype)
    self._IndexArray = np.array(PointData[1], dtype=np.int32)
    if MetaData is not None:
        self._MetaDataList = list(MetaData)
    else:
        self._MetaDataList = [None] * len(self)

@ gnome.utilities.geometry.polygons.PolygonSet.Copy
def Copy(self):
    cp = PolygonSet()
    cp._PointsArray = self._PointsArray.copy()
    cp._IndexArray = self._IndexArray.copy()
    cp._MetaDataList = copy.deepcopy(self._MetaDataList)
    return cp

@ gnome.utilities.geometry.polygons.PolygonSet.TransformData
def TransformData(self, TransformFunction, args=(), kwargs={}):
    self._PointsArray = TransformFunction(self._PointsArray, *args, **kwargs)

@ gnome.utilities.geometry.polygons.PolygonSet.__len__
def __len__(self):
    return len(self._IndexArray) - 1

@ gnome.utilities.geometry.polygons.PolygonSet.__iter__
def __iter__(self):
    for i in range(0, len(self._IndexArray) - 1):
        yield self[i]

@ gnome.utilities.geometry.polygons.PolygonSet.__bool__
def __bool__(self):
    return bool(len(self))

@ gnome.utilities.geometry.polygons.PolygonSet.__getitem__
def __getitem__(self, index):
    if index > len(self._IndexArray) - 1:
        raise IndexError
    if index < 0:
        if index < -(len(self._IndexArray) - 1):
            raise IndexError
        index = len(self._IndexArray) - 1 + index
    poly = Polygon(self._PointsArray[self._IndexArray[index]:self._IndexArray[index + 1]], metadata=self._MetaDataList[index], dtype=self.dtype)
    return poly

@ gnome.utilities.geometry.polygons.PolygonSet.__eq__
def __eq__(self, other):
    if not isinstance(other, PolygonSet):
        return False
    else:
        return np.array_equal(self._PointsArray, other._PointsArray) and np.array_equal(self._IndexArray, other._IndexArray) and (self._MetaDataList == other._MetaDataList)

@ gnome.utilities.geometry.polygons.PolygonSet.__ne__
def __ne__(self, other):
    return False if self == other else True

@ gnome.utilities.geometry.polygons.PolygonSet.thin
def thin(self, scale):
    new_polys = PolygonSet()
    for poly in self:
        poly = poly.thin(scale)
        if len(poly):
            new_polys.append(poly)
    return new_polys

@ func gnome.utilities.geometry.geo_routines.check_valid_polygon
def check_valid_polygon(poly):
    if isinstance(poly, MultiPolygon):
        for p in poly.geoms:
            for point in p.exterior.coords:
                assert -360 < point[0] < 360
                assert -90 < point[1] < 90
    else:
        for point in poly.exterior.coords:
            assert -360 < point[0] < 360
            assert -90 < point[1] < 90

@ func gnome.utilities.geometry.geo_routines.geo_area_of_polygon
def geo_area_of_polygon(poly):
    if isinstance(poly, (geojson.MultiPolygon, geojson.Polygon)):
        poly = shape(poly)
    return abs(geod.geometry_area_perimeter(poly)[0])

@ func gnome.utilities.geometry.geo_routines.triangulate_poly
def triangulate_poly(poly):
    if isinstance(poly, (geojson.MultiPolygon, geojson.Polygon)):
        poly = shape(poly)
    retval = []
    if isinstance(poly, MultiPolygon):
        for p in poly.geoms:
            pts, tris = trimesh.creation.triangulate_polygon(p, engine='earcut')
            retval = retval + [Polygon(k) for k in pts[tris]]
    else:
        pts, tris = trimesh.creation.triangulate_polygon(poly, engine='earcut')
        retval = [Polygon(k) for k in pts[tris]]
    return retval

@ func gnome.utilities.geometry.geo_routines.poly_area_weight
def poly_area_weight(polys, geo_area=False):
    areas = None
    if geo_area:
        areas = [geo_area_of_polygon(p) for p in polys]
    else:
        areas = [p.area for p in polys]
    t_area = sum(areas)
    weights = [s / t_area for s in areas]
    return weights

@ func gnome.utilities.geometry.geo_routines.mixed_polys_to_polygon
def mixed_polys_to_polygon(polys):
    rv = []
    for p in polys:
        p = shape(p)
        if isinstance(p, MultiPolygon):
            for subp in p.geoms:
                rv.append(subp)
        else:
            rv.append(p)
    return rv

@ func gnome.utilities.geometry.geo_routines.random_pt_in_tri
def random_pt_in_tri(tri):
    coords = None
    if isinstance(tri, Polygon):
        coords = tri.exterior.coords
    else:
        coords = tri
    coords = np.array(coords)
    R = random.random()
    S = random.random()
    if R + S >= 1:
        R = 1 - R
        S = 1 - S
    A = coords[0]
    AB = coords[1] - coords[0]
    AC = coords[2] - coords[0]
    RPP = A + R * AB + S * AC
    return RPP

@ func gnome.utilities.geometry.geo_routines.load_shapefile
def load_shapefile(filename, transform_crs=True):
    with zipfile.ZipFile(filename, 'r') as zipper:
        shapefiles = [f for f in zipper.namelist() if f.split('.')[-1] == 'shp' and 'point' not in f.lower()]
        if not shapefiles:
            raise ValueError()
        if len(shapefiles) > 1:
            pass
        shapefile = gpd.read_file(f'zip://{str(filename)}!{shapefiles[0]}', engine='pyogrio')
        if transform_crs:
            shapefile = shapefile.to_crs('epsg:4326')
        shapefile_json = geojson.loads(shapefile.to_json())
        shapefile_json['bbox'] = list(shapefile.total_bounds)
        return shapefile_json

## R3 BNA files are read completely and malformed ones refused
@ func gnome.utilities.file_tools.haz_files.GetNextBNAPolygon
def GetNextBNAPolygon(f, dtype=np.float64):
    while True:
        header = f.readline()
        if not header:
            return None
        if header.strip():
            break
        else:
            continue
    try:
        fields = header.split('"')
        name = fields[1]
        sname = fields[3]
        num_points = int(fields[4].strip()[1:])
    except (ValueError, IndexError):
        raise ValueError()
    if num_points < 0 or num_points == 2:
        poly_type = 'polyline'
        num_points = abs(num_points)
    elif num_points == 1:
        poly_type = 'point'
    elif num_points > 2:
        poly_type = 'polygon'
    else:
        raise ValueError()
    if True:
        points = np.zeros((num_points, 2), dtype)
        for i in range(num_points):
            line = f.readline()
            if not line:
                raise ValueError()
            try:
                points[i, :] = [float(j) for j in line.split(',')]
            except ValueError as err:
                raise ValueError() from err
    if poly_type == 'polygon':
        if points[0, 0] == points[-1, 0] and points[0, 1] == points[-1, 1]:
            points = points[0:-1]
    return (points, poly_type, name, sname)

@ func gnome.utilities.file_tools.haz_files.ReadBNA
def ReadBNA(filename, polytype='list', dtype=np.float64):
    fd = open(filename, 'r')
    if polytype == 'list':
        Output = []
        while True:
            poly = GetNextBNAPolygon(fd, dtype=dtype)
            if poly is None:
                break
            Output.append(poly)
    elif polytype == 'PolygonSet':
        Output = polygons.PolygonSet(dtype=dtype)
        while True:
            poly = GetNextBNAPolygon(fd)
            if poly is None:
                break
            Output.append(poly[0], poly[1:])
    elif polytype == 'BNADataClass':
        raise TypeError()
    else:
        raise ValueError()
    fd.close()
    return Output

## R4 hulls, contours and surface concentrations are computed per spill from the elements
@ func gnome.utilities.hull.buffer_hull
def buffer_hull(this_hull, buffer_distance=1):
    schema = {'geometry': [this_hull]}
    geodataframe = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='geometry')
    geodataframe_3857 = geodataframe.to_crs(epsg=3857)
    geodataframe_3857_buffered = geodataframe_3857.buffer(buffer_distance)
    geodataframe_3857_buffered_back_to_4326 = geodataframe_3857_buffered.to_crs(epsg=4326)
    return geodataframe_3857_buffered_back_to_4326[0]

@ func gnome.utilities.hull.calculate_hull
def calculate_hull(spill_container, ratio=0.5, union_results=True, allow_holes=False, separate_by_spill=False):
    hulls_found = {'hulls': [], 'spill_num': []}
    sc_positions = None
    sc_spill_num = None
    if isinstance(spill_container, (tuple, list)):
        positions = []
        spill_num = []
        for sc in spill_container:
            positions.append(sc['positions'])
            spill_num.append(sc['spill_num'])
        sc_positions = np.concatenate(positions)
        sc_spill_num = np.concatenate(spill_num)
    else:
        sc_positions = spill_container['positions']
        sc_spill_num = spill_container['spill_num']
    if len(sc_positions) == 0:
        return hulls_found
    if separate_by_spill:
        schema = {'positions': [Point(point) for point in sc_positions], 'spill_num': sc_spill_num}
        data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='positions')
        spill_nums = data_frame['spill_num'].unique()
        for spill_num in spill_nums:
            this_spill = data_frame[data_frame['spill_num'] == spill_num]
            this_mpt = MultiPoint([Point(point) for point in this_spill['positions']])
            this_hull = concave_hull(this_mpt, ratio=ratio, allow_holes=allow_holes)
            if isinstance(this_hull, Point) or isinstance(this_hull, LineString):
                this_hull = buffer_hull(this_hull)
            if isinstance(this_hull, Polygon) or isinstance(this_hull, MultiPolygon):
                hulls_found['hulls'].append(this_hull)
                hulls_found['spill_num'].append(spill_num)
    else:
        schema = {'positions': [Point(point) for point in sc_positions]}
        data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326')
        this_mpt = MultiPoint([Point(point) for point in sc_positions])
        this_hull = concave_hull(this_mpt, ratio=ratio, allow_holes=allow_holes)
        if isinstance(this_hull, Point) or isinstance(this_hull, LineString):
            this_hull = buffer_hull(this_hull)
        if isinstance(this_hull, Polygon) or isinstance(this_hull, MultiPolygon):
            hulls_found['hulls'].append(this_hull)
            hulls_found['spill_num'].append(None)
    if union_results:
        hulls_found['hulls'] = [union_all(hulls_found['hulls'])]
        hulls_found['spill_num'] = [None]
    return hulls_found

@ func gnome.utilities.hull.calculate_contours
def calculate_contours(spill_container, cutoff_struct=None, ratio=0.5, allow_holes=False):
    contours_found = []
    if not cutoff_struct or len(spill_container['positions']) == 0:
        return []
    spills = cutoff_struct.keys()
    schema = {'positions': [Point(point) for point in spill_container['positions']], 'spill_num': spill_container['spill_num'], 'mass': spill_container['mass'], 'age': spill_container['age'], 'status_codes': spill_container['status_codes']}
    if 'surface_concentration' in spill_container:
        schema['surf_conc'] = spill_container['surface_concentration']
    if 'viscosity' in spill_container:
        schema['viscosity'] = spill_container['viscosity']
    if 'frac_water' in spill_container:
        schema['frac_water'] = spill_container['frac_water']
    if 'density' in spill_container:
        schema['density'] = spill_container['density']
    data_frame = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='positions')
    for spill_num in spills:
        this_spill = data_frame[data_frame['spill_num'] == spill_num]
        this_struct = cutoff_struct[spill_num]
        param = this_struct['param']
        for idx, cutoff in enumerate(this_struct['cutoffs']):
            if idx == 0:
                this_contour_set = this_spill[this_spill[param] <= cutoff['cutoff']]
            elif idx == len(this_struct['cutoffs']) - 1:
                this_contour_set = this_spill[this_spill[param] >= this_struct['cutoffs'][idx - 1]['cutoff']]
            else:
                this_contour_set = this_spill[this_spill[param] <= cutoff['cutoff']]
                this_contour_set = this_contour_set[this_contour_set[param] >= this_struct['cutoffs'][idx - 1]['cutoff']]
            if len(this_contour_set['positions']) > 0:
                this_contour_mpt = MultiPoint([Point(point) for point in this_contour_set['positions']])
                this_hull = concave_hull(this_contour_mpt, ratio=ratio, allow_holes=allow_holes)
                if isinstance(this_hull, Point) or isinstance(this_hull, LineString):
                    this_hull = buffer_hull(this_hull)
                if isinstance(this_hull, Polygon) or isinstance(this_hull, MultiPolygon):
                    contours_found.append({'spill_num': spill_num, 'cutoff': cutoff['cutoff'], 'cutoff_id': cutoff['cutoff_id'], 'color': cutoff['color'], 'label': cutoff['label'], 'contour': this_hull})
    return contours_found

@ func gnome.utilities.surface_concentration.compute_surface_concentration
def compute_surface_concentration(sc, algorithm):
    if sc['positions'].shape[0] == 0 or not algorithm:
        return
    if algorithm == 'kde':
        surface_conc_kde(sc)
    else:
        raise ValueError()

@ func gnome.utilities.surface_concentration.surface_conc_kde
def surface_conc_kde(sc):
    spill_num = sc['spill_num']
    sc['surface_concentration'] = np.zeros(spill_num.shape[0])
    for s in np.unique(spill_num):
        sid = np.where(spill_num == s)
        positions = sc['positions'][sid]
        mass = sc['mass'][sid]
        age = sc['age'][sid]
        c = np.zeros(positions.shape[0])
        lon = positions[:, 0]
        lat = positions[:, 1]
        bin_length = 1 * 3600
        t = age.min()
        max_age = age.max()
        while t <= max_age:
            id = np.where(age < t + bin_length)[0]
            lon_for_kernel = lon[id]
            lat_for_kernel = lat[id]
            age_for_kernel = age[id]
            mass_for_kernel = mass[id]
            id_bin = np.where(age_for_kernel >= t)[0]
            if len(np.unique(lat_for_kernel)) > 2 and len(np.unique(lon_for_kernel)) > 2:
                try:
                    lon0, lat0 = (min(lon_for_kernel), min(lat_for_kernel))
                    x = (lon_for_kernel - lon0) * 111325 * np.cos(lat0 * np.pi / 180)
                    y = (lat_for_kernel - lat0) * 111325
                    xy = np.vstack([x, y])
                    if len(np.unique(mass_for_kernel)) > 1:
                        kernel = gaussian_kde(xy, weights=mass_for_kernel / mass_for_kernel.sum())
                    else:
                        kernel = gaussian_kde(xy)
                    if mass_for_kernel.sum() > 0:
                        c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                    else:
                        c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
                except np.linalg.LinAlgError:
                    pass
            t = t + bin_length
        sc['surface_concentration'][sid] = c

@ func gnome.utilities.shapefile_builder.area_in_meters
def area_in_meters(this_hull):
    schema = {'geometry': [this_hull]}
    geodataframe = gpd.GeoDataFrame(schema, crs='epsg:4326', geometry='geometry')
    geodataframe_3857 = geodataframe.to_crs(epsg=3857)
    return geodataframe_3857.area[0]

@ gnome.utilities.shapefile_builder.ContourShapefileBuilder.__init__
def __init__(self, filename, zip_output=True, timeoffset=None, **kwargs):
    super(ContourShapefileBuilder, self).__init__(filename, zip_output, timeoffset, **kwargs)

@ gnome.utilities.shapefile_builder.ContourShapefileBuilder.append
def append(self, sc, cutoff_struct=None, hull_ratio=0.5, hull_allow_holes=False):
    super(ContourShapefileBuilder, self).append(sc)
    current_time_stamp = None
    if isinstance(sc, (tuple, list)):
        current_time_stamp = sc[0].current_time_stamp
    else:
        current_time_stamp = sc.current_time_stamp
    current_datetime_utc = None
    if self.timeoffset is not None:
        current_timezone_by_offset = datetime.timezone(datetime.timedelta(minutes=int(self.timeoffset * 60)))
        current_datetime_with_offset = current_time_stamp.replace(tzinfo=current_timezone_by_offset)
        current_datetime_utc = current_datetime_with_offset.astimezone(datetime.timezone.utc).isoformat()
    contours = calculate_contours(sc, cutoff_struct=cutoff_struct, ratio=hull_ratio, allow_holes=hull_allow_holes)
    if contours:
        frame_data = {'geometry': [c['contour'] for c in contours], 'spill_num': [c['spill_num'] for c in contours], 'cutoff': [c['cutoff'] for c in contours], 'cutoff_id': [c['cutoff_id'] for c in contours], 'color': [c['color'] for c in contours], 'label': [c['label'] for c in contours], 'time': current_time_stamp.strftime('%Y-%m-%dT%H:%M:%S')}
        if current_datetime_utc is not None:
            frame_data['time_utc'] = current_datetime_utc
        gdf = gpd.GeoDataFrame(frame_data, crs='epsg:4326', geometry='geometry')
        self.data_frames.append(gdf)

@ gnome.utilities.shapefile_builder.ContourShapefileBuilder.write
def write(self):
    if not self.data_frames:
        self.geometry_type = 'Polygon'
    super(ContourShapefileBuilder, self).write()

## R5 the canvas draws on the image asked for, through the projection of its viewport
@ gnome.utilities.map_canvas.MapCanvas.__init__
def __init__(self, image_size=(800, 600), projection=None, viewport=None, preset_colors='BW', background_color='transparent', colordepth=8, **kwargs):
    projection = FlatEarthProjection() if projection is None else projection
    self._image_size = image_size
    if colordepth != 8:
        raise NotImplementedError()
    self.background_color = background_color
    self.create_images(preset_colors)
    self.projection = projection
    self._viewport = Viewport(((-180, -90), (180, 90)))
    if viewport is not None:
        self._viewport.BB = tuple(map(tuple, viewport))
    self.projection.set_scale(self.viewport, self.image_size)
    self.graticule = GridLines(self._viewport, self.projection)
    super(MapCanvas, self).__init__()

@ gnome.utilities.map_canvas.MapCanvas.viewport_to_dict
def viewport_to_dict(self):
    return list(map(tuple, self._viewport.BB))

@ getter gnome.utilities.map_canvas.MapCanvas.viewport
def viewport(self):
    return self._viewport.BB

@ setter gnome.utilities.map_canvas.MapCanvas.viewport
def viewport(self, BB):
    self._viewport.BB = BB if BB is not None else self.viewport
    self.rescale()

@ gnome.utilities.map_canvas.MapCanvas.set_viewport
def set_viewport(self, BB=None, center=None, width=None, height=None):
    if BB is None:
        self._viewport.center = center
        distances = self.projection.meters_to_lonlat((width, height, 0), (center[0], center[1], 0))
        self._viewport.width = distances[0][0]
        self._viewport.height = distances[0][1]
    else:
        self._viewport.BB = BB
    self.rescale()

@ gnome.utilities.map_canvas.MapCanvas.zoom
def zoom(self, multiplier):
    self._viewport.scale(multiplier)
    self.rescale()

@ gnome.utilities.map_canvas.MapCanvas.shift_viewport
def shift_viewport(self, delta):
    self._viewport.center = (self._viewport.center[0] + delta[0], self._viewport.center[1] + delta[1])
    self.rescale()

@ gnome.utilities.map_canvas.MapCanvas.rescale
def rescale(self):
    self.projection.set_scale(self.viewport, self.image_size)
    self.graticule.refresh_scale()
    self.clear_background()
    self.draw_background()

@ getter gnome.utilities.map_canvas.MapCanvas.image_size
def image_size(self):
    return self._image_size

@ gnome.utilities.map_canvas.MapCanvas.add_colors
def add_colors(self, color_list):
    self.fore_image.add_colors(color_list)
    self.back_image.add_colors(color_list)

@ gnome.utilities.map_canvas.MapCanvas.add_color_ramp
def add_color_ramp(self, color_scheme, min_val, max_val):
    existing_colors = self.fore_image.get_color_names()
    try:
        cr = py_gd.color_ramp.ColorRamp(color_scheme, min_val, max_val, base_colorscheme=len(existing_colors))
    except KeyError:
        raise ValueError()
    self.fore_image.add_colors(cr.colorlist)
    self.back_image.add_colors(cr.colorlist)
    self._color_ramp = cr

@ gnome.utilities.map_canvas.MapCanvas.get_color_names
def get_color_names(self):
    return self.fore_image.get_color_names()

@ gnome.utilities.map_canvas.MapCanvas.create_images
def create_images(self, preset_colors):
    width, height = self.image_size[:2]
    self.fore_image = py_gd.Image(width=width, height=height, preset_colors=preset_colors)
    self.back_image = py_gd.Image(width=width, height=height, preset_colors=preset_colors)
    if preset_colors is not None:
        self.clear_background()
        self.clear_foreground()

@ gnome.utilities.map_canvas.MapCanvas.back_asarray
def back_asarray(self):
    return np.asarray(self.back_image)

@ gnome.utilities.map_canvas.MapCanvas.fore_asarray
def fore_asarray(self):
    return np.asarray(self.fore_image)

@ gnome.utilities.map_canvas.MapCanvas.clear_background
def clear_background(self):
    self.back_image.clear(self.background_color)

@ gnome.utilities.map_canvas.MapCanvas.clear_foreground
def clear_foreground(self):
    self.fore_image.clear('transparent')

@ gnome.utilities.map_canvas.MapCanvas.copy_back_to_fore
def copy_back_to_fore(self):
    self.fore_image.copy(self.back_image, (0, 0), (0, 0), self.back_image.size)

@ gnome.utilities.map_canvas.MapCanvas.draw_points
def draw_points(self, points, diameter=1, color='black', shape='round', background=False):
    if shape not in ('round', 'x'):
        raise ValueError()
    points = self.projection.to_pixel(points, asint=True)
    img = self.back_image if background else self.fore_image
    if shape == 'round':
        img.draw_dots(points, diameter=diameter, color=color)
    elif shape == 'x':
        img.draw_xes(points, diameter=diameter, color=color)

@ gnome.utilities.map_canvas.MapCanvas.draw_polygon
def draw_polygon(self, points, line_color=None, fill_color=None, line_width=1, background=False):
    points = self.projection.to_pixel(points, asint=True)
    img = self.back_image if background else self.fore_image
    img.draw_polygon(points, line_color=line_color, fill_color=fill_color, line_width=line_width)

@ gnome.utilities.map_canvas.MapCanvas.draw_polyline
def draw_polyline(self, points, line_color, line_width=1, background=False):
    points = self.projection.to_pixel(points, asint=True)
    img = self.back_image if background else self.fore_image
    img.draw_polyline(points, line_color=line_color, line_width=line_width)

@ gnome.utilities.map_canvas.MapCanvas.draw_text
def draw_text(self, text_list, size='small', color='black', align='lt', background=None, draw_to_back=False):
    img = self.back_image if draw_to_back else self.fore_image
    for tag in text_list:
        point = np.array((tag[1][0], tag[1][1])).reshape(-1, 2)
        point = self.projection.to_pixel(point, asint=True)[0]
        img.draw_text(tag[0], point, size, color, align, background)

@ gnome.utilities.map_canvas.MapCanvas.draw_background
def draw_background(self):
    self.clear_background()
    self.draw_graticule()
    self.draw_tags()
    self.draw_grid()

@ gnome.utilities.map_canvas.MapCanvas.draw_land
def draw_land(self):
    return None

@ gnome.utilities.map_canvas.MapCanvas.draw_graticule
def draw_graticule(self, background=True):
    for line in self.graticule.get_lines():
        self.draw_polyline(line, 'black', 1, background)

@ gnome.utilities.map_canvas.MapCanvas.draw_grid
def draw_grid(self):
    return None

@ gnome.utilities.map_canvas.MapCanvas.draw_tags
def draw_tags(self, draw_to_back=True):
    self.draw_text(self.graticule.get_tags(), draw_to_back=draw_to_back)

@ gnome.utilities.map_canvas.MapCanvas.save_background
def save_background(self, filename, file_type='png'):
    self.back_image.save(filename, file_type)

@ gnome.utilities.map_canvas.MapCanvas.save_foreground
def save_foreground(self, filename, file_type='png'):
    self.fore_image.save(filename, file_type=file_type)

@ gnome.utilities.map_canvas.MapCanvas.save
def save(self, filename, file_type='png'):
    assert False
    self.fore_image.copy(self.back_image, (0, 0), (0, 0), self.back_image.size)

@ gnome.utilities.map_canvas.GridLines.__init__
def __init__(self, viewport=None, projection=None, max_lines=10, DegMinSec=False):
    if viewport is None:
        raise ValueError()
    self.viewport = viewport
    if projection is None:
        raise ValueError()
    self.projection = projection
    if DegMinSec:
        self.STEPS = self.DMS_STEPS
        self.STEP_COUNT = self.DMS_COUNT
    else:
        self.STEPS = self.DEG_STEPS
        self.STEP_COUNT = self.DEG_COUNT
    self.DMS = DegMinSec
    self.max_lines = max_lines
    self.refresh_scale()

@ gnome.utilities.map_canvas.GridLines.get_step_size
def get_step_size(self, reference_size):
    return self.STEPS[min(bisect.bisect(self.STEPS, abs(reference_size)), self.STEP_COUNT - 1)]

@ gnome.utilities.map_canvas.GridLines.get_lines
def get_lines(self):
    if self.max_lines == 0:
        return []
    minlon, minlat = self.projection.image_box[0]
    top = (self.lat_lines + 4) * self.current_interval
    right = (self.lon_lines + 4) * self.current_interval
    vertical_lines = np.array([((x * self.current_interval, 0), (x * self.current_interval, top)) for x in range(0, self.lon_lines + 4)])
    horizontal_lines = np.array([((0, y * self.current_interval), (right, y * self.current_interval)) for y in range(0, self.lat_lines + 4)])
    delta = ((minlon // self.current_interval - 1) * self.current_interval, (minlat // self.current_interval - 1) * self.current_interval)
    vertical_lines += delta
    horizontal_lines += delta
    return np.vstack((vertical_lines, horizontal_lines))

@ gnome.utilities.map_canvas.GridLines.refresh_scale
def refresh_scale(self):
    if self.max_lines == 0:
        return
    img_width = float(self.projection.image_size[0])
    img_height = float(self.projection.image_size[1])
    ratio = img_width / img_height
    self.ref_dim = 'w' if img_width >= img_height else 'h'
    width = self.projection.image_box[1][0] - self.projection.image_box[0][0]
    height = self.projection.image_box[1][1] - self.projection.image_box[0][1]
    self.ref_len = width if self.ref_dim == 'w' else height
    self.current_interval = self.get_step_size(self.ref_len / self.max_lines)
    self.lon_lines = self.max_lines if self.ref_dim == 'w' else None
    self.lat_lines = self.max_lines if self.ref_dim == 'h' else None
    if self.lon_lines is None:
        self.lon_lines = int(round(self.lat_lines * ratio))
    if self.lat_lines is None:
        self.lat_lines = int(round(self.lon_lines / ratio))

@ gnome.utilities.map_canvas.GridLines.set_max_lines
def set_max_lines(self, max_lines=None):
    if max_lines is not None:
        self.max_lines = max_lines
    self.refresh_scale()

@ gnome.utilities.map_canvas.GridLines.set_DMS
def set_DMS(self, DMS=False):
    self.DMS = DMS
    if self.DMS:
        self.STEPS = self.DMS_STEPS
        self.STEP_COUNT = self.DMS_COUNT
    else:
        self.STEPS = self.DEG_STEPS
        self.STEP_COUNT = self.DEG_COUNT
    self.refresh_scale()

@ gnome.utilities.map_canvas.GridLines.get_tags
def get_tags(self):
    if self.max_lines == 0:
        return []
    tags = []
    for line in self.get_lines():
        value = 0
        if line[0][0] == line[1][0]:
            value = line[0][0]
            hemi = 'E' if value > 0 else 'W'
        else:
            value = line[0][1]
            hemi = 'N' if value > 0 else 'S'
        tag = '{0:.2f}'.format(value) if not self.DMS else uc.LatLongConverter.ToDegMinSec(value, ustring=False)
        if self.DMS:
            degrees = int(abs(tag[0]))
            minutes = int(tag[1])
            seconds = int(round(tag[2]))
            if seconds == 60:
                minutes += 1
                seconds = 0
            if seconds != 0:
                tag = '%id%i\'%i"%c' % (degrees, minutes, seconds, hemi)
            elif minutes != 0:
                tag = "%id%i'%c" % (degrees, minutes, hemi)
            else:
                tag = '%id%c' % (degrees, hemi)
        top = self.projection.image_box[1][1]
        left = self.projection.image_box[0][0]
        anchor = (value, top) if hemi == 'E' or hemi == 'W' else (left, value)
        tags.append((tag, anchor))
    return tags

@ gnome.utilities.map_canvas.Viewport.__init__
def __init__(self, BB=None, center=None, width=None, height=None):
    self._BB = None
    self._center = None
    self._width = None
    self._height = None
    if BB is None:
        if center is None:
            raise ValueError()
        if width is None:
            raise ValueError()
        if height is None:
            raise ValueError()
        self._center = center
        self._width = width
        self._height = height
        self.recompute_BB()
    else:
        self._BB = BB
        self.recompute_dim()

@ gnome.utilities.map_canvas.Viewport.scale
def scale(self, multiplier=1.0):
    self._width *= multiplier
    self._height *= multiplier
    self.recompute_BB()

@ gnome.utilities.map_canvas.Viewport.recompute_dim
def recompute_dim(self):
    self._width = self.BB[1][0] - self.BB[0][0]
    self._height = self.BB[1][1] - self.BB[0][1]
    self._center = (self.BB[1][0] - self.width / 2.0, self.BB[1][1] - self.height / 2.0)

@ gnome.utilities.map_canvas.Viewport.recompute_BB
def recompute_BB(self):
    halfx = self.width / 2.0
    halfy = self.height / 2.0
    self._BB = ((self.center[0] - halfx, self.center[1] - halfy), (self.center[0] + halfx, self.center[1] + halfy))

@ gnome.utilities.map_canvas.Viewport.aspect_ratio
def aspect_ratio(self):
    return self.width / self.height

@ getter gnome.utilities.map_canvas.Viewport.BB
def BB(self):
    return self._BB

@ setter gnome.utilities.map_canvas.Viewport.BB
def BB(self, BB):
    self._BB = BB if BB is not None else self._BB
    self.recompute_dim()

@ getter gnome.utilities.map_canvas.Viewport.center
def center(self):
    return self._center

@ setter gnome.utilities.map_canvas.Viewport.center
def center(self, center):
    self._center = center if center else self._center
    self.recompute_BB()

@ getter gnome.utilities.map_canvas.Viewport.width
def width(self):
    return self._width

@ setter gnome.utilities.map_canvas.Viewport.width
def width(self, width):
    self._width = width if width else self._width
    self.recompute_BB()

@ getter gnome.utilities.map_canvas.Viewport.height
def height(self):
    return self._height

@ setter gnome.utilities.map_canvas.Viewport.height
def height(self, height):
    self._height = height if height else self._height
    self.recompute_BB()


## R6 the point-in-polygon test sees every polygon and point it is given
@ func gnome.utilities.geometry.cy_point_in_polygon.point_in_poly
def point_in_poly(poly, in_point):
    point[0] = in_point[0]
    point[1] = in_point[1]
    nvert = poly.shape[0]
    result = c_point_in_poly1(nvert, addr(poly[0, 0]), point)
    return result

@ func gnome.utilities.geometry.cy_point_in_polygon.points_in_poly
def points_in_poly(pgon, points):
    np_points = np.ascontiguousarray(points, dtype=np.float64)
    orig_shape = np_points.shape
    scalar = orig_shape == (3,)
    np_points = np_points.reshape(-1, 3)
    a_points = np_points
    np_points.shape = orig_shape
    result = np.zeros((a_points.shape[0],), dtype=np.uint8)
    nvert = pgon.shape[0]
    npoints = a_points.shape[0]
    for i in range(npoints):
        result[i] = c_point_in_poly1(nvert, addr(pgon[0, 0]), addr(a_points[i, 0]))
    if scalar:
        return bool(result[0])
    else:
        return result.view(dtype=np.bool_)

@ func gnome.utilities.geometry.cy_point_in_polygon.points_in_polys
def points_in_polys(pgons, points):
    result = np.zeros((points.shape[0],), dtype=np.uint8)
    M = pgons.shape[1]
    N = pgons.shape[0]
    for i in range(N):
        result[i] = c_point_in_poly1(M, addr(pgons[i, 0, 0]), addr(points[i, 0]))
    return result.view(dtype=np.bool_)


## R7 the point-in-polygon test in C gives the answers of its reference
@ func gnome.lib.c_point_in_polygon.c_point_in_poly1
def c_point_in_poly1(nvert, vertices, point):
    i = '?i'
    j = 0
    c = 0
    i = 0
    j = nvert - 1
    while i < nvert:
        if (vertices[2 * i + 1] > point[1]) != (vertices[2 * j + 1] > point[1]) and point[0] < (vertices[2 * j] - vertices[2 * i]) * (point[1] - vertices[2 * i + 1]) / (vertices[2 * j + 1] - vertices[2 * i + 1]) + vertices[2 * i]:
            c = not c
        _old6 = i
        i += 1
        j = _old6
    return c

