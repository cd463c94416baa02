## R1 every array of the container has one entry per element, appended, split and removed together
@ gnome.spill_container.SpillContainerData.__init__
def __init__(self, data_arrays=None, uncertain=False):
    self.uncertain = uncertain
    self.on = True
    if not data_arrays:
        data_arrays = {}
    self._data_arrays = data_arrays
    self.current_time_stamp = None
    self.mass_balance = {}
    self.substance = None
    self._array_allclose_atol = 0

@ gnome.spill_container.SpillContainerData.__contains__
def __contains__(self, item):
    return item in self._data_arrays

@ gnome.spill_container.SpillContainerData.__getitem__
def __getitem__(self, data_name):
    return self._data_arrays[data_name]

@ gnome.spill_container.SpillContainerData.__setitem__
def __setitem__(self, data_name, array):
    array = np.asarray(array)
    if data_name in self._data_arrays:
        if array.dtype != self._data_arrays[data_name].dtype:
            raise ValueError()
        if array.shape != self._data_arrays[data_name].shape:
            msg = 'data array must be the same shape as original array'
            raise ValueError()
    else:
        if array.shape == ():
            raise TypeError()
        if len(array) != len(self):
            raise IndexError()
    self._data_arrays[data_name] = array

@ gnome.spill_container.SpillContainerData.__eq__
def __eq__(self, other):
    if type(self) != type(other):
        return False
    if len(self.__dict__) != len(other.__dict__):
        return False
    if self.substance != other.substance:
        return False
    val_is_dict = []
    for key, val in self.__dict__.items():
        if isinstance(val, dict):
            val_is_dict.append(key)
        elif key == '_substances_spills' or key == '_fate_data_view':
            pass
        elif val != other.__dict__[key]:
            return False
    for item in val_is_dict:
        if set(self.__dict__[item]) != set(other.__dict__[item]):
            return False
        for key, val in self.__dict__[item].items():
            other_val = other.__dict__[item][key]
            if isinstance(val, np.ndarray):
                try:
                    if not np.allclose(val, other_val, 0, self._array_allclose_atol):
                        return False
                except TypeError:
                    if not np.all(val == other_val):
                        return False
            elif val != other_val:
                return False
    return True

@ gnome.spill_container.SpillContainerData.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.spill_container.SpillContainerData.__len__ | ignore_exc=False
def __len__(self):
    try:
        return len(next(iter(self._data_arrays.values())))
    except StopIteration:
        return 0

@ getter gnome.spill_container.SpillContainerData.num_released
def num_released(self):
    return len(self)

@ getter gnome.spill_container.SpillContainerData.data_arrays
def data_arrays(self):
    return self._data_arrays

@ gnome.spill_container.SpillContainerData.keys
def keys(self):
    return self._data_arrays.keys()

@ gnome.spill_container.SpillContainer.__init__
def __init__(self, uncertain=False):
    super(SpillContainer, self).__init__(uncertain=uncertain)
    self.spills = OrderedCollection(dtype=gnome.spills.spill.Spill)
    self.spills.register_callback(self._spills_changed, ('add', 'replace', 'remove'))
    self.rewind()

@ gnome.spill_container.SpillContainer._reset_arrays
def _reset_arrays(self):
    self._array_types = {}
    self._data_arrays = {}

@ gnome.spill_container.SpillContainer._reset__substances_spills
def _reset__substances_spills(self):
    self.substance = None
    self._oil_comp_array_len = 1

@ gnome.spill_container.SpillContainer._reset__fate_data_view
def _reset__fate_data_view(self):
    self._fate_data_view = FateDataView()

@ gnome.spill_container.SpillContainer.reset_fate_dataview
def reset_fate_dataview(self):
    self._fate_data_view.reset()

@ gnome.spill_container.SpillContainer._set_substancespills
def _set_substancespills(self):
    substance = False
    for spill in self.spills:
        if not spill.on:
            continue
        if substance is False:
            substance = spill.substance
        elif spill.substance != substance:
            subs = [spill.substance for spill in self.spills if spill.on]
            raise ValueError()
    if hasattr(substance, 'num_components'):
        self._oil_comp_array_len = substance.num_components
    else:
        self._oil_comp_array_len = 1
    self.substance = NonWeatheringSubstance() if substance is False else substance

@ gnome.spill_container.SpillContainer._set_fate_data
def _set_fate_data(self):
    self._fate_data_view = FateDataView()

@ gnome.spill_container.SpillContainer._spills_changed
def _spills_changed(self, *args):
    self._set_substancespills()

@ gnome.spill_container.SpillContainer._get_fatedataview
def _get_fatedataview(self):
    return self._fate_data_view

@ gnome.spill_container.SpillContainer._array_name
def _array_name(self, at):
    if isinstance(at, str):
        return at
    else:
        return at.name

@ gnome.spill_container.SpillContainer._append_data_arrays
def _append_data_arrays(self, num_released):
    for name, atype in self._array_types.items():
        if atype.shape is None:
            a_append = atype.initialize(num_released, shape=(self._oil_comp_array_len,), initial_value=tuple([0] * self._oil_comp_array_len))
        else:
            a_append = atype.initialize(num_released)
        self._data_arrays[name] = np.r_[self._data_arrays[name], a_append]

@ gnome.spill_container.SpillContainer.substancefatedata
def substancefatedata(self, substance, array_types, fate='surface_weather'):
    view = self._get_fatedataview()
    return view.get_data(self, array_types, fate)

@ gnome.spill_container.SpillContainer.iterspillsbysubstance
def iterspillsbysubstance(self):
    return self.spills

@ gnome.spill_container.SpillContainer.itersubstancedata
def itersubstancedata(self, array_types, fate_status='surface_weather'):
    if self.substance is None:
        return []
    else:
        data = self._fate_data_view.get_data(self, array_types, fate_status)
        return [(self.substance, data)]

@ gnome.spill_container.SpillContainer.update_from_fatedataview
def update_from_fatedataview(self, fate_status='surface_weather'):
    self._fate_data_view.update_sc(self, fate_status)

@ gnome.spill_container.SpillContainer.get_substances
def get_substances(self, complete=True):
    if self.substance is None:
        return [None] if complete else []
    else:
        return [self.substance]

@ getter gnome.spill_container.SpillContainer.total_mass
def total_mass(self):
    mass = 0
    for spill in self.spills:
        if spill.get_mass() is not None:
            mass += spill.get_mass()
    if mass == 0:
        return None
    else:
        return mass

@ getter gnome.spill_container.SpillContainer.substances
def substances(self):
    return self.get_substances(complete=False)

@ getter gnome.spill_container.SpillContainer.array_types
def array_types(self):
    return self._array_types

@ gnome.spill_container.SpillContainer.rewind
def rewind(self):
    for spill in self.spills:
        spill.rewind()
    self._reset_arrays()
    self._reset__substances_spills()
    self._reset__fate_data_view()
    self._set_substancespills()
    self.mass_balance = {}

@ gnome.spill_container.SpillContainer.get_spill_mask
def get_spill_mask(self, spill):
    return self['spill_num'] == self.spills.index(spill)

@ gnome.spill_container.SpillContainer.uncertain_copy
def uncertain_copy(self):
    u_sc = SpillContainer(uncertain=True)
    for sp in self.spills:
        u_sc.spills += sp.uncertain_copy()
    return u_sc

@ gnome.spill_container.SpillContainer.prepare_for_model_run
def prepare_for_model_run(self, array_types=None, time_step=300):
    if array_types is None:
        array_types = {}
    for s in self.spills:
        if s.on:
            s.prepare_for_model_run(time_step)
    ats = default_array_types.copy()
    ats.update(array_types)
    self._array_types = copy.deepcopy(ats)
    if 'fate_status' in self.array_types:
        self._set_fate_data()
    self._set_substancespills()
    self.initialize_data_arrays()
    self.mass_balance['standard_density'] = self.substance.standard_density
    self.mass_balance['beached'] = 0.0
    self.mass_balance['off_maps'] = 0.0

@ gnome.spill_container.SpillContainer.initialize_data_arrays
def initialize_data_arrays(self):
    for name, atype in self._array_types.items():
        if atype.shape is None:
            num_comp = self._oil_comp_array_len
            self._data_arrays[name] = atype.initialize_null(shape=(num_comp,))
        else:
            self._data_arrays[name] = atype.initialize_null()

@ gnome.spill_container.SpillContainer._get_fate_mask
def _get_fate_mask(self, fate):
    if fate == 'all':
        w_mask = np.asarray([True] * len(self))
    else:
        w_mask = self['fate_status'] & getattr(bt_fate, fate) == getattr(bt_fate, fate)
    w_mask = np.logical_and(w_mask, self['mass'] > 0.0)
    return w_mask

@ gnome.spill_container.SpillContainer.release_elements
def release_elements(self, start_time, end_time, environment=None):
    total_rel = 0
    for spill in self.spills:
        if not spill.on:
            continue
        num_rel = spill.release_elements(self, start_time, end_time, environment=environment)
        if num_rel > 0:
            self._array_types['spill_num'].initial_value = self.spills.index(spill)
            if len(self['spill_num']) > 0:
                self._array_types['id'].initial_value = self['id'][-1] + 1
            else:
                self._array_types['id'].initial_value = 0
            total_rel += num_rel
    self.reset_fate_dataview()
    return total_rel

@ gnome.spill_container.SpillContainer.split_element
def split_element(self, ix, num, l_frac=None):
    try:
        idx = np.where(self['id'] == ix)[0][0]
    except IndexError:
        msg = 'no element with id = {0} found'.format(ix)
        raise
    for name, at in self.array_types.items():
        data = self[name]
        split_elems = at.split_element(num, self[name][idx], l_frac)
        data = np.insert(data, idx, split_elems[:-1], 0)
        data[idx + len(split_elems) - 1] = split_elems[-1]
        self._data_arrays[name] = data
    self._fate_data_view._reset_fatedata(self, ix)

@ gnome.spill_container.SpillContainer.model_step_is_done
def model_step_is_done(self):
    if len(self._data_arrays) == 0:
        return
    to_be_removed = np.where(self['status_codes'] == oil_status.to_be_removed)[0]
    if len(to_be_removed) > 0:
        for key in self._array_types:
            self._data_arrays[key] = np.delete(self[key], to_be_removed, axis=0)
        self._fate_data_view.reset()

## R2 an array type initialises and splits an element as declared
@ gnome.array_types.ArrayType.__init__
def __init__(self, shape, dtype, name, initial_value=0):
    self.shape = shape
    self.dtype = dtype
    self.initial_value = initial_value
    self.name = name

@ gnome.array_types.ArrayType.initialize_null
def initialize_null(self, shape=None):
    return self.initialize(0, shape)

@ gnome.array_types.ArrayType.initialize
def initialize(self, num_elements, shape=None, initial_value=None):
    if shape is None:
        shape = self.shape
    if initial_value is None:
        initial_value = self.initial_value
    arr = np.zeros((num_elements,) + shape, dtype=self.dtype)
    arr[:] = initial_value
    return arr

@ gnome.array_types.ArrayType._num_gt_2
def _num_gt_2(self, num):
    if num < 2:
        msg = "'num' to split into must be at least 2"
        raise ValueError()

@ gnome.array_types.ArrayType.split_element
def split_element(self, num, value, *args):
    self._num_gt_2(num)
    shape = value.shape if self.shape is None else self.shape
    return self.initialize(num, shape, value)

@ gnome.array_types.ArrayType.__eq__
def __eq__(self, other):
    if not isinstance(other, self.__class__):
        return False
    if len(self.__dict__) != len(other.__dict__):
        return False
    for key, val in self.__dict__.items():
        if key not in other.__dict__:
            return False
        elif key == 'initial_value':
            if np.any(val != other.__dict__[key]):
                return False
        elif val != other.__dict__[key]:
            return False
    return True

@ gnome.array_types.ArrayType.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.array_types.IdArrayType.initialize
def initialize(self, num_elements, *args):
    array = np.arange(self.initial_value, num_elements + self.initial_value, dtype=self.dtype)
    return array

@ gnome.array_types.IdArrayType.split_element
def split_element(self, num, value, *args):
    self._num_gt_2(num)
    arr = np.zeros((num,) + self.shape, dtype=self.dtype)
    arr[:] = value
    return arr

@ gnome.array_types.ArrayTypeDivideOnSplit.split_element
def split_element(self, num, value, l_frac=None):
    self._num_gt_2(num)
    if l_frac is not None:
        if len(l_frac) != num:
            msg = "in split_element() len(l_frac) must equal 'num'"
            raise ValueError()
        l_frac = np.asarray(l_frac)
        if not np.allclose(l_frac.sum(), 1.0):
            msg = "sum 'l_frac' must be 1.0"
            raise ValueError()
    shape = value.shape if self.shape is None else self.shape
    split = self.initialize(num, shape, value)
    if l_frac is None:
        return split[:] / num
    elif len(split.shape) > 1:
        return split * l_frac.reshape(len(l_frac), -1)
    else:
        return split * l_frac

@ func gnome.array_types.get_array_type
def get_array_type(name):
    params = _default_values[name]
    if len(params) > 4:
        return params[4](shape=params[0], dtype=params[1], name=params[2], initial_value=params[3])
    else:
        return ArrayType(shape=params[0], dtype=params[1], name=params[2], initial_value=params[3])

@ func gnome.array_types.reset_to_defaults
def reset_to_defaults(at):
    try:
        obj = at
        obj.shape = _default_values[at.name][0]
        obj.dtype = _default_values[at.name][1]
        obj.name = _default_values[at.name][2]
        obj.initial_value = _default_values[at.name][3]
    except AttributeError:
        pass

@ const gnome.array_types._default_values
{'positions': ((3,), world_point_type, 'positions', (0.0, 0.0, 0.0)), 'next_positions': ((3,), world_point_type, 'next_positions', (0.0, 0.0, 0.0)), 'last_water_positions': ((3,), world_point_type, 'last_water_positions', (0.0, 0.0, 0.0)), 'status_codes': ((), status_code_type, 'status_codes', oil_status.in_water), 'spill_num': ((), id_type, 'spill_num', 0), 'id': ((), np.uint32, 'id', 0, IdArrayType), 'windages': ((), windage_type, 'windages', 0), 'windage_range': ((2,), np.float64, 'windage_range', (0.0, 0.0)), 'windage_persist': ((), np.int32, 'windage_persist', 0), 'rise_vel': ((), np.float64, 'rise_vel', 0.0), 'droplet_diameter': ((), np.float64, 'droplet_diameter', 0.0), 'age': ((), np.int32, 'age', 0), 'vol_frac_le_st': ((), np.float64, 'vol_frac_le_st', 0), 'max_area_le': ((), np.float64, 'max_area_le', 0), 'release_rate': ((), np.float64, 'release_rate', np.nan), 'bulk_init_volume': ((), np.float64, 'bulk_init_volume', 0, ArrayTypeDivideOnSplit), 'density': ((), np.float64, 'density', 1000), 'oil_density': ((), np.float64, 'oil_density', 0), 'evap_decay_constant': (None, np.float64, 'evap_decay_constant', None), 'fay_area': ((), np.float64, 'fay_area', 0), 'area': ((), np.float64, 'area', 0), 'frac_coverage': ((), np.float64, 'frac_coverage', 1.0), 'at_max_area': ((), np.uint8, 'at_max_area', False), 'viscosity': ((), np.float64, 'viscosity', 1000000000000.0), 'oil_viscosity': ((), np.float64, 'oil_viscosity', 0), 'frac_water': ((), np.float64, 'frac_water', 0), 'interfacial_area': ((), np.float64, 'interfacial_area', 0), 'yield_factor': ((), np.float64, 'yield_factor', 0), 'bulltime': ((), np.float64, 'bulltime', -1.0), 'frac_lost': ((), np.float64, 'frac_lost', 0), 'frac_evap': ((), np.float64, 'frac_evap', 0), 'substance': ((), np.uint8, 'substance', 0), 'fate_status': ((), np.uint8, 'fate_status', fate.non_weather), 'mass': ((), np.float64, 'mass', 0, ArrayTypeDivideOnSplit), 'mass_components': (None, np.float64, 'mass_components', None, ArrayTypeDivideOnSplit), 'init_mass': ((), np.float64, 'init_mass', 0, ArrayTypeDivideOnSplit), 'partition_coeff': ((), np.float64, 'partition_coeff', 0), 'droplet_avg_size': ((), np.float64, 'droplet_avg_size', 0), 'surface_concentration': ((), np.float64, 'surface_concentration', 0)}

@ const gnome.array_types.gat
get_array_type

@ const gnome.array_types.DEFAULT_ARRAY_TYPES
{'positions', 'next_positions', 'last_water_positions', 'status_codes', 'mass', 'init_mass', 'age', 'density', 'viscosity', 'surface_concentration', 'spill_num', 'id', 'vol_frac_le_st', 'max_area_le', 'release_rate', 'bulk_init_volume', 'area', 'fay_area', 'frac_coverage'}

## R3 the certain and uncertain containers hold the same spills
@ gnome.spill_container.SpillContainerPair.__init__
def __init__(self, uncertain=False):
    sc = SpillContainer()
    if uncertain:
        u_sc = SpillContainer(uncertain=True)
    else:
        u_sc = None
    super(SpillContainerPair, self).__init__(sc, u_sc)

@ gnome.spill_container.SpillContainerPair.rewind
def rewind(self):
    self._spill_container.rewind()
    if self.uncertain:
        self._u_spill_container.rewind()
        if self._spill_container.spills != self._u_spill_container.spills:
            self._u_spill_container = self._spill_container.uncertain_copy()

@ getter gnome.spill_container.SpillContainerPair.uncertain
def uncertain(self):
    return self._uncertain

@ setter gnome.spill_container.SpillContainerPair.uncertain
def uncertain(self, value):
    if type(value) is not bool:
        raise TypeError()
    if self._uncertain is True and value is False:
        self._uncertain = value
        del self._u_spill_container
    elif self._uncertain is False and value is True:
        self._uncertain = value
        self._u_spill_container = self._spill_container.uncertain_copy()

@ gnome.spill_container.SpillContainerPair._add_spill_pair
def _add_spill_pair(self, pair_tuple):
    if self.uncertain and len(pair_tuple) != 2:
        raise ValueError()
    if not self.uncertain and len(pair_tuple) != 1:
        raise ValueError()
    self._spill_container.spills += pair_tuple[0]
    if self.uncertain:
        self._u_spill_container.spills += pair_tuple[1]

@ gnome.spill_container.SpillContainerPair._add_item
def _add_item(self, item):
    if isinstance(item, tuple):
        self._add_spill_pair(item)
    else:
        self._spill_container.spills += item
        if self.uncertain:
            self._u_spill_container.spills += item.uncertain_copy()

@ gnome.spill_container.SpillContainerPair.add
def add(self, spills):
    if isinstance(spills, list):
        for item in spills:
            self._add_item(item)
    else:
        self._add_item(spills)

@ gnome.spill_container.SpillContainerPair.append
def append(self, spill):
    self.add(spill)

@ gnome.spill_container.SpillContainerPair.remove
def remove(self, ident):
    if self.uncertain:
        idx = self._spill_container.spills.index(self._spill_container.spills[ident])
        del self._u_spill_container.spills[idx]
    del self._spill_container.spills[ident]

@ gnome.spill_container.SpillContainerPair.__getitem__
def __getitem__(self, ident):
    spill = self._spill_container.spills[ident]
    return spill

@ gnome.spill_container.SpillContainerPair.__setitem__
def __setitem__(self, ident, new_spill):
    self._spill_container.spills.replace(ident, new_spill)
    if self.uncertain:
        ix = self.index(new_spill)
        self._u_spill_container.spills[ix] = new_spill.uncertain_copy()

@ gnome.spill_container.SpillContainerPair.__delitem__
def __delitem__(self, ident):
    self.remove(ident)

@ gnome.spill_container.SpillContainerPair.__iadd__
def __iadd__(self, rop):
    self.add(rop)
    return self

@ gnome.spill_container.SpillContainerPair.__iter__
def __iter__(self):
    for sp in self._spill_container.spills:
        yield self.__getitem__(sp.id)

@ gnome.spill_container.SpillContainerPair.__len__
def __len__(self):
    return len(self._spill_container.spills)

@ gnome.spill_container.SpillContainerPair.__contains__
def __contains__(self, ident):
    return ident in self._spill_container.spills

@ gnome.spill_container.SpillContainerPair.to_dict
def to_dict(self):
    dict_ = {'spills': self._spill_container.spills.to_dict()}
    if self.uncertain:
        dict_.update({'uncertain_spills': self._u_spill_container.spills.to_dict()})
    return dict_

@ gnome.spill_container.SpillContainerPair.update_from_dict
def update_from_dict(self, dict_):
    l_spills = dict_['spills']
    updated = False
    if len(l_spills) != len(self):
        updated = True
    if list(self._spill_container.spills.values()) != l_spills:
        updated = True
    if updated:
        self.clear()
        if l_spills:
            self += l_spills
    return updated

@ gnome.spill_container.SpillContainerPair.spill_by_index
def spill_by_index(self, index, uncertain=False):
    if uncertain:
        return self._u_spill_container.spills[index]
    else:
        return self[index]

@ gnome.spill_container.SpillContainerPair.index
def index(self, spill):
    try:
        return self._spill_container.spills.index(spill)
    except Exception:
        return self._u_spill_container.spills.index(spill)

@ getter gnome.spill_container.SpillContainerPair.num_released
def num_released(self):
    if self.uncertain:
        return (self._spill_container.num_released, self._u_spill_container.num_released)
    else:
        return (self._spill_container.num_released,)

@ gnome.spill_container.SpillContainerPair.clear
def clear(self):
    self._spill_container.spills.clear()
    if self.uncertain:
        self._u_spill_container.spills.clear()

@ gnome.spill_container.SpillContainerPairData.__init__
def __init__(self, sc, u_sc=None):
    if sc.uncertain:
        raise ValueError()
    self._spill_container = sc
    if u_sc is None:
        self._uncertain = False
    else:
        self._uncertain = True
        if not u_sc.uncertain:
            raise ValueError()
        self._u_spill_container = u_sc

@ getter gnome.spill_container.SpillContainerPairData.uncertain
def uncertain(self):
    return self._uncertain

@ gnome.spill_container.SpillContainerPairData.items
def items(self):
    if self.uncertain:
        return (self._spill_container, self._u_spill_container)
    else:
        return (self._spill_container,)

@ getter gnome.spill_container.SpillContainerPairData.LE_data
def LE_data(self):
    data = list(self._spill_container._data_arrays.keys())
    data.append('current_time_stamp')
    if self._spill_container.mass_balance:
        data.append('mass_balance')
    return data

@ gnome.spill_container.SpillContainerPairData.LE
def LE(self, prop_name, uncertain=False):
    if uncertain:
        sc = self._u_spill_container
    else:
        sc = self._spill_container
    if prop_name == 'current_time_stamp':
        return sc.current_time_stamp
    elif prop_name == 'mass_balance':
        return sc.mass_balance
    return sc[prop_name]

@ gnome.spill_container.SpillContainerPairData.__eq__
def __eq__(self, other):
    if type(self) != type(other):
        return False
    if self.uncertain != other.uncertain:
        return False
    for sc in zip(self.items(), other.items()):
        if sc[0] != sc[1]:
            return False
    return True

@ gnome.spill_container.SpillContainerPairData.__ne__
def __ne__(self, other):
    return not self == other

## R4 a spill releases what its release schedule says, into its own elements
@ gnome.spills.spill.Spill.__init__
def __init__(self, on=True, num_elements=1000, amount=0, units='kg', substance=None, release=None, water=None, amount_uncertainty_scale=0.0, **kwargs):
    super(Spill, self).__init__(**kwargs)
    self.on = on
    self.substance = substance
    if release is None:
        release = PointLineRelease(release_time=datetime.now(), start_position=(0, 0, 0), num_elements=num_elements)
        self.release = release
    else:
        self.release = release
        num_elements = release.num_elements
    self.num_elements = num_elements
    self.units = units
    self.amount = amount
    self.water = water
    self.amount_uncertainty_scale = amount_uncertainty_scale
    self.frac_coverage = 1.0
    self._num_released = 0

@ getter gnome.spills.spill.Spill.all_array_types
def all_array_types(self):
    arr = self.array_types.copy()
    arr.update(self.release.all_array_types)
    arr.update(self.substance.all_array_types)
    return arr

@ getter gnome.spills.spill.Spill.substance
def substance(self):
    return self._substance

@ setter gnome.spills.spill.Spill.substance
def substance(self, val):
    if isinstance(val, type):
        raise TypeError()
    if val is None:
        self._substance = NonWeatheringSubstance()
        return
    elif isinstance(val, NonWeatheringSubstance):
        self._substance = val
        return
    elif isinstance(val, GnomeOil):
        self._substance = val
        return
    try:
        self._substance = GnomeOil.get_GnomeOil(val)
    except Exception:
        if isinstance(val, str):
            raise
        self._substance = val

@ getter gnome.spills.spill.Spill.release_time
def release_time(self):
    return self.release.release_time

@ setter gnome.spills.spill.Spill.release_time
def release_time(self, rt):
    self.release.release_time = asdatetime(rt)

@ getter gnome.spills.spill.Spill.end_release_time
def end_release_time(self):
    return self.release.end_release_time

@ setter gnome.spills.spill.Spill.end_release_time
def end_release_time(self, rt):
    self.release.end_release_time = asdatetime(rt)

@ getter gnome.spills.spill.Spill.release_duration
def release_duration(self):
    return self.release.release_duration

@ getter gnome.spills.spill.Spill.num_elements
def num_elements(self):
    return self.release.num_elements

@ setter gnome.spills.spill.Spill.num_elements
def num_elements(self, ne):
    self.release.num_elements = ne

@ getter gnome.spills.spill.Spill.start_position
def start_position(self):
    return self.release.centroid if not hasattr(self.release, 'start_position') else self.release.start_position

@ setter gnome.spills.spill.Spill.start_position
def start_position(self, sp):
    raise ValueError()

@ getter gnome.spills.spill.Spill.end_position
def end_position(self):
    return self.release.centroid if not hasattr(self.release, 'end_position') else self.release.end_position

@ setter gnome.spills.spill.Spill.end_position
def end_position(self, sp):
    raise ValueError()

@ getter gnome.spills.spill.Spill.amount
def amount(self):
    rel_mass = self.release.release_mass
    try:
        amount = nucos.convert('kg', self.units, rel_mass)
    except nucos.InvalidUnitError:
        vol = rel_mass / self.substance.standard_density
        amount = nucos.convert('m^3', self.units, vol)
    return amount

@ setter gnome.spills.spill.Spill.amount
def amount(self, amount):
    if amount < 0:
        raise ValueError()
    try:
        rel_mass = nucos.convert(self.units, 'kg', amount)
    except nucos.InvalidUnitError:
        vol = nucos.convert(self.units, 'm^3', amount)
        rel_mass = vol * self.substance.standard_density
    self.release.release_mass = rel_mass

@ gnome.spills.spill.Spill._check_units
def _check_units(self, units):
    if units in _valid_units('Volume') or units in _valid_units('Mass'):
        return True
    else:
        msg = f'Units for amount spilled must be in volume or mass units. {units} was provided.Recommended units are:{WEBGNOME_UNITS_FOR_RELEASE}'
        ex = ValueError(msg)
        raise ex

@ getter gnome.spills.spill.Spill.units
def units(self):
    return self._units

@ setter gnome.spills.spill.Spill.units
def units(self, units):
    if units is not None:
        units = nucos.get_abbreviation(units)
        units = WEBGNOME_UNIT_MAP.get(units, units)
        self._check_units(units)
        if units not in WEBGNOME_UNITS_FOR_RELEASE:
            msg = f'The spill amount unit: "{units}" is outside of the standard set: {WEBGNOME_UNITS_FOR_RELEASE} and will not work correctly in WebGNOME.'
    self._units = units

@ gnome.spills.spill.Spill.get_mass
def get_mass(self):
    return self.release.release_mass

@ gnome.spills.spill.Spill.uncertain_copy
def uncertain_copy(self):
    u_copy = copy.deepcopy(self)
    return u_copy

@ gnome.spills.spill.Spill.set_amount_uncertainty
def set_amount_uncertainty(self, up_or_down=None):
    if self.amount_uncertainty_scale <= 0.0 or self.amount_uncertainty_scale > 1.0:
        return False
    if up_or_down == 'up':
        scale = 1.0 + 2.0 / 3.0 * self.amount_uncertainty_scale
    elif up_or_down == 'down':
        scale = 1.0 - 2.0 / 3.0 * self.amount_uncertainty_scale
    else:
        return False
    self.amount *= scale
    return True

@ gnome.spills.spill.Spill.rewind
def rewind(self):
    self.array_types = {}
    self._num_released = 0
    self.release.rewind()

@ gnome.spills.spill.Spill.prepare_for_model_run
def prepare_for_model_run(self, timestep):
    self.release.prepare_for_model_run(timestep)

@ gnome.spills.spill.Spill.release_elements
def release_elements(self, sc, start_time, end_time, environment=None):
    if not self.on:
        return 0
    idx = sc.spills.index(self)
    expected_num_release = self.release.num_elements_after_time(end_time)
    actual_num_release = self._num_released
    to_rel = expected_num_release - actual_num_release
    if to_rel <= 0:
        return 0
    sc._append_data_arrays(to_rel)
    self._num_released += to_rel
    sc['spill_num'][-to_rel:] = idx
    self.release.initialize_elements(to_rel, sc, start_time, end_time)
    if 'frac_coverage' in sc:
        sc['frac_coverage'][-to_rel:] = self.frac_coverage
    self.substance.initialize_elements(to_rel, sc, environment=environment)
    self.release.initialize_elements_post_substance(to_rel, sc, start_time, end_time, environment=environment)
    return to_rel

@ gnome.spills.spill.Spill.num_elements_to_release
def num_elements_to_release(self, current_time, time_step):
    return self.release.num_elements_to_release(current_time, time_step)

@ gnome.spills.spill.Spill._attach_default_refs
def _attach_default_refs(self, ref_dict):
    self.release._attach_default_refs(ref_dict)
    self.substance._attach_default_refs(ref_dict)
    return GnomeId._attach_default_refs(self, ref_dict)

## R5 the tables of units and views are as documented
@ const gnome.spills.spill.WEBGNOME_UNITS_FOR_RELEASE
{'bbl', 'gal', 'm³', 'kg', 'ton', 'mt'}

@ const gnome.spills.spill.WEBGNOME_UNIT_MAP
{'tons': 'ton', 'tonne': 'mt'}

@ const gnome.spill_container.FateDataView._dicts_
('surface_weather', 'subsurf_weather', 'skim', 'burn', 'disperse', 'non_weather', 'all')

