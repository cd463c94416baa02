## R1 saving writes every object, reference and data file of an object once, and loading rebuilds the objects from them
@ gnome.gnomeobject.GnomeId.__init__
def __init__(self, name=None, _appearance=None, *args, **kwargs):
    self.__class__._instance_count += 1
    self._instance_count = self.__class__._instance_count
    if name:
        self.name = name
    self._appearance = _appearance
    self.array_types = dict()
    super(GnomeId, self).__init__(*args, **kwargs)

@ getter gnome.gnomeobject.GnomeId.all_array_types
def all_array_types(self):
    return self.array_types.copy()

@ getter gnome.gnomeobject.GnomeId.id
def id(self):
    if not self._id:
        self.__create_new_id()
    return self._id

@ gnome.gnomeobject.GnomeId.__create_new_id
def __create_new_id(self):
    self._id = str(uuid1())

@ getter gnome.gnomeobject.GnomeId.obj_type
def obj_type(self):
    try:
        obj_type = '{0.__module__}.{0.__class__.__name__}'.format(self)
    except AttributeError:
        obj_type = '{0.__class__.__name__}'.format(self)
    return obj_type

@ gnome.gnomeobject.GnomeId.__deepcopy__
def __deepcopy__(self, memo):
    obj_copy = object.__new__(type(self))
    if '_log' in self.__dict__:
        self.__dict__['_log'] = None
    obj_copy.__dict__ = copy.deepcopy(self.__dict__, memo)
    obj_copy.__create_new_id()
    return obj_copy

@ gnome.gnomeobject.GnomeId.__copy__
def __copy__(self):
    obj_copy = object.__new__(type(self))
    obj_copy.__dict__ = copy.copy(self.__dict__)
    obj_copy.__create_new_id()
    return obj_copy

@ getter gnome.gnomeobject.GnomeId.name
def name(self):
    if not hasattr(self, '_name') or self._name is None:
        return '{}_{}'.format(self.__class__.__name__.split('.')[-1], str(self._instance_count))
    else:
        return self._name

@ setter gnome.gnomeobject.GnomeId.name
def name(self, val):
    self._name = val

@ gnome.gnomeobject.GnomeId.gather_ref_as
def gather_ref_as(self, src, refs):
    if isinstance(src, GnomeId):
        src = [src]
    for ob in src:
        if hasattr(ob, '_ref_as'):
            names = ob._ref_as
            if not isinstance(names, list):
                names = [names]
            for n in names:
                if n in refs:
                    if ob not in refs[n]:
                        refs[n].append(ob)
                else:
                    refs[n] = [ob]

@ gnome.gnomeobject.GnomeId._attach_default_refs
def _attach_default_refs(self, ref_dict):
    if not hasattr(self, '_req_refs') or not self.make_default_refs:
        return
    else:
        for refname in self._req_refs:
            reflist = ref_dict.get(refname, [])
            if len(reflist) > 0 and getattr(self, refname) is None:
                setattr(self, refname, reflist[0])

@ getter gnome.gnomeobject.GnomeId._warn_pre
def _warn_pre(self):
    return 'warning: {}: '.format(self.__class__.__name__)

@ gnome.gnomeobject.GnomeId.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    new_obj = cls(**dict_)
    msg = 'constructed object {0}'.format(new_obj.__class__.__name__)
    return new_obj

@ gnome.gnomeobject.GnomeId.to_dict
def to_dict(self, json_=None):
    data = {}
    list_ = self._schema().get_nodes_by_attr('all')
    for key in list_:
        data[key] = getattr(self, key)
    return data

@ gnome.gnomeobject.GnomeId.update_from_dict
def update_from_dict(self, dict_, refs=None):
    if refs is None:
        refs = Refs()
        self._schema.register_refs(self._schema(), self, refs)
    updatable = self._schema().get_nodes_by_attr('update')
    attrs = copy.copy(dict_)
    updated = False
    for k in list(attrs):
        if k not in updatable:
            attrs.pop(k)
    for name in updatable:
        node = self._schema().get(name)
        if name in attrs:
            attrs[name] = self._schema.process_subnode(node, self, getattr(self, name), name, attrs, attrs[name], refs)
            if attrs[name] is colander.drop:
                del attrs[name]
    for k in updatable:
        if hasattr(self, k) and k in attrs:
            if not updated and self._attr_changed(getattr(self, k), attrs[k]):
                updated = True
            if not getattr(self, k) is attrs[k] or getattr(self, k) != attrs[k]:
                try:
                    setattr(self, k, attrs[k])
                except AttributeError:
                    raise
            attrs.pop(k)
    for k, v in attrs.items():
        if hasattr(self, k):
            if not updated and self._attr_changed(getattr(self, k), v):
                updated = True
            try:
                setattr(self, k, v)
            except AttributeError:
                raise
    return updated

@ gnome.gnomeobject.GnomeId.update
def update(self, *args, **kwargs):
    return self.update_from_dict(*args, **kwargs)

@ gnome.gnomeobject.GnomeId._attr_changed
def _attr_changed(current_value, received_value):
    if isinstance(current_value, np.ndarray) and isinstance(received_value, (list, tuple)):
        received_value = np.asarray(received_value)
    if isinstance(current_value, GnomeId):
        if current_value is not received_value:
            return True
    elif isinstance(current_value, OrderedCollection):
        if len(current_value) != len(received_value):
            return True
        for current, received in zip(current_value, received_value):
            if current is not received:
                return True
    else:
        try:
            if current_value != received_value:
                return True
        except ValueError:
            return not np.array_equal(current_value, received_value)
    return False

@ gnome.gnomeobject.GnomeId._check_type
def _check_type(self, other):
    return self is other or type(self) is type(other)

@ gnome.gnomeobject.GnomeId.__eq__
def __eq__(self, other):
    return not bool(self._diff(other, fail_early=True))

@ gnome.gnomeobject.GnomeId._diff
def _diff(self, other, fail_early=False):
    diffs = []
    if not self._check_type(other):
        diffs.append(f'Different type: self={self.__class__}, other={other.__class__}')
        if fail_early:
            return diffs
    schema = self._schema()
    for name in schema.get_nodes_by_attr('all'):
        subnode = schema.get(name)
        if hasattr(subnode, 'test_equal') and (not subnode.test_equal) or subnode.name == 'id':
            continue
        self_attr = getattr(self, name)
        other_attr = getattr(other, name)
        if isinstance(self_attr, np.ndarray) or isinstance(other_attr, np.ndarray):
            if np.asarray(self_attr).size != np.asarray(other_attr).size:
                diffs.append(f'Arrays are not the same size -- {name!r}: self={self_attr!r}, other={other_attr!r}')
                if fail_early:
                    return diffs
                continue
            try:
                if not np.allclose(self_attr, other_attr, rtol=self.RTOL, atol=self.ATOL):
                    diffs.append(f'Array values are not all close -- {name!r}: self={self_attr!r}, other={other_attr!r}')
                    if fail_early:
                        return diffs
            except TypeError:
                if not np.all(self_attr == other_attr):
                    diffs.append(f'Array values are not equal -- {name!r}: self={self_attr!r}, other={other_attr!r}')
                    if fail_early:
                        return diffs
        elif isinstance(self_attr, float) or isinstance(other_attr, float):
            if not np.allclose(self_attr, other_attr, rtol=self.RTOL, atol=self.ATOL):
                diffs.append(f'Difference outside tolerance -- {name}: self={self_attr!r}, other= {other_attr!r}')
                if fail_early:
                    return diffs
        elif self_attr != other_attr:
            diffs.append(f'Values not equal -- {name}: self={self_attr!r}, other={other_attr!r}')
            if fail_early:
                return diffs
    return diffs

@ gnome.gnomeobject.GnomeId.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.gnomeobject.GnomeId.serialize
def serialize(self, options={}):
    if 'raw_paths' not in options:
        options['raw_paths'] = True
    schema = self.__class__._schema()
    serial = schema.serialize(self, options=options)
    return serial

@ gnome.gnomeobject.GnomeId.deserialize
def deserialize(cls, json_, refs=None):
    if refs is None:
        refs = Refs()
    return cls._schema().deserialize(json_, refs=refs)

@ gnome.gnomeobject.GnomeId.save
def save(self, saveloc='.', refs=None, overwrite=True):
    if saveloc is not None:
        saveloc = os.fspath(saveloc)
    zipfile_ = None
    if saveloc is None:
        zipfile_ = zipfile.ZipFile(tempfile.SpooledTemporaryFile(prefix='gnome.', mode='w+b'), 'a', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64)
    elif os.path.isdir(saveloc):
        n = gnome.utilities.save_updater.sanitize_filename(self.name)
        saveloc = os.path.join(saveloc, n + '.gnome')
        if os.path.exists(saveloc):
            if not overwrite:
                raise ValueError()
        zipfile_ = zipfile.ZipFile(saveloc, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64)
    else:
        if not (saveloc.endswith('.zip') or saveloc.endswith('.gnome')):
            saveloc = saveloc + '.gnome'
        if not overwrite:
            if zipfile.is_zipfile(saveloc):
                zipfile_ = zipfile.ZipFile(saveloc, 'a', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64)
            else:
                raise ValueError()
        else:
            zipfile_ = zipfile.ZipFile(saveloc, 'w', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64)
    if refs is None:
        refs = Refs()
    obj_json = self._schema()._save(self, zipfile_=zipfile_, refs=refs)
    zipfile_.writestr('version.txt', SAVEFILE_VERSION)
    zipfile_.writestr('pygnome_version.txt', gnome.__version__)
    if saveloc is None:
        log.info('Returning open zipfile in memory')
        return (obj_json, zipfile_, refs)
    else:
        zipfile_.close()
        return (obj_json, saveloc, refs)

@ gnome.gnomeobject.GnomeId.load
def load(cls, saveloc='.', filename=None, refs=None):
    fp = json_ = None
    if not refs:
        refs = Refs()
    if isinstance(saveloc, str):
        if os.path.isdir(saveloc):
            update_savefile(saveloc)
            if filename:
                fn = os.path.join(saveloc, filename)
                with open(fn) as fp:
                    json_ = json.load(fp)
                return cls._schema().load(json_, saveloc=saveloc, refs=refs)
            else:
                search = os.path.join(saveloc, '*.json')
                for fn in glob.glob(search):
                    with open(fn) as fp:
                        json_ = json.load(fp)
                        if 'obj_type' in json_:
                            obj_cls = class_from_objtype(json_['obj_type'])
                            if obj_cls is cls:
                                return cls._schema().load(json_, saveloc=saveloc, refs=refs)
                raise ValueError()
        elif zipfile.is_zipfile(saveloc):
            tempdir = tempfile.mkdtemp(prefix='gnome.')
            extract_zipfile(saveloc, tempdir)
            return cls.load(saveloc=tempdir, filename=filename, refs=refs)
        else:
            with open(saveloc, 'r') as fp:
                json_ = json.load(fp)
            if 'obj_type' in json_:
                if class_from_objtype(json_['obj_type']) is not cls:
                    raise ValueError()
                else:
                    folder = os.path.dirname(saveloc)
                    return cls._schema().load(json_, saveloc=folder, refs=refs)
    elif isinstance(saveloc, zipfile.ZipFile):
        tempdir = tempfile.mkdtemp(prefix='gnome.')
        extract_zipfile(saveloc, tempdir)
        return cls.load(saveloc=tempdir, filename=filename, refs=refs)
    else:
        raise ValueError()

@ gnome.gnomeobject.Refs.__setitem__
def __setitem__(self, i, y):
    if i in self and self[i] is not y:
        raise ValueError()
    return dict.__setitem__(self, i, y)

@ func gnome.gnomeobject.class_from_objtype
def class_from_objtype(obj_type):
    if len(obj_type.split('.')) == 1:
        return
    try:
        return reduce(getattr, obj_type.split('.')[1:], gnome)
    except AttributeError:
        log.warning('{0} is not part of gnome namespace'.format(obj_type))
        raise

@ gnome.gnomeobject.AddLogger.__init__
def __init__(self, *args, **kwargs):
    kwargs.pop('json_', None)
    try:
        super(AddLogger, self).__init__(**kwargs)
    except TypeError:
        if kwargs:
            msg = '{} are invalid keyword arguments for:\n{}'.format(list(kwargs.keys()), self.__class__)
            raise TypeError()

## R2 the schema machinery serializes and deserializes every attribute of an object
@ gnome.persist.base_schema.ObjType.__init__
def __init__(self, unknown='ignore'):
    self.unknown = unknown

@ gnome.persist.base_schema.ObjType._set_unknown
def _set_unknown(self, value):
    if value not in ('ignore', 'raise', 'preserve'):
        raise ValueError()
    self._unknown = value

@ gnome.persist.base_schema.ObjType._get_unknown
def _get_unknown(self):
    return self._unknown

@ gnome.persist.base_schema.ObjType.cstruct_children
def cstruct_children(self, node, cstruct):
    if cstruct is None:
        value = {}
    else:
        value = self._validate(node, cstruct)
    children = []
    for subnode in node.children:
        name = subnode.name
        subval = value.get(name, required)
        if subval is required:
            subval = subnode.serialize(null)
        children.append(subval)
    return children

@ gnome.persist.base_schema.ObjType._impl
def _impl(self, node, value, callback):
    error = None
    result = {}
    for _num, subnode in enumerate(node.children):
        name = subnode.name
        subval = None
        if self.unknown == 'ignore':
            subval = value.get(name, None)
        else:
            subval = value.pop(name, None)
        if subval is None:
            if subnode.missing == drop:
                continue
            sub_result = subnode.missing
        elif subval is null:
            if subnode.default == drop:
                continue
            sub_result = subnode.default if subnode.default is not null else None
        else:
            sub_result = callback(subnode, subval)
        result[name] = sub_result
    if self.unknown == 'raise':
        if value:
            raise UnsupportedFields()
    elif self.unknown == 'preserve':
        result.update(value)
    if error is not None:
        raise error
    return result

@ gnome.persist.base_schema.ObjType._ser
def _ser(self, node, value, options=None):
    dict_ = None
    try:
        if hasattr(value, 'to_dict'):
            dict_ = value.to_dict('webapi')
        else:
            raise TypeError()
    except Exception as e:
        raise e
    return dict_

@ gnome.persist.base_schema.ObjType.serialize
def serialize(self, node, appstruct, options=None):

    def callback(subnode, subappstruct):
        if isinstance(subnode.typ, (Sequence, OrderedCollectionType)) and isinstance(subnode.children[0], ObjTypeSchema):
            scalar = hasattr(subnode.typ, 'accept_scalar') and subnode.typ.accept_scalar
            return subnode.typ._impl(subnode, subappstruct, callback, scalar)
        else:
            try:
                return subnode.serialize(subappstruct, options=options)
            except TypeError as e:
                if 'unexpected keyword argument' in str(e):
                    return subnode.serialize(subappstruct)
                else:
                    raise e
    value = self._ser(node, appstruct, options=options)
    return self._impl(node, value, callback)

@ gnome.persist.base_schema.ObjType._deser
def _deser(self, node, value, refs):
    if value is None:
        return None
    if isinstance(value, dict) and 'obj_type' in value:
        id_ = value.get('id', None)
        if id_ not in refs or id_ is None:
            obj_type = class_from_objtype(value['obj_type'])
            obj = obj_type.new_from_dict(value)
            log.info(f'Created new {obj.obj_type} object {obj.name}')
            node.register_refs(node, obj, refs)
            if id_ is None:
                id_ = obj.id
            refs[id_] = obj
        return refs[id_]
    else:
        raise TypeError()

@ gnome.persist.base_schema.ObjType.deserialize
def deserialize(self, node, cstruct, refs):
    if cstruct is None:
        return None

    def callback(subnode, subcstruct):
        if subnode.typ.__class__ is ObjType:
            return subnode.deserialize(subcstruct, refs)
        elif isinstance(subnode.typ, (Sequence, OrderedCollectionType)) and isinstance(subnode.children[0], ObjTypeSchema):
            scalar = hasattr(subnode.typ, 'accept_scalar') and subnode.typ.accept_scalar
            return subnode.typ._impl(subnode, subcstruct, callback, scalar)
        elif subnode.schema_type is Tuple:
            return subnode.typ._impl(subnode, subcstruct, callback)
        else:
            return subnode.deserialize(subcstruct)
    if 'id' in cstruct and cstruct['id'] in refs:
        id_ = cstruct['id']
        try:
            log.info(refs[id_].name)
        except Exception as e:
            log.warning('Could not log object name: ' + e.msg)
        updated = refs[id_].update_from_dict(cstruct)
        if updated:
            log.info('Updated object {0} from json'.format(refs[id_].name))
        return refs[id_]
    else:
        result = self._impl(node, cstruct, callback)
    return self._deser(node, result, refs)

@ gnome.persist.base_schema.ObjType.flatten
def flatten(self, node, appstruct, prefix='', listitem=False):
    result = {}
    if listitem:
        selfprefix = prefix
    elif node.name:
        selfprefix = '{}{}.'.format(prefix, node.name)
    else:
        selfprefix = prefix
    for subnode in node.children:
        name = subnode.name
        substruct = appstruct.get(name, None)
        result.update(subnode.typ.flatten(subnode, substruct, prefix=selfprefix))
    return result

@ gnome.persist.base_schema.ObjType.unflatten
def unflatten(self, node, paths, fstruct):
    return super(ObjType, self).unflatten(node, paths, fstruct)

@ gnome.persist.base_schema.ObjType.set_value
def set_value(self, node, appstruct, path, value):
    if '.' in path:
        next_name, rest = path.split('.', 1)
        next_node = node[next_name]
        next_appstruct = appstruct[next_name]
        appstruct[next_name] = next_node.typ.set_value(next_node, next_appstruct, rest, value)
    else:
        appstruct[path] = value
    return appstruct

@ gnome.persist.base_schema.ObjType.get_value
def get_value(self, node, appstruct, path):
    if '.' in path:
        name, rest = path.split('.', 1)
        next_node = node[name]
        return next_node.typ.get_value(next_node, appstruct[name], rest)
    return appstruct[path]

@ gnome.persist.base_schema.ObjType._prepare_save
def _prepare_save(self, node, raw_object, saveloc, refs):
    if hasattr(raw_object, 'to_dict'):
        dict_ = raw_object.to_dict('save')
        for k in dict_.keys():
            if dict_[k] is None:
                dict_[k] = null
        return dict_
    else:
        raise TypeError()

@ gnome.persist.base_schema.ObjType._save
def _save(self, node, json_, zipfile_, refs):
    if json_['id'] in refs:
        fname = refs[json_['id']]
    else:
        fname = str(json_['name']) + '.json'
        fname = gen_unique_filename(fname, zipfile_)
        refs[json_['id']] = fname
    savable_attrs = node.get_nodes_by_attr('save')
    for k in list(json_.keys()):
        subnode = node.get(k)
        t2 = hasattr(subnode, 'save') and subnode.save is False
        t3 = k not in savable_attrs
        if t2 and t3 and (k in json_):
            json_.pop(k)
    refd_names = node.get_nodes_by_attr('save_reference')
    for n in refd_names:
        if n in json_:
            if json_[n] is None:
                continue
            elif isinstance(json_[n], list):
                for i, subjson in enumerate(json_[n]):
                    refname = subjson['name'] + '.json'
                    if subjson['id'] in refs:
                        refname = refs[subjson['id']]
                    json_[n][i] = refname
            else:
                refname = json_[n]['name'] + '.json'
                if json_[n]['id'] in refs:
                    refname = refs[json_[n]['id']]
                json_[n] = refname
    datafiles = [d for d in node.get_nodes_by_attr('isdatafile') if d in json_]
    for d in datafiles:
        if json_[d] is None:
            continue
        elif isinstance(json_[d], str):
            json_[d] = self._process_supporting_file(json_[d], zipfile_)
        elif isinstance(json_[d], abc.Iterable):
            for i, filename in enumerate(json_[d]):
                json_[d][i] = self._process_supporting_file(filename, zipfile_)
    if fname not in zipfile_.namelist():
        zipfile_.writestr(fname, json.dumps(json_, indent=True))
    return json_

@ gnome.persist.base_schema.ObjType.save
def save(self, node, appstruct, zipfile_, refs):

    def callback(subnode, subappstruct):
        if not hasattr(subnode, '_save'):
            if isinstance(subnode.typ, (Sequence, OrderedCollectionType)) and isinstance(subnode.children[0], ObjTypeSchema):
                scalar = hasattr(subnode.typ, 'accept_scalar') and subnode.typ.accept_scalar
                return subnode.typ._impl(subnode, subappstruct, callback, scalar)
            elif subnode.schema_type is Tuple:
                return subnode.typ._impl(subnode, subappstruct, callback)
            else:
                return subnode.serialize(subappstruct)
        elif subnode.save is True:
            return subnode._save(subappstruct, zipfile_=zipfile_, refs=refs)
        else:
            logging.info('skipped {0}'.format(subnode))
    dict_ = self._prepare_save(node, appstruct, zipfile_, refs)
    preprocessed_json = self._impl(node, dict_, callback)
    return self._save(node, preprocessed_json, zipfile_, refs)

@ gnome.persist.base_schema.ObjType._process_supporting_file
def _process_supporting_file(self, raw_path, zipfile_):
    d_fname = os.path.split(raw_path)[1]
    if d_fname not in zipfile_.namelist():
        zipfile_.write(raw_path, d_fname)
    elif not same_contents(raw_path, zipfile_.getinfo(d_fname)):
        d_fname = gen_unique_filename(d_fname, zipfile_)
        zipfile_.write(raw_path, d_fname)
    return d_fname

@ gnome.persist.base_schema.ObjType.load
def load(self, node, cstruct, saveloc, refs):

    def callback(subnode, subcstruct):
        if not hasattr(subnode, 'load'):
            if isinstance(subnode.typ, (Sequence, OrderedCollectionType)) and isinstance(subnode.children[0], ObjTypeSchema):
                scalar = hasattr(subnode.typ, 'accept_scalar') and subnode.typ.accept_scalar
                return subnode.typ._impl(subnode, subcstruct, callback, scalar)
            elif subnode.schema_type is Tuple:
                return subnode.typ._impl(subnode, subcstruct, callback)
            else:
                return subnode.deserialize(subcstruct)
        else:
            return subnode.load(subcstruct, saveloc=saveloc, refs=refs)
    hydrated_json = self.hydrate_json(node, cstruct, saveloc, refs)
    dict_ = self._impl(node, hydrated_json, callback)
    return self._deser(node, dict_, refs)

@ gnome.persist.base_schema.ObjType.hydrate_json
def hydrate_json(self, node, cstruct, saveloc, refs):
    refd_attrs = [r for r in node.get_nodes_by_attr('save_reference') if r in cstruct]
    for r in refd_attrs:
        if isinstance(cstruct[r], list):
            for i, fn in enumerate(cstruct[r]):
                if isinstance(fn, dict):
                    if 'id' in fn:
                        fn = fn['id']
                        cstruct[r][i] = self._load_json_from_file(fn, saveloc)
                        log.info('Loaded json from {0}'.format(fn))
                        cstruct[r][i]['id'] = fn
                    else:
                        pass
                else:
                    cstruct[r][i] = self._load_json_from_file(fn, saveloc)
                    log.info('Loaded json from {0}'.format(fn))
                    cstruct[r][i]['id'] = fn
        else:
            fn = cstruct[r]
            if isinstance(fn, dict):
                cstruct[r]['id'] = cstruct.get('name', '{}.{}'.format(cstruct.get('json_'), r))
            elif fn is not None:
                cstruct[r] = self._load_json_from_file(fn, saveloc)
                log.info('Loaded json from {0}'.format(fn))
                cstruct[r]['id'] = fn
    tmpdir = None
    datafiles = [d for d in node.get_nodes_by_attr('isdatafile') if d in cstruct]
    if len(datafiles) > 0:
        tmpdir = tempfile.mkdtemp(prefix='gnome.')
    for d in datafiles:
        if isinstance(cstruct[d], str):
            cstruct[d] = self._load_supporting_file(cstruct[d], saveloc, tmpdir)
            log.info('Extracted file {0}'.format(cstruct[d]))
        elif isinstance(cstruct[d], abc.Iterable):
            for i, filename in enumerate(cstruct[d]):
                cstruct[d][i] = self._load_supporting_file(filename, saveloc, tmpdir)
    return cstruct

@ gnome.persist.base_schema.ObjType._load_supporting_file
def _load_supporting_file(self, filename, saveloc, tmpdir):
    if filename is None:
        return
    if isinstance(saveloc, zipfile.ZipFile):
        dirname = os.path.dirname(saveloc.fp.name)
        if not os.path.exists(os.path.join(dirname, filename)):
            saveloc.extract(filename, dirname)
            return os.path.join(dirname, filename)
        else:
            return os.path.join(dirname, filename)
    elif os.path.exists(os.path.join(saveloc, filename)):
        return os.path.join(saveloc, filename)
    elif os.path.exists(filename):
        return filename
    else:
        return filename

@ gnome.persist.base_schema.ObjType._load_json_from_file
def _load_json_from_file(self, fname, saveloc):
    if fname is None:
        return
    fp = None
    if isinstance(saveloc, zipfile.ZipFile):
        fp = saveloc.open(fname)
    else:
        fname = os.path.join(saveloc, fname)
        fp = open(fname)
    return json.load(fp)

@ gnome.persist.base_schema.ObjTypeSchema.__init__
def __init__(self, *args, **kwargs):
    super(ObjTypeSchema, self).__init__(*args, **kwargs)
    for c in self.children:
        for k, v in self._colander_defaults.items():
            if not hasattr(c, k):
                setattr(c, k, v)
            elif hasattr(c, k) and hasattr(c.__class__, k) and (getattr(c, k) is getattr(c.__class__, k)):
                setattr(c, k, v)
        if c.read_only and c.update:
            c.update = False

@ gnome.persist.base_schema.ObjTypeSchema.serialize
def serialize(self, appstruct=None, options={}):
    return self.typ.serialize(self, appstruct, options=options)

@ gnome.persist.base_schema.ObjTypeSchema.deserialize
def deserialize(self, cstruct=None, refs=None):
    if refs is None:
        refs = Refs()
    appstruct = self.typ.deserialize(self, cstruct, refs=refs)
    return appstruct

@ gnome.persist.base_schema.ObjTypeSchema._save
def _save(self, obj, zipfile_=None, refs=None):
    if obj is None:
        raise ValueError()
    if obj._schema is not self.__class__:
        raise TypeError()
    if zipfile is None:
        raise ValueError()
    if refs is None:
        refs = Refs()
    obj_json = self.typ.save(self, obj, zipfile_, refs)
    return obj_json

@ gnome.persist.base_schema.ObjTypeSchema.load
def load(self, obj_json, saveloc=None, refs=None):
    if obj_json is None:
        raise ValueError()
    cls = class_from_objtype(obj_json['obj_type'])
    if cls._schema is not self.__class__:
        raise TypeError()
    if zipfile is None:
        raise ValueError()
    obj = self.typ.load(self, obj_json, saveloc, refs)
    return obj

@ gnome.persist.base_schema.ObjTypeSchema.get_nodes_by_attr
def get_nodes_by_attr(self, attr):
    if attr == 'all':
        return [n.name for n in self.children]
    else:
        names = [n.name for n in [c for c in self.children if hasattr(c, attr) and getattr(c, attr)]]
        return names

@ gnome.persist.base_schema.ObjTypeSchema.register_refs
def register_refs(node, subappstruct, refs):
    if node.schema_type in (Sequence, OrderedCollectionType) and isinstance(node.children[0], ObjTypeSchema):
        [subitem._schema.register_refs(subitem._schema(), subitem, refs) for subitem in subappstruct]
    if not isinstance(node, ObjTypeSchema) or subappstruct is None:
        return
    if subappstruct.id not in refs:
        refs[subappstruct.id] = subappstruct
    names = node.get_nodes_by_attr('all')
    for n in names:
        subappstruct._schema.register_refs(subappstruct._schema().get(n), getattr(subappstruct, n), refs)

@ gnome.persist.base_schema.ObjTypeSchema.process_subnode
def process_subnode(subnode, appstruct, subappstruct, subname, cstruct, subcstruct, refs):
    if subnode.schema_type is ObjType:
        if subcstruct is None:
            return None
        r = refs.get(subcstruct.get('id', None), None)
        if r is None:
            r = subnode.deserialize(subcstruct, refs=refs)
            refs[r.id] = r
            return r
        else:
            r.update_from_dict(subcstruct, refs=refs)
            return r
    elif subnode.schema_type is Sequence and isinstance(subnode.children[0], ObjTypeSchema):
        if subappstruct is None:
            subappstruct = []
        else:
            del subappstruct[:]
        for subitem in subcstruct:
            subappstruct.append(ObjTypeSchema.process_subnode(subnode.children[0], appstruct, subappstruct, subname, cstruct, subitem, refs))
        return subappstruct
    elif subnode.schema_type is OrderedCollectionType and isinstance(subnode.children[0], ObjTypeSchema):
        if subappstruct is not None:
            subappstruct.clear()
        else:
            raise ValueError()
        for subitem in subcstruct:
            subappstruct.add(ObjTypeSchema.process_subnode(subnode.children[0], appstruct, subappstruct, subname, cstruct, subitem, refs))
        return subappstruct
    else:
        return subnode.deserialize(subcstruct)

@ gnome.persist.base_schema.GeneralGnomeObjectSchema.__init__
def __init__(self, acceptable_schemas=None, **kwargs):
    if acceptable_schemas is None:
        raise ValueError()
    self.acceptable_schemas = acceptable_schemas
    super(GeneralGnomeObjectSchema, self).__init__(**kwargs)

@ gnome.persist.base_schema.GeneralGnomeObjectSchema.validate_input_schema
def validate_input_schema(self, obj_or_json):
    if type(obj_or_json) is dict:
        json_ = obj_or_json
        obj_type = class_from_objtype(json_['obj_type'])
        schema = obj_type._schema
    else:
        obj = obj_or_json
        obj_type = obj.__class__
        schema = obj.__class__._schema
    for s in self.acceptable_schemas:
        if schema is s or issubclass(schema, s):
            return schema()
    raise TypeError()

@ gnome.persist.base_schema.GeneralGnomeObjectSchema.serialize
def serialize(self, appstruct=None, options=None):
    substitute_schema = self.validate_input_schema(appstruct)
    return substitute_schema.typ.serialize(substitute_schema, appstruct, options=options)

@ gnome.persist.base_schema.GeneralGnomeObjectSchema.deserialize
def deserialize(self, cstruct=None, refs=None):
    if refs is None:
        refs = Refs()
    substitute_schema = self.validate_input_schema(cstruct)
    return substitute_schema.typ.deserialize(substitute_schema, cstruct, refs=refs)

@ gnome.persist.base_schema.GeneralGnomeObjectSchema._save
def _save(self, obj, zipfile_=None, refs=None):
    if refs is None:
        refs = Refs()
    substitute_schema = self.validate_input_schema(obj)
    return substitute_schema.typ.save(substitute_schema, obj, zipfile_=zipfile_, refs=refs)

@ gnome.persist.base_schema.GeneralGnomeObjectSchema.load
def load(self, obj_json, saveloc=None, refs=None):
    if refs is None:
        refs = Refs()
    substitute_schema = self.validate_input_schema(obj_json)
    return substitute_schema.typ.load(substitute_schema, obj_json, saveloc=saveloc, refs=refs)

@ gnome.persist.base_schema.FeatureCollectionSchema.serialize
def serialize(self, appstruct):
    assert isinstance(appstruct, geojson.FeatureCollection)
    return appstruct.__geo_interface__

@ gnome.persist.base_schema.FeatureCollectionSchema.deserialize
def deserialize(self, cstruct):
    if isinstance(cstruct, str):
        return geojson.loads(cstruct)
    else:
        return geojson.loads(geojson.dumps(cstruct))

@ gnome.persist.base_schema.FeatureSchema.serialize
def serialize(self, appstruct):
    assert isinstance(appstruct, geojson.Feature)
    return appstruct.__geo_interface__

@ gnome.persist.base_schema.FeatureSchema.deserialize
def deserialize(self, cstruct):
    assert isinstance(cstruct, str)
    return geojson.loads(cstruct)

@ gnome.persist.base_schema.PolygonSetSchema.serialize
def serialize(self, appstruct):
    appstruct = [poly.tolist() for poly in appstruct]
    return super(PolygonSetSchema, self).serialize(appstruct)

@ gnome.persist.base_schema.PolygonSetSchema.deserialize
def deserialize(self, cstruct):
    if cstruct is None:
        return None
    else:
        appstruct = super(PolygonSetSchema, self).deserialize(cstruct)
        if len(appstruct) == 0:
            return None
        ps = PolygonSet()
        for poly in appstruct:
            ps.append(poly)
        return ps

@ func gnome.persist.base_schema.get_file_name_ext
def get_file_name_ext(filename_in):
    base_name = os.path.basename(filename_in)
    file_name, extension = os.path.splitext(base_name)
    return (file_name, extension)

@ func gnome.persist.base_schema.sanitize_string
def sanitize_string(s):
    return re.sub('[/\\\\<>:"|?*$]', '_', s)

@ func gnome.persist.base_schema.same_contents
def same_contents(path, zipinfo):
    if os.path.getsize(path) != zipinfo.file_size:
        return False
    crc = 0
    with open(path, 'rb') as fp:
        for chunk in iter(lambda: fp.read(1 << 20), b''):
            crc = zlib.crc32(chunk, crc)
    return crc == zipinfo.CRC

@ func gnome.persist.base_schema.gen_unique_filename
def gen_unique_filename(filename_in, zipfile_):
    filename_in = sanitize_string(filename_in)
    existing_files = set(zipfile_.namelist())
    file_name, extension = get_file_name_ext(filename_in)
    new_fn = file_name + extension
    for i in range(255):
        if new_fn not in existing_files:
            return new_fn
        else:
            new_fn = file_name + ' (' + str(i) + ')' + extension
    raise ValueError()

## R3 values survive conversion to and from their saved form, and invalid ones are rejected
@ gnome.persist.extend_colander.UnknownMappingSchema.schema_type
def schema_type(self, **kw):
    return Mapping(unknown='preserve')

@ gnome.persist.extend_colander.LocalDateTime.__init__
def __init__(self, *args, **kwargs):
    kwargs['default_tzinfo'] = kwargs.get('default_tzinfo', None)
    super(LocalDateTime, self).__init__(*args, **kwargs)

@ gnome.persist.extend_colander.LocalDateTime.strip_timezone
def strip_timezone(self, _datetime):
    if _datetime and isinstance(_datetime, (datetime.datetime, datetime.date)):
        _datetime = _datetime.replace(tzinfo=None)
    return _datetime

@ gnome.persist.extend_colander.LocalDateTime.serialize
def serialize(self, node, appstruct):
    if isinstance(appstruct, datetime.datetime):
        appstruct = self.strip_timezone(appstruct)
        return super(LocalDateTime, self).serialize(node, appstruct)
    elif isinstance(appstruct, (inf_datetime.InfTime, inf_datetime.MinusInfTime)):
        return appstruct.isoformat()

@ gnome.persist.extend_colander.LocalDateTime.deserialize
def deserialize(self, node, cstruct):
    if cstruct in ('inf', '-inf'):
        return inf_datetime.InfDateTime(cstruct)
    else:
        dt = super(LocalDateTime, self).deserialize(node, cstruct)
        return self.strip_timezone(dt)

@ gnome.persist.extend_colander.DefaultTuple.serialize
def serialize(self, node, appstruct):
    items = super(DefaultTuple, self).serialize(node, appstruct)
    if items is null and node.children:
        items = tuple([field.default for field in node.children])
    return items

@ gnome.persist.extend_colander.NumpyFixedLen.serialize
def serialize(self, node, appstruct):
    if appstruct is null:
        return null
    return super(NumpyFixedLen, self).serialize(node, appstruct.tolist())

@ gnome.persist.extend_colander.NumpyFixedLen.deserialize
def deserialize(self, node, cstruct):
    if cstruct is null:
        return null
    return np.array(cstruct, dtype=np.float64)

@ gnome.persist.extend_colander.NumpyArray.serialize
def serialize(self, node, appstruct):
    if appstruct is null:
        return null
    return super(NumpyArray, self).serialize(node, np.array(appstruct).tolist())

@ gnome.persist.extend_colander.NumpyArray.deserialize
def deserialize(self, node, cstruct):
    if cstruct is null:
        return null
    return np.array(cstruct, dtype=np.float64)

@ gnome.persist.extend_colander.DatetimeValue2dArray.serialize
def serialize(self, node, appstruct):
    if appstruct is null:
        return null
    series = list(zip(appstruct['time'].astype(object), appstruct['value'].tolist()))
    return super(DatetimeValue2dArray, self).serialize(node, series)

@ gnome.persist.extend_colander.DatetimeValue2dArray.deserialize
def deserialize(self, node, cstruct):
    if cstruct is null:
        return null
    items = super(DatetimeValue2dArray, self).deserialize(node, cstruct, accept_scalar=False)
    timeseries = np.array(items, dtype=gnome.basic_types.datetime_value_2d)
    return timeseries

@ gnome.persist.extend_colander.DatetimeValue1dArray.serialize
def serialize(self, node, appstruct):
    if appstruct is null:
        return null
    appstruct = list(zip(appstruct['time'].astype(object), appstruct['value']))
    return super(DatetimeValue1dArray, self).serialize(node, appstruct)

@ gnome.persist.extend_colander.DatetimeValue1dArray.deserialize
def deserialize(self, node, cstruct):
    if cstruct is null:
        return null
    items = super(DatetimeValue1dArray, self).deserialize(node, cstruct, accept_scalar=False)
    timeseries = np.array(items, dtype=gnome.basic_types.datetime_value_1d)
    return timeseries

@ gnome.persist.extend_colander.TimeDelta.serialize
def serialize(self, node, appstruct):
    if appstruct is not null:
        return super(TimeDelta, self).serialize(node, appstruct.total_seconds())
    else:
        return super(TimeDelta, self).serialize(node, null)

@ gnome.persist.extend_colander.TimeDelta.deserialize
def deserialize(self, *args, **kwargs):
    sec = super(TimeDelta, self).deserialize(*args, **kwargs)
    if sec is not null:
        return datetime.timedelta(seconds=sec)
    else:
        return sec

@ gnome.persist.extend_colander.OrderedCollectionType._validate
def _validate(self, node, value, accept_scalar):
    if hasattr(value, '__iter__') and (not isinstance(value, str)):
        return list(value)
    if accept_scalar:
        return [value]
    else:
        raise Invalid()

@ gnome.persist.extend_colander.FilenameSchema.__init__
def __init__(self, *args, **kwargs):
    kwargs['typ'] = Sequence(accept_scalar=True)
    super(FilenameSchema, self).__init__(SchemaNode(String()), *args, **kwargs)

@ gnome.persist.extend_colander.FilenameSchema.serialize
def serialize(self, appstruct, options=None):
    rv = super(FilenameSchema, self).serialize(appstruct)
    if rv and options is not None:
        if not options.get('raw_paths', True):
            for i, filename in enumerate(rv):
                rv[i] = os.path.split(filename)[1]
    if rv and len(rv) == 1:
        return rv[0]
    return rv

@ gnome.persist.extend_colander.FilenameSchema.deserialize
def deserialize(self, cstruct):
    if cstruct is None or cstruct is null:
        return None
    rv = super(FilenameSchema, self).deserialize(cstruct)
    if len(rv) == 1:
        return rv[0]
    else:
        return rv

@ gnome.persist.extend_colander.NumpyArraySchema.__init__
def __init__(self, *args, **kwargs):
    self.typ = np.float64
    self.dtype = kwargs.pop('dtype', np.float64)
    self.precision = kwargs.pop('precision', 8)

@ gnome.persist.extend_colander.NumpyArraySchema.serialize
def serialize(self, appstruct):
    if not isinstance(appstruct, (np.ndarray, list, tuple)):
        raise ValueError()
    return round_sf_array(appstruct, self.precision).astype(self.dtype, copy=False).tolist()

@ gnome.persist.extend_colander.NumpyArraySchema.deserialize
def deserialize(self, cstruct):
    return np.array(cstruct, dtype=self.dtype)

@ func gnome.persist.validators.positive
def positive(node, value):
    if value <= 0:
        raise Invalid()

@ func gnome.persist.validators.convertible_to_seconds
def convertible_to_seconds(node, value):
    if isinstance(value, MinusInfTime) or isinstance(value, InfTime):
        return
    try:
        time.mktime(value.timetuple())
    except (OverflowError, ValueError):
        raise Invalid()

@ func gnome.persist.validators.no_duplicate_datetime
def no_duplicate_datetime(node, values):
    try:
        unique = np.unique(values['time'])
    except AttributeError:
        return
    num_dups = len(values) - len(unique)
    if num_dups:
        raise Invalid()

@ func gnome.persist.validators.ascending_datetime
def ascending_datetime(node, values):
    if np.any(values['time'][np.argsort(values['time'])] != values['time']):
        raise Invalid()

@ func gnome.persist.monkey_patch_colander.apply
def apply():
    pass
    serialize_boolean = getattr(colander.Boolean, 'serialize')

    def patched_boolean_serialization(*args, **kwds):
        result = serialize_boolean(*args, **kwds)
        if result is not colander.null:
            result = result == 'true'
        return result
    setattr(colander.Boolean, 'serialize', patched_boolean_serialization)
    serialize_float = getattr(colander.Float, 'serialize')

    def patched_float_serialization(*args, **kwds):
        result = serialize_float(*args, **kwds)
        if result is not colander.null:
            result = float(result)
        return result
    setattr(colander.Float, 'serialize', patched_float_serialization)
    serialize_int = getattr(colander.Int, 'serialize')

    def patched_int_serialization(*args, **kwds):
        result = serialize_int(*args, **kwds)
        if result is not colander.null:
            result = int(result)
        return result
    setattr(colander.Int, 'serialize', patched_int_serialization)

## R4 classes with their own conversion keep every attribute
@ gnome.model.Model.load_savefile
def load_savefile(cls, filename):
    model = cls.load(filename)
    if not isinstance(model, cls):
        raise ValueError()
    else:
        return model

@ gnome.model.Model.update_from_dict
def update_from_dict(self, dict_, refs=None):
    if refs is None:
        refs = Refs()
        self._schema.register_refs(self._schema(), self, refs)
    updatable = self._schema().get_nodes_by_attr('update')
    updated = False
    attrs = {k: v for k, v in dict_.items() if k in updatable}
    for name in updatable:
        node = self._schema().get(name)
        if name in attrs:
            if name != 'spills':
                attrs[name] = self._schema.process_subnode(node, self, getattr(self, name), name, attrs, attrs[name], refs)
                if attrs[name] is drop:
                    del attrs[name]
            else:
                oldspills = OrderedCollection(self.spills._spill_container.spills[:], dtype=self.spills._spill_container.spills.dtype)
                new_spills = ObjTypeSchema.process_subnode(node, self, self.spills._spill_container.spills, 'spills', attrs, attrs[name], refs)
                if not updated and self._attr_changed(oldspills, new_spills):
                    updated = True
                attrs.pop(name)
    for k in updatable:
        if hasattr(self, k) and k in attrs:
            if not updated and self._attr_changed(getattr(self, k), attrs[k]):
                updated = True
            try:
                setattr(self, k, attrs[k])
            except AttributeError:
                raise
            attrs.pop(k)
    for k, v in list(attrs.items()):
        if hasattr(self, k):
            if not updated and self._attr_changed(getattr(self, k), v):
                updated = True
            try:
                setattr(self, k, v)
            except AttributeError:
                raise
    return updated

@ gnome.model.Model.__eq__ | nosuper=True
def __eq__(self, other):
    check = super(Model, self).__eq__(other)
    if check:
        if not isinstance(self.spills, other.spills.__class__):
            return False
        if self.spills != other.spills:
            return False
    return check

@ gnome.model.Model.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.model.Model.save | nosuper=True
def save(self, saveloc='.', refs=None, overwrite=True):
    json_, saveloc, refs = super(Model, self).save(saveloc=saveloc, refs=refs, overwrite=overwrite)
    if self.current_time_step > -1:
        self._save_spill_data(saveloc, 'spills_data_arrays.nc')
    return (json_, saveloc, refs)

@ gnome.model.Model.load | nosuper=True
def load(cls, saveloc='.', filename=None, refs=None):
    try:
        saveloc = os.fspath(saveloc)
        filename = os.fspath(filename)
    except TypeError:
        pass
    new_model = super(Model, cls).load(saveloc=saveloc, filename=filename, refs=refs)
    return new_model

@ gnome.model.Model._save_spill_data
def _save_spill_data(self, saveloc, nc_filename):
    nc_out = NetCDFOutput(nc_filename, which_data='all', cache=self._cache)
    nc_out.prepare_for_model_run(model_start_time=self.start_time, uncertain=self.uncertain, spills=self.spills)
    nc_out.write_output(self.current_time_step)
    if isinstance(saveloc, zipfile.ZipFile):
        saveloc.write(nc_filename, nc_filename)
        if self.uncertain:
            u_file = nc_out.uncertain_filename
            saveloc.write(u_file, os.path.split(u_file)[1])
    elif zipfile.is_zipfile(saveloc):
        with zipfile.ZipFile(saveloc, 'a', compression=zipfile.ZIP_DEFLATED, allowZip64=allowzip64) as z:
            z.write(nc_filename, nc_filename)
            if self.uncertain:
                u_file = nc_out.uncertain_filename
                z.write(u_file, os.path.split(u_file)[1])
    if self.uncertain:
        os.remove(u_file)
    os.remove(nc_filename)

@ gnome.utilities.time_utils.TZOffsetSchema.serialize | nosuper=True
def serialize(self, appstruct):
    if appstruct is not null:
        dict_ = {'title': appstruct.title, 'offset': appstruct.offset}
        return dict_
    else:
        return super().serialize(null)

@ gnome.utilities.time_utils.TZOffsetSchema.deserialize | nosuper=True
def deserialize(self, cstruct=null):
    dict_ = super().deserialize(cstruct)
    if cstruct is not null:
        return TZOffset(**dict_)
    else:
        return null

@ gnome.utilities.appearance.AppearanceSchema.__init__ | nosuper=True
def __init__(self, unknown='preserve', *args, **kwargs):
    super(AppearanceSchema, self).__init__(*args, **kwargs)
    self.typ = ObjType(unknown)

@ gnome.utilities.appearance.Appearance.__init__ | nosuper=True
def __init__(self, **kwargs):
    keys = Appearance._schema().get_nodes_by_attr('all')
    k2 = dict([(key, kwargs.get(key)) for key in keys])
    read_only_attrs = Appearance._schema().get_nodes_by_attr('read_only')
    for n in read_only_attrs:
        k2.pop(n, None)
    super(Appearance, self).__init__(**k2)
    for k, v in kwargs.items():
        setattr(self, k, v)
    self.appearance_keys = list(kwargs.keys())

@ gnome.utilities.appearance.Appearance.update_from_dict | nosuper=True
def update_from_dict(self, dict_, refs=None):
    super(Appearance, self).update_from_dict(dict_, refs=refs)
    updatable = self._schema().get_nodes_by_attr('update')
    read_only_attrs = self._schema().get_nodes_by_attr('read_only')
    for name in updatable + read_only_attrs:
        dict_.pop(name, None)
    for k, v in dict_.items():
        setattr(self, k, v)
        if k not in self.appearance_keys:
            self.appearance_keys.append(k)

@ gnome.utilities.appearance.Appearance.to_dict | nosuper=True
def to_dict(self, json_=None):
    data = super(Appearance, self).to_dict(json_=json_)
    for k in self.appearance_keys:
        data[k] = getattr(self, k)
    return data

@ gnome.utilities.appearance.Appearance.__getattr__
def __getattr__(self, att):
    return None

@ gnome.utilities.appearance.SpillAppearance.__init__ | nosuper=True
def __init__(self, colormap=None, **kwargs):
    self.colormap = colormap
    super(SpillAppearance, self).__init__(**kwargs)

@ gnome.environment.gridded_objects_base.Grid_U.to_dict | nosuper=True
def to_dict(self, json_=None):
    dict_ = super().to_dict(json_=json_)
    if 'grid_topology' in dict_:
        for k, v in dict_['grid_topology'].items():
            if isinstance(v, np.generic):
                dict_['grid_topology'][k] = v.item()
    return dict_

@ gnome.environment.gridded_objects_base.Grid_S.to_dict | nosuper=True
def to_dict(self, json_=None):
    dict_ = super().to_dict(json_=json_)
    if 'grid_topology' in dict_:
        for k, v in dict_['grid_topology'].items():
            if isinstance(v, np.generic):
                dict_['grid_topology'][k] = v.item()
    return dict_

@ gnome.environment.gridded_objects_base.Grid_U.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.Grid_S.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.Grid_R.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.PyGrid.new_from_dict
def new_from_dict(dict_):
    return PyGrid.from_netCDF(**dict_)

@ gnome.environment.gridded_objects_base.Variable.new_from_dict | nosuper=True
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    if 'data' not in dict_:
        return cls.from_netCDF(**dict_)
    return super(Variable, cls).new_from_dict(dict_)

@ gnome.environment.gridded_objects_base.Variable.save
def save(self, saveloc='.', refs=None, overwrite=True):
    return GnomeId.save(self, saveloc=saveloc, refs=refs, overwrite=overwrite)

@ gnome.environment.gridded_objects_base.DepthBase.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.L_Depth.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.ROMS_Depth.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.FVCOM_Depth.new_from_dict
def new_from_dict(cls, dict_):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    rv = cls.from_netCDF(**dict_)
    return rv

@ gnome.environment.gridded_objects_base.VectorVariable.new_from_dict | nosuper=True
def new_from_dict(cls, dict_, **kwargs):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [dict_.pop(n, None) for n in read_only_attrs]
    if not dict_.get('variables', False):
        return super(VectorVariable, cls).new_from_dict(cls.from_netCDF(**dict_).to_dict(), **kwargs)
    else:
        return super(VectorVariable, cls).new_from_dict(dict_, **kwargs)

@ gnome.environment.gridded_objects_base.VectorVariable.save
def save(self, saveloc='.', refs=None, overwrite=True):
    return GnomeId.save(self, saveloc=saveloc, refs=refs, overwrite=overwrite)

@ gnome.environment.environment_objects.FileGridCurrent.new_from_dict
def new_from_dict(cls, serial_dict):
    read_only_attrs = cls._schema().get_nodes_by_attr('read_only')
    [serial_dict.pop(n, None) for n in read_only_attrs]
    obj = cls(filename=serial_dict.get('filename'), extrapolation_is_allowed=serial_dict.get('extrapolation_is_allowed'))
    if serial_dict.get('name') is not None:
        obj.name = serial_dict['name']
    return obj

@ gnome.environment.wind.Wind.update_from_dict | nosuper=True
def update_from_dict(self, dict_, refs=None):
    if 'units' in dict_:
        self.units = dict_.pop('units')
    if 'timeseries' in dict_:
        self.timeseries = WindTimeSeriesSchema().deserialize(dict_.pop('timeseries'))
    super(Wind, self).update_from_dict(dict_, refs=refs)

@ gnome.environment.wind.Wind.__eq__ | nosuper=True
def __eq__(self, other):
    if not super(Wind, self).__eq__(other):
        return False
    if not Timeseries.__eq__(self, other):
        return False
    return True

@ gnome.outputters.netcdf.NetCDFOutput.to_dict | nosuper=True
def to_dict(self, json_=None):
    dict_ = super(NetCDFOutput, self).to_dict(json_)
    if json_ == 'save':
        dict_['filename'] = os.path.join('./', dict_['filename'])
    return dict_

@ gnome.outputters.renderer.Renderer.to_dict
def to_dict(self, json_=None):
    dict_ = Outputter.to_dict(self, json_=json_)
    dict_['map_filename'] = self._filename
    if json_ == 'save':
        dict_['output_dir'] = os.path.join('./', dict_['output_dir'])
    return dict_

@ gnome.outputters.weathering.WeatheringOutput.__getstate__
def __getstate__(self):
    odict = self.__dict__.copy()
    del odict['cache']
    return odict

@ gnome.outputters.binary.BinaryOutput.__getstate__
def __getstate__(self):
    odict = self.__dict__.copy()
    del odict['cache']
    return odict

@ gnome.spills.release.PolygonRelease.new_from_dict | nosuper=True
def new_from_dict(cls, dict_):
    if 'filename' in dict_ and 'features' in dict_:
        dict_.pop('filename')
    return super(PolygonRelease, cls).new_from_dict(dict_)

@ gnome.spills.release.NESDISRelease.to_dict | nosuper=True
def to_dict(self, json_=None):
    dct = super(NESDISRelease, self).to_dict(json_=json_)
    if json_ == 'save':
        fc = geojson.FeatureCollection(self.polygons)
        fc.thicknesses = self.thicknesses
        fc.record_areas = self.record_areas
        fc.oil_types = self.oil_types
        dct['json_file'] = geojson.dumps(fc)
    return dct

@ gnome.spills.gnome_oil.GnomeOil.__deepcopy__
def __deepcopy__(self, memo):
    return GnomeOil.deserialize(self.serialize())

@ gnome.spills.gnome_oil.GnomeOil.to_dict | nosuper=True
def to_dict(self, json_=None):
    json_ = super(GnomeOil, self).to_dict(json_=json_)
    return json_

@ gnome.spills.initializers.InitWindages.to_dict
def to_dict(self, json_=None):
    return InitBaseClass.to_dict(self, json_=json_)

@ gnome.maps.map.ParamMap.update_from_dict | nosuper=True
def update_from_dict(self, data, refs=None):
    if 'center' in data or 'distance' in data or 'bearing' in data or ('units' in data):
        self.build(data.pop('center', self.center), data.pop('distance', self.distance), data.pop('bearing', self.bearing), data.pop('units', self.units))
    else:
        super(ParamMap, self).update_from_dict(data, refs=refs)

@ gnome.spill_container.SpillContainerPairData.__eq__
def __eq__(self, other):
    if type(self) != type(other):
        return False
    if self.uncertain != other.uncertain:
        return False
    for sc in zip(self.items(), other.items()):
        if sc[0] != sc[1]:
            return False
    return True

@ gnome.spill_container.SpillContainerPairData.__ne__
def __ne__(self, other):
    return not self == other

@ gnome.spill_container.SpillContainerPair.to_dict
def to_dict(self):
    dict_ = {'spills': self._spill_container.spills.to_dict()}
    if self.uncertain:
        dict_.update({'uncertain_spills': self._u_spill_container.spills.to_dict()})
    return dict_

@ gnome.spill_container.SpillContainerPair.update_from_dict
def update_from_dict(self, dict_):
    l_spills = dict_['spills']
    updated = False
    if len(l_spills) != len(self):
        updated = True
    if list(self._spill_container.spills.values()) != l_spills:
        updated = True
    if updated:
        self.clear()
        if l_spills:
            self += l_spills
    return updated

@ gnome.utilities.timeseries.Timeseries.__eq__ | nosuper=True
def __eq__(self, o):
    t1 = super(Timeseries, self).__eq__(o)
    return t1 and hasattr(self, 'ossm') and np.all(self.ossm.timeseries == o.ossm.timeseries)

@ func gnome.scripting.load_model
def load_model(filename):
    return Model.load_savefile(filename)

