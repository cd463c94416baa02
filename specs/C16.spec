## R1 a save archive is accepted only when its zip is readable, uncorrupted, within the size and compression limits and free of parent paths
@ func gnome.persist.save_load.is_savezip_valid | ignore_exc=False
def is_savezip_valid(savezip, max_json_filesize=1024 * 1024, max_compress_ratio=54):
    if not zipfile.is_zipfile(savezip):
        log.warning('{0} is not a valid zipfile'.format(savezip))
        return False
    with zipfile.ZipFile(savezip, 'r') as z:
        try:
            badfile = z.testzip()
        except Exception:
            log.warning('Failed to open or run testzip() on {0}'.format(savezip))
            return False
        if badfile is not None:
            log.warning('{0} is corrupt. rejecting zipfile'.format(badfile))
            return False
        for zi in z.filelist:
            if os.path.splitext(zi.filename)[1] == '.json' and zi.file_size > max_json_filesize:
                log.warning('Filesize of {0} is {1}. It must be less than {2}. Rejecting zipfile.'.format(zi.filename, zi.file_size, max_json_filesize))
                return False
            if zi.compress_size > 0 and zi.file_size / zi.compress_size > max_compress_ratio:
                log.warning('file compression ratio is {0}. maximum must be less than {1}. Rejecting zipfile'.format(zi.file_size / zi.compress_size, max_compress_ratio))
                return False
            if '..' in zi.filename:
                log.warning('Found ".." in {0}. Rejecting zipfile'.format(zi.filename))
                return False
    return True

## R2 extraction writes every member, and only members, as plain files inside the target folder
@ func gnome.persist.save_load.zipfile_folders
def zipfile_folders(zip_file):
    return [name for name in zip_file.namelist() if name.endswith('/') and (not name.startswith('__MACOSX'))]

@ func gnome.persist.save_load.extract_zipfile
def extract_zipfile(zip_file, to_folder='.', prefix=''):
    for name in zip_file.namelist():
        if prefix and name.find(prefix) != 0 or name.endswith('/'):
            pass
        else:
            target = os.path.join(to_folder, os.path.basename(name))
            with open(target, 'wb') as f:
                f.write(zip_file.read(name))

@ func gnome.persist.save_load.load
def load(saveloc, fname='Model.json', references=None):
    if zipfile.is_zipfile(saveloc):
        with zipfile.ZipFile(saveloc, 'r') as z:
            saveloc_dir = os.path.dirname(saveloc)
            folders = zipfile_folders(z)
            if len(folders) == 1:
                prefix = folders[0]
                extract_zipfile(z, saveloc_dir, prefix)
            elif len(folders) == 0:
                extract_zipfile(z, saveloc_dir)
            else:
                return
            saveloc = saveloc_dir
    if os.path.isdir(saveloc):
        fd = open(os.path.join(saveloc, fname), 'r', encoding='utf-8')
    elif os.path.isfile(saveloc):
        fd = open(saveloc, 'r', encoding='utf-8')
        saveloc, fname = os.path.split(saveloc)
    else:
        return
    json_data = json.loads(''.join([line.rstrip('\n') for line in fd]))
    fd.close()
    cls = class_from_objtype(json_data.pop('obj_type'))
    obj = cls.load(saveloc, fname, references)
    if obj is None:
        return
    if references:
        references.reference(obj, fname)
    return obj

@ func gnome.utilities.save_updater.extract_zipfile
def extract_zipfile(zip_file, to_folder='.'):

    def work(zf):
        folders = [name for name in zf.namelist() if name.endswith('/') and (not name.startswith('__MACOSX'))]
        prefix = None
        if len(folders) == 1:
            prefix = folders[0]
        fn_edits = {}
        for name in zf.namelist():
            if prefix and name.find(prefix) != 0 or name.endswith('/'):
                pass
            else:
                orig = os.path.basename(name)
                fn = sanitize_filename(orig)
                if orig != fn:
                    log.info('Invalid filename found: {0}'.format(orig))
                    fn_edits[orig] = fn
                target = os.path.join(to_folder, fn)
                with open(target, 'wb') as f:
                    f.write(zf.read(name))
        if len(fn_edits) > 0:
            log.info('Save file contained invalid names. Editing extracted json to maintain save file integrity.')
            for jsonfile in glob.glob(os.path.join(to_folder, '*.json')):
                contents = None
                replaced = False
                with open(jsonfile, 'r', encoding='utf-8') as jf:
                    contents = jf.read()
                    for k, v in fn_edits.items():
                        if k in contents:
                            contents = contents.replace(k, v)
                            replaced = True
                if replaced:
                    with open(jsonfile, 'w', encoding='utf-8') as jf:
                        jf.write(contents)
    if isinstance(zip_file, zipfile.ZipFile):
        work(zip_file)
    else:
        with zipfile.ZipFile(zip_file, 'r') as zf:
            work(zf)

@ func gnome.utilities.save_updater.sanitize_filename
def sanitize_filename(fname):
    return re.sub('[\\\\\\\\/*?:"<>|]', '', fname)

## R3 references name each saved object once
@ gnome.persist.save_load.Refs.__setitem__
def __setitem__(self, i, y):
    if i in self and self[i] is not y:
        raise ValueError()
    dict.__setitem__(self, i, y)

@ gnome.persist.save_load.References.__init__
def __init__(self):
    self._refs = {}

@ gnome.persist.save_load.References.__contains__
def __contains__(self, obj):
    if self.get_reference(obj):
        return True
    else:
        return False

@ getter gnome.persist.save_load.References.files
def files(self):
    return list(self._refs.keys())

@ gnome.persist.save_load.References.get_reference
def get_reference(self, obj):
    for key, item in self._refs.items():
        if item is obj:
            return key
    return None

@ gnome.persist.save_load.References._add_reference_with_name
def _add_reference_with_name(self, obj, name):
    if self.retrieve(name):
        if self.retrieve(name) is not obj:
            raise ValueError()
    elif self.get_reference(obj):
        raise ValueError()
    else:
        self._refs[name] = obj

@ gnome.persist.save_load.References.reference
def reference(self, obj, name=None):
    if name is not None:
        return self._add_reference_with_name(obj, name)
    key = self.get_reference(obj)
    if key is not None:
        return key
    key = '{0}_{1}.json'.format(obj.__class__.__name__, len(self._refs))
    self._refs[key] = obj
    return key

@ gnome.persist.save_load.References.retrieve | ignore_exc=False
def retrieve(self, ref):
    try:
        return self._refs[ref]
    except KeyError:
        return None

