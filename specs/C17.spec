## R1 every step missing between the version of the save and the current one is run, in order, inside the save folder, and errors stop the update
@ func gnome.utilities.save_updater.remember_cwd
def remember_cwd(new_wd):
    curdir = os.getcwd()
    os.chdir(new_wd)
    try:
        yield
    finally:
        os.chdir(curdir)

@ func gnome.utilities.save_updater.update_savefile
def update_savefile(save_directory):
    if not isinstance(save_directory, str) or not os.path.isdir(save_directory):
        raise ValueError()
    messages = []
    errors = []
    with remember_cwd(save_directory):
        allfiles = glob.glob('*')
        if 'version.txt' in allfiles:
            with open('version.txt') as fp:
                v = int(fp.readline())
        else:
            v = 0
        for i in range(v, len(all_update_steps)):
            step = all_update_steps[i]
            messages, errors = step(messages, errors)
            if len(errors) > 0:
                for e in errors:
                    sys.stderr.write(e + '\n')
                raise ValueError()
        if len(messages) > 0:
            for m in messages:
                log.info(m)
        return True

@ const gnome.utilities.save_updater.errortypes
['Save file version not compatible with this updater. Version: {0} Updater: {1}', 'Save file does not have a version.txt', 'Failed to remove old file: {0} Error: {1}']

@ const gnome.utilities.save_updater.NON_WEATHERING_DICT
{'obj_type': 'gnome.spill.substance.NonWeatheringSubstance', 'id': 'dummy-id-from-save_updater', 'name': 'NonWeatheringSubstance_99', 'initializers': ['InitWindages_99.json'], 'is_weatherable': False, 'standard_density': 1000.0}

@ const gnome.utilities.save_updater.all_update_steps
[v0tov1, v1tov2, v2tov3, v3tov4, v4tov5]

## R2 each step rewrites exactly the entries its version changed and keeps everything else
@ func gnome.utilities.save_updater.v0tov1 | ignore_exc=False
def v0tov1(messages, errors):

    def Substance_from_ElementType(et_json, water):
        inits = et_json.get('initializers', [])
        for init in inits:
            if isinstance(init, dict):
                init['obj_type'] = init['obj_type'].replace('.elements.', '.')
        if 'substance' not in et_json:
            substance = NON_WEATHERING_DICT
            substance['initializers'] = inits
        else:
            substance = {'obj_type': 'gnome.spills.substance.GnomeOil', 'name': et_json.get('substance', 'Unknown Oil'), 'initializers': et_json.get('initializers', []), 'is_weatherable': True, 'water': water, 'id': 'v0-v1-update-id-1'}
            if isinstance(et_json.get('substance', None), dict):
                substance.update(et_json.get('substance'))
        return substance
    jsonfiles = glob.glob('*.json')
    log.debug('updating save file from v0 to v1 (Spill Refactor)')
    water_json = element_type_json = None
    spills = []
    inits = []
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_:
                if 'Water' in json_['obj_type'] and 'environment' in json_['obj_type'] and (water_json is None):
                    water_json = (fname, json_)
                if 'element_type.ElementType' in json_['obj_type'] and element_type_json is None:
                    element_type_json = (fname, json_)
                if 'gnome.spills.spill.Spill' in json_['obj_type']:
                    spills.append((fname, json_))
                if 'initializers' in json_['obj_type']:
                    inits.append((fname, json_))
    if water_json is None:
        water_json = (None, None)
    substance = None
    if element_type_json is not None:
        substance = Substance_from_ElementType(element_type_json[1], water_json[1])
        substance_fn = sanitize_filename(substance['name'] + '.json')
        fn = element_type_json[0]
        try:
            os.remove(fn)
        except Exception as e:
            err = errortypes[2].format(fn, e)
            errors.append(err)
            return (messages, errors)
    if substance is not None:
        with open(substance_fn, 'w', encoding='utf-8') as subs_file:
            json.dump(substance, subs_file, indent=4)
    for spill in spills:
        fn, sp = spill
        del sp['element_type']
        sp['substance'] = substance_fn
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(sp, fp, indent=4)
    for init in inits:
        fn, init = init
        init['obj_type'] = init['obj_type'].replace('.elements.', '.')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(init, fp, indent=4)
    with open('version.txt', 'w', encoding='utf-8') as vers_file:
        vers_file.write('1\n')
    messages.append('**Update from v0 to v1 successful**')
    return (messages, errors)

@ func gnome.utilities.save_updater.v1tov2 | ignore_exc=False
def v1tov2(messages, errors):
    log.debug('updating save file from v1 to v2 (Renaming)')
    jsonfiles = glob.glob('*.json')
    files_to_remove = []
    oils = []
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_:
                if json_['obj_type'] == 'gnome.spill.substance.GnomeOil':
                    oils.append(fname)
                    try:
                        from gnome.spills.gnome_oil import GnomeOil
                        GnomeOil(**json_)
                    except Exception:
                        log.info(f'Oil: {json_['name']} is not longer valid\nYou will need re-load an oil, which can be obtained from The ADIOS Oil Database:\nhttps://adios.orr.noaa.gov/')
                        nws = NON_WEATHERING_DICT
                        nws['initializers'] = json_['initializers']
                        with open(fname, 'w', encoding='utf-8') as fn:
                            json.dump(nws, fn, indent=4)
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_ and 'initializers' in json_:
                for wind_init in json_.pop('initializers'):
                    init_js = json.load(open(wind_init, 'r', encoding='utf-8'))
                    if 'InitWindages' in init_js['obj_type']:
                        json_['windage_range'] = init_js['windage_range']
                        json_['windage_persist'] = init_js['windage_persist']
                        json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
                        if wind_init not in files_to_remove:
                            files_to_remove.append(wind_init)
    with open('version.txt', 'w', encoding='utf-8') as vers_file:
        vers_file.write('2\n')
    for fname in files_to_remove:
        Path(fname).unlink()
    messages.append('**Update from v1 to v2 successful**')
    return (messages, errors)

@ func gnome.utilities.save_updater.v2tov3
def v2tov3(messages, errors):
    log.debug('updating save file from v2 to v3 (Renaming)')
    jsonfiles = glob.glob('*.json')
    spills = []
    movers = []
    wind_movers = []
    srs = []
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_:
                if 'gnome.spill.' in json_['obj_type']:
                    spills.append((fname, json_))
                if 'gnome.movers.current_movers.' in json_['obj_type']:
                    movers.append((fname, json_))
                if 'gnome.movers.wind_movers.' in json_['obj_type']:
                    wind_movers.append((fname, json_))
                if 'SpatialRelease' in json_['obj_type']:
                    srs.append((fname, json_))
    for fn, sp in spills:
        sp['obj_type'] = sp['obj_type'].replace('gnome.spill.', 'gnome.spills.')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(sp, fp, indent=4)
    for fn, sr in srs:
        sr['obj_type'] = sr['obj_type'].replace('SpatialRelease', 'PolygonRelease')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(sr, fp, indent=4)
    for fn, mv in movers:
        mv['obj_type'] = mv['obj_type'].replace('current_movers.', 'c_current_movers.')
        mv['obj_type'] = mv['obj_type'].replace('GridCurrentMover', 'c_GridCurrentMover')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(mv, fp, indent=4)
    for fn, mv in wind_movers:
        mv['obj_type'] = mv['obj_type'].replace('wind_movers.', 'c_wind_movers.')
        mv['obj_type'] = mv['obj_type'].replace('GridWindMover', 'c_GridWindMover')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(mv, fp, indent=4)
    with open('version.txt', 'w', encoding='utf-8') as vers_file:
        vers_file.write('3\n')
    messages.append('**Update from v2 to v3 successful**')
    return (messages, errors)

@ func gnome.utilities.save_updater.v3tov4
def v3tov4(messages, errors):
    log.debug('updating save file from v3 to v4 (Renaming)')
    jsonfiles = glob.glob('*.json')
    files_to_remove = []
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_:
                if json_['obj_type'] == 'gnome.weatherers.weathering_data.WeatheringData':
                    files_to_remove.append(fname)
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'weatherers' in json_:
                json_['weatherers'] = [item for item in json_['weatherers'] if item not in files_to_remove]
            json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
    for fname in files_to_remove:
        Path(fname).unlink()
    messages.append('**Update from v3 to v4 successful**')
    return (messages, errors)

@ func gnome.utilities.save_updater.v4tov5
def v4tov5(messages, errors):
    log.debug('updating save file from v4 to v5 (Renaming)')
    jsonfiles = glob.glob('*.json')
    movers = []
    wind_movers = []
    point_wind_movers = []
    for fname in jsonfiles:
        with open(fname, 'r', encoding='utf-8') as fn:
            json_ = json.load(fn)
            if 'obj_type' in json_:
                if 'PyCurrentMover' in json_['obj_type']:
                    movers.append((fname, json_))
                if 'PyWindMover' in json_['obj_type']:
                    wind_movers.append((fname, json_))
                if 'c_wind_movers.WindMover' in json_['obj_type']:
                    point_wind_movers.append((fname, json_))
    for fn, mv in movers:
        mv['obj_type'] = mv['obj_type'].replace('PyCurrentMover', 'CurrentMover')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(mv, fp, indent=4)
    for fn, mv in wind_movers:
        mv['obj_type'] = mv['obj_type'].replace('PyWindMover', 'WindMover')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(mv, fp, indent=4)
    for fn, mv in point_wind_movers:
        mv['obj_type'] = mv['obj_type'].replace('WindMover', 'PointWindMover')
        with open(fn, 'w', encoding='utf-8') as fp:
            json.dump(mv, fp, indent=4)
    with open('version.txt', 'w', encoding='utf-8') as vers_file:
        vers_file.write('5\n')
    messages.append('**Update from v4 to v5 successful**')
    return (messages, errors)

