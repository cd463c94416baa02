"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (python text), STUB (bool).
Applies the edits to /repo, writes seeded/ID, runs plant.sh (which undoes the edits)."""
import os, runpy, shutil, subprocess, sys, json
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['ID']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, a, b in s['EDITS']:
        p = '/repo/' + f
        t = open(p).read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(p, 'w').write(t.replace(a, b))
    stub = s.get('STUB', True)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg TZ=UTC\n'
        'PYTHONPATH=$D:%s/repo/py_gnome exec /opt/venv/bin/python -W ignore "$D/demo.py"\n' % ('' if stub else '/opt/vp/plugins:'))
    head = 'import stubgridded, warnings\nwarnings.simplefilter("ignore")\nimport gnome\n' if stub else 'import gnome_partial\n'
    open(d + '/demo.py', 'w').write(head + s['DEMO'].lstrip('\n'))
    if stub:
        shutil.copy('/verif/tools/stubgridded.py', d)
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print('==', s['ID'], s['PROP'])
    subprocess.run(['bash', '/verif/tools/plant.sh', s['ID'], s['PROP']])
