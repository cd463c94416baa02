from sa.equiv import *
import ast

ID = 'C17'
PROP = {
    'title': 'A save made by any earlier version is brought up to date step by step',
    'statement': 'update_savefile reads the version of the save (0 when there is none) and runs every later update step, each once and '
                 'in order, on the files of that folder; a step that reports errors stops the update with an exception; the working '
                 'directory is put back on every exit. The steps carry a save of each version to the version this release writes. '
                 'Each step changes exactly what that version changed (renamed classes and modules, element types turned into '
                 'substances, windage initializers folded into the substance, WeatheringData removed together with references to it), '
                 'leaves every other entry of every file as it was, and records the version it reached.',
    'quantifier': {'over': ['inputs', 'histories'],
                   'text': 'saves of every version with any number and mix of objects, and the failure of any step'},
    'why_tests_cant': 'Tests upgrade a few stored saves; the guarantee covers every object mix of every version.',
    'anchors': {'files': ['py_gnome/gnome/utilities/save_updater.py', 'py_gnome/gnome/gnomeobject.py'],
                'mechanism': ['update_savefile', 'v0tov1', 'v1tov2', 'v2tov3', 'v3tov4', 'v4tov5', 'all_update_steps', 'SAVEFILE_VERSION']},
}
TECHNIQUE = ('contract comparison: gated effect summaries of the update driver and of each step against the stated contracts; the '
             'step table is compared with the version the release writes')
MIN = 10


def versions(ctx):
    prog = ctx.P
    up = prog.modules['gnome.utilities.save_updater']
    go = prog.modules['gnome.gnomeobject']
    steps = cur = None
    for n in up.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'all_update_steps' for t in n.targets):
            if isinstance(n.value, (ast.List, ast.Tuple)):
                steps = len(n.value.elts)
    for n in go.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'SAVEFILE_VERSION' for t in n.targets):
            if isinstance(n.value, ast.Constant):
                cur = n.value.value
    key = 'gnome.gnomeobject.SAVEFILE_VERSION'
    if steps is None or cur is None:
        return ctx.unk('R3', key, 'the step table or the written version is not a literal')
    if str(cur) == str(steps):
        return ctx.ok('R3', key)
    ctx.bad("R3", key, 'saves are written as version %s but the update steps lead to %s' % (cur, steps), "py_gnome/gnome/gnomeobject.py")


RULES = spec_rules('C17') + [
    ('R3', 'the version written into a save is the one the last update step leads to', versions),
]
