from sa.equiv import *

ID = 'C13'
PROP = {
    'title': 'A model is what it was configured to be, and every step does the same',
    'statement': 'A Model holds exactly the settings, map, spills, movers, weatherers, environment and outputters it is given; changing '
                 'start time, time step, map, uncertainty or direction rewinds it, shortening the duration too. Winds, tides, waves, '
                 'water and currents used by an added object join the environment, and objects that want default references get the '
                 'first matching environment object. Every step releases, prepares, moves, weathers, finishes, advances time and '
                 'outputs, in that order, for every spill container and every active object (weatherers only on the certain one, in '
                 'sub-steps that add up to the step); a run ends after its last step, and post_model_run is called on all. Set-ups '
                 'that cannot be run (spill released before the start, continuous release or weathering backwards, sinking oil, '
                 'contradictory signs, invalid or missing objects) are refused; suspicious ones (no spills, spill outside the map or '
                 'on land, release after the start or the end, movers off the map) give a warning. Queries (find_by_attr, '
                 'get_spill_data, contains_object) give what is asked. An OrderedCollection keeps its objects in the order added, '
                 'one per id, under add, remove, replace, index and slicing.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every model set-up, sequence of changes to it and number of steps run'},
    'why_tests_cant': 'Model-level tests need data files and libraries that are absent here and sample a handful of set-ups; each '
                      'combination of objects on and off, uncertain, backwards or missing takes a different path.',
    'anchors': {'files': ['py_gnome/gnome/model.py', 'py_gnome/gnome/utilities/orderedcollection.py', 'py_gnome/gnome/gnomeobject.py'],
                'mechanism': ['Model.__init__', 'Model.setup_model_run', 'Model.step', 'Model.check_inputs', 'Model.validate',
                              'Model._attach_default_refs', 'OrderedCollection']},
}
TECHNIQUE = ('contract comparison: guarded effects (stores, calls, raises, returns) and their order of every method of Model and '
             'OrderedCollection against the stated behaviour')
MIN = 60

RULES = spec_rules('C13')
