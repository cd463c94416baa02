from sa.equiv import *

ID = 'C11'
PROP = {
    'title': 'A release puts the right number of elements and mass in the water, in time',
    'statement': 'No element is released before the release time; an instantaneous release releases all its elements at once; a '
                 'continuous release has released, at any time, the share of its elements that corresponds to the elapsed part of its '
                 'period (or its fixed number per time step), and all of them by its end. The elements share the released mass '
                 'equally, and all of it is released. Elements of a point or line release start on the line, progressing from start '
                 'to end during the release; those of a polygon release start inside its polygons in proportion to area times '
                 'weight or thickness; those of a grid on the grid. Windage, droplet size, rise velocity, density and initial area '
                 'come from the settings of the substance, distribution and water. Shifting the time zone moves the whole release.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every release, number of elements, period, time step, distribution and time'},
    'why_tests_cant': 'Tests check a few aligned schedules; the schedule must hold for every period and time step, whether or not '
                      'they are commensurable, and after any rewind.',
    'anchors': {'files': ['py_gnome/gnome/spills/release.py', 'py_gnome/gnome/spills/initializers.py',
                          'py_gnome/gnome/spills/substance.py', 'py_gnome/gnome/spills/spill.py',
                          'py_gnome/gnome/utilities/distributions.py', 'py_gnome/gnome/utilities/geometry/geo_routines.py'],
                'mechanism': ['prepare_for_model_run', 'generate_release_timeseries', 'num_elements_after_time', 'initialize_elements',
                              'set_values']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of the releases, initializers, substances and distributions against the '
             'reference schedule and placement rules')
MIN = 100

RULES = spec_rules('C11')
