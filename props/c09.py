from sa.equiv import *

ID = 'C09'
PROP = {
    'title': 'Elements beach, refloat and leave the map only where the map says so',
    'statement': 'An element whose step meets land becomes beached at the land it met and remembers its last water position; an element '
                 'whose position lies outside the map bounds is marked off the map, and its mass is counted once. Beached elements '
                 'return to the water at their last water position with probability 1 - 0.5^(step / half-life) per step: at once when '
                 'the half-life is zero, never when it is negative. Elements over a tide flat are held while it is dry and released when '
                 'it is wet. No element rises above the surface. Beached mass is the mass of the elements on land. on_map, on_land, '
                 'in_water and allowable_spill_position agree with the bounds, the land polygons and the spillable area of the map, '
                 'in either longitude convention.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every map, half-life, step and set of elements and statuses'},
    'why_tests_cant': 'Tests check a handful of crossings on small maps; positions beyond the raster, mixed statuses and long '
                      'sequences of beaching and refloating are not sampled.',
    'anchors': {'files': ['py_gnome/gnome/maps/map.py', 'py_gnome/gnome/maps/tideflat_map.py', 'py_gnome/gnome/cy_gnome/cy_land_check.pyx'],
                'mechanism': ['beach_elements', 'refloat_elements', '_set_off_map_status', 'on_map', 'on_land', 'in_water',
                              'allowable_spill_position']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of the map classes against the reference beaching, refloating and '
             'containment rules')
MIN = 60

RULES = spec_rules('C09')
