from sa.equiv import *

ID = 'C19'
PROP = {
    'title': 'Environment objects give the value of their data at any point and time',
    'statement': 'Winds, currents, tides, waves, water, ice and time series answer at() and get() with the value of the data they were '
                 'made from at the points and time asked for. Point winds hold the times, speeds and directions they were given (from '
                 'arrays, value lists, constants or OSSM files in each of their header forms, cardinal directions and two-digit years '
                 'included), leave the caller\'s array alone, and answer in the coordinate system and units asked for: speeds and both '
                 'components of u, v data are converted, directions never. Between two times the value is the linear interpolation; '
                 'outside the data it is the end value where extrapolation is allowed and an error otherwise, and a one-off '
                 'extrapolate argument leaves the object\'s own setting as it was. Changing a timezone offset shifts the times by the '
                 'difference. Water properties are converted between the unit they were set in and the unit asked for; density follows '
                 'from salinity and temperature. Gridded vectors are converted to the unit asked for, rotated by the grid\'s angle, '
                 'zero above or at the surface where they must be, and memoised per points and time; ice blends linearly between 20% '
                 'and 80% concentration, wind giving way to ice and current to ice velocity. Waves use the user\'s wave height when '
                 'there is one, else the fetch-limited height from the wind. gridcur files are read and written as the format says.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every series, unit, coordinate system, time (inside or outside the data), set of points and file header form'},
    'why_tests_cant': 'Tests ask a few objects at a few times, mostly in m/s; a wrong branch for another unit, coordinate system, '
                      'header form or time outside the data is not asked about.',
    'anchors': {'files': ['py_gnome/gnome/environment', 'py_gnome/gnome/utilities/timeseries.py', 'py_gnome/gnome/utilities/convert.py'],
                'mechanism': ['Wind.at', 'Wind.new_set_timeseries', 'Water.get', 'Waves.get_value', 'TimeseriesData.at', 'GridCurrent.at',
                              'IceAwareCurrent.at', 'IceAwareWind.at', 'read_ossm_format', 'read_file']},
}
TECHNIQUE = ('contract comparison: returns, stores and raises of every accessor, converter and reader on all paths, in normal form, '
             'against the stated values')
MIN = 60

RULES = spec_rules('C19')
