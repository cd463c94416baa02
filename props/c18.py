from sa.equiv import *

ID = 'C18'
PROP = {
    'title': 'Times, directions, longitudes and time series convert losslessly',
    'statement': 'Dates convert to seconds and back to the same local standard time (daylight saving never shifts them), for scalars, '
                 'lists and arrays, and non-dates are refused; rounding a time gives the nearest multiple and leaves its argument alone; '
                 'a time-zone offset given in hours or as a timedelta reads the same in hours, as a timedelta and as an ISO string, '
                 'negative and fractional ones included, and survives serialization. InfTime is later than, MinusInfTime earlier than, '
                 'every other time, each equal to itself. Winds are converted between (speed, direction they come from) and (u, v), '
                 'currents with the direction they go to, angles outside 0-360 and negative speeds refused, and back to the same '
                 'values; time series of 1 or 2 values convert between date and second form in either format. Longitudes wrap into '
                 '(-180, 180] or [0, 360); rounding keeps the requested significant figures and shape; a mass converts to another mass '
                 'unit directly and to a volume through the density.',
    'quantifier': {'over': ['inputs'],
                   'text': 'every date, array of dates, offset, speed and direction, longitude, precision and unit'},
    'why_tests_cant': 'Tests use a few dates, offsets and compass points; daylight-saving hours, negative fractional offsets, the sector '
                      'boundaries and the 180 degree line are single values in a continuum.',
    'anchors': {'files': ['py_gnome/gnome/utilities/time_utils.py', 'py_gnome/gnome/utilities/inf_datetime.py',
                          'py_gnome/gnome/utilities/transforms.py', 'py_gnome/gnome/utilities/convert.py',
                          'py_gnome/gnome/utilities/__init__.py', 'py_gnome/gnome/scripting/time_utils.py'],
                'mechanism': ['date_to_sec', 'sec_to_datetime', 'round_time', 'TZOffset', 'InfDateTime', 'r_theta_to_uv_wind',
                              'uv_to_r_theta_wind', 'convert_longitude']},
}
TECHNIQUE = ('contract comparison: normal forms of arithmetic, selections, guards and exceptional paths of every conversion against the '
             'stated relations')
MIN = 40

RULES = spec_rules('C18')
