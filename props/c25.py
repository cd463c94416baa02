from sa.equiv import *

ID = 'C25'
PROP = {
    'title': 'Oil density, viscosity and vapour pressure follow the oil\'s measurements',
    'statement': 'At any temperature an oil\'s density is that of its fresh measurements: interpolated between the two that bound the '
                 'temperature, beyond them extrapolated from the nearest with the default expansion coefficient (0.0009 above 30 API, '
                 'else 0.0008), and never for a temperature below the pour point or the coldest measurement, whichever is colder. Its '
                 'viscosity is A*exp(k/T) fitted to the fresh measurements (k = 2100 K for a single one). Vapour pressure of each '
                 'component follows from its boiling point (Antoine relation). An oil keeps the data it is given, one value per '
                 'component, defaulting only what is missing, and elements start with the density and viscosity of the oil in the '
                 'model\'s water, with mass divided among components by mass fraction. As oil weathers, density is that of the '
                 'remaining components scaled to match the fresh oil, mixed with the water taken up, never above the water\'s; '
                 'viscosity grows with the fraction evaporated and with water content.',
    'quantifier': {'over': ['inputs', 'configurations'],
                   'text': 'every oil record (any number of measurements, fresh or weathered), temperature or array of temperatures, '
                           'water and state of weathering'},
    'why_tests_cant': 'Tests look up a few oils at a few temperatures; the branches for single measurements, temperatures at or beyond '
                      'the measured range and partly weathered records differ by small amounts no test compares.',
    'anchors': {'files': ['py_gnome/gnome/spills/gnome_oil.py', 'py_gnome/gnome/ops'],
                'mechanism': ['GnomeOil.density_at_temp', 'GnomeOil.kvis_at_temp', 'GnomeOil.vapor_pressure', 'recalc_density',
                              'recalc_viscosity', 'init_density', 'init_viscosity']},
}
TECHNIQUE = ('contract comparison: polynomial normal forms, selections and in-place updates of every property accessor against the '
             'stated relations')
MIN = 20

RULES = spec_rules('C25')
