from sa.equiv import *

ID = 'C23'
PROP = {
    'title': 'Weathering rates follow the stated relations for every element',
    'statement': 'In a step, every weathering process changes each element by the rate its documentation states, computed from that '
                 'element and from the wind, waves and water at that element at the model time. Evaporation: decay constants '
                 '-(1-water fraction)*area*K*vapour pressure/(R*T*sum(mass_i/molecular weight_i)) times the Schmidt and puddle '
                 'diameter terms, with K = 0.0048*U^0.78 and U at least 1 m/s (an ice-aware wind applies the minimum before the '
                 'ice factor); never positive. Natural dispersion and sedimentation: the Delvigne-Sweeney or Li 2017 rates, '
                 'together never more than the mass of the element and nothing for elements that are all water. Spreading: area '
                 'grows by the gravity-viscous and diffusion terms of the element\'s own blob once the initial phase is over, never '
                 'beyond the area at the limiting thickness, which depends on the oil\'s viscosity; Langmuir coverage lies in '
                 '[0.1, 1]. Emulsification: the uptake coefficient is 6*2.02e-6*U^2/largest drop with U the higher of wind and '
                 'pseudo wind. Dissolution: transfer from droplets in the water column and from the slick, only of aromatics, never '
                 'more of a component than there is. Biodegradation: component rates by type and boiling point. The published wave, '
                 'droplet and partition relations and physical constants keep their values.',
    'quantifier': {'over': ['inputs', 'configurations'],
                   'text': 'every element, oil, wind, sea state, water property and time step'},
    'why_tests_cant': 'Tests compare a few totals of a few scenarios with loose tolerances; an error in a branch, term or mask that a '
                      'scenario does not reach goes unnoticed.',
    'anchors': {'files': ['py_gnome/gnome/weatherers', 'py_gnome/gnome/utilities/weathering', 'py_gnome/gnome/constants.py'],
                'mechanism': ['Evaporation._set_evap_decay_constant', 'NaturalDispersion.disperse_oil_DS', 'FayGravityViscous.update_area',
                              'Langmuir._get_frac_coverage', 'Dissolution.dissolve_oil', 'Emulsification._water_uptake_coeff']},
}
TECHNIQUE = ('contract comparison: polynomial normal forms of the rate expressions, element masks and in-place updates of every process '
             'against the stated relations')
MIN = 60

RULES = spec_rules('C23')
