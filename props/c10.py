from sa.equiv import *

ID = 'C10'
PROP = {
    'title': 'Element data stay aligned: one entry per element in every array',
    'statement': 'Every data array of a spill container has exactly one entry per element at all times: releasing appends to every '
                 'array, removing deletes the same elements from every array, splitting divides the extensive quantities (mass, '
                 'components, volume) so that their sum is unchanged and repeats the others. Assigning an array of another shape or '
                 'type is refused. New elements get the declared initial values, ids 0, 1, 2, … in order of release from the start '
                 'of the run whatever was run before, and the number of the spill that released them. A spill releases exactly the '
                 'elements its release schedule prescribes up to the end of the step, and none when it is off. The certain and the '
                 'uncertain container hold the same spills in the same order after any sequence of adding, removing and replacing; '
                 'spills of different substances are refused. The amount of a spill is the mass of its release in its own units.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every set of spills, every sequence of release, split, removal, add, replace, remove and rewind'},
    'why_tests_cant': 'Tests look at a few arrays after one release; the alignment of every array must survive every history of '
                      'releases, splits, removals and rewinds with every combination of array types.',
    'anchors': {'files': ['py_gnome/gnome/spill_container.py', 'py_gnome/gnome/array_types.py', 'py_gnome/gnome/spills/spill.py'],
                'mechanism': ['_append_data_arrays', 'release_elements', 'split_element', 'model_step_is_done', 'uncertain_copy',
                              '__setitem__', 'prepare_for_model_run']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of the spill containers, array types and spills against the reference '
             'bookkeeping, and of the array-type table entry by entry')
MIN = 80

RULES = spec_rules('C10')
