from sa.equiv import *
from sa import schemas

ID = 'C12'
PROP = {
    'title': 'Saving and loading an object, or sending it as JSON, gives back an equal object',
    'statement': 'Any savable object written with save() and read with load(), or serialized and deserialized, gives an object of the '
                 'same class whose schema attributes are equal: every attribute of its schema is written and passed back, objects it '
                 'refers to are written once under names of their own and the same object is shared again after loading, and its '
                 'data files are stored with it, none dropped or replaced by another. Attributes marked read-only or not to be '
                 'saved are left out. Updating an object from JSON changes the given updatable attributes and no others. Objects '
                 'are equal exactly when their compared attributes are, within tolerance for floats. A copy has its own id.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every savable class, attribute value, name, set of shared references and data files'},
    'why_tests_cant': 'Tests round-trip a few default-constructed objects; the guarantee ranges over every attribute of every class, '
                      'every value and every pattern of sharing.',
    'anchors': {'files': ['py_gnome/gnome/gnomeobject.py', 'py_gnome/gnome/persist/base_schema.py',
                          'py_gnome/gnome/persist/extend_colander.py', 'py_gnome/gnome/persist/validators.py'],
                'mechanism': ['GnomeId.save', 'GnomeId.load', 'to_dict', 'new_from_dict', 'update_from_dict', 'ObjType', '_schema']},
}
TECHNIQUE = ('contract comparison of gated effect summaries of the save, load, update and comparison code, and of every schema '
             'declaration after normalising defaults')
MIN = 100

RULES = spec_rules('C12') + [
    ('R5', 'every schema declares the attributes that make up the saved state of its class, with their types, validators and flags',
     schemas.table),
]
