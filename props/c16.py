from sa.equiv import *

ID = 'C16'
PROP = {
    'title': 'Save archives are checked, and extracted only as files in the target folder',
    'statement': 'is_savezip_valid returns True only for a readable zip in which no member is corrupt, no .json member is larger than '
                 'the limit, no member is compressed beyond the allowed ratio and no member name contains "..", and returns False '
                 '(never raises) otherwise. Extracting an archive writes every file member once, with its exact bytes, under its own '
                 'base name directly inside the target folder, whatever path the member has: nothing is written outside it, and '
                 'folder entries and, with a single top-level folder, members outside that folder are skipped. Names that are '
                 'illegal on some systems are cleaned and every JSON reference to them is renamed with them. In the reference '
                 'table of a save one name stands for one object.',
    'quantifier': {'over': ['inputs', 'configurations'],
                   'text': 'every archive: member names, sizes, compression, order, top-level folders, and every object graph'},
    'why_tests_cant': 'Archives come from the web; tests use a few well-formed and a few crafted ones, the guarantee is about any archive.',
    'anchors': {'files': ['py_gnome/gnome/persist/save_load.py', 'py_gnome/gnome/utilities/save_updater.py'],
                'mechanism': ['is_savezip_valid', 'extract_zipfile', 'zipfile_folders', 'sanitize_filename', 'References']},
}
TECHNIQUE = ('contract comparison: gated effect summaries of the archive check and extraction code (every write, its target path and '
             'its condition) against the stated contracts')
MIN = 17

RULES = spec_rules('C16')
