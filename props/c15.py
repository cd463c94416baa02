from sa.equiv import *

ID = 'C15'
PROP = {
    'title': 'Outputters write the data of the right steps, complete and in the right place',
    'statement': 'An outputter that is off writes nothing. One that is on writes the zero step if output_zero_step (or if the single '
                 'output is due at the start), the last step if output_last_step, with output_single_step only the step that reaches '
                 'output_start_time, and otherwise every step from output_start_time on, or each time another output_timestep has '
                 'passed, for runs forwards and backwards; on other steps it writes and returns nothing. What is written for a step '
                 'is the cached data of that step: every element with its own position, mass, status and other values, forecast and '
                 'uncertain elements kept apart, under the time stamp of that step, no step or element overwritten by another, and '
                 'NetCDF data can be read back step by step. Output files of an earlier run are cleaned at the start of a run, only '
                 'the files of that outputter, and archives and multi-step files are finished once when the run ends. Output '
                 'settings that must not change during a run are refused then. The cache returns, for any step still stored, the '
                 'element data saved for it.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'],
                   'text': 'every combination of output settings, time steps, run lengths, run directions, element counts and uncertainty'},
    'why_tests_cant': 'Tests check a few settings of a few outputters for short runs; the guarantee covers every combination and run length.',
    'anchors': {'files': ['py_gnome/gnome/outputters', 'py_gnome/gnome/utilities/cache.py', 'py_gnome/gnome/utilities/shapefile_builder.py'],
                'mechanism': ['Outputter.prepare_for_model_step', 'Outputter.write_output', 'NetCDFOutput.write_output',
                              'TrajectoryGeoJsonOutput', 'BinaryOutput', 'KMZOutput', 'ShapeOutput', 'Renderer', 'ElementCache']},
}
TECHNIQUE = ('contract comparison: gated effect summaries of every outputter method (which file, element and value is written under '
             'which condition) against the stated contracts')
MIN = 200

RULES = spec_rules('C15')
