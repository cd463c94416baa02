from sa.equiv import *

ID = 'C22'
PROP = {
    'title': 'Projections, polygons and canvases map positions faithfully',
    'statement': 'Every projection maps (lon, lat) to pixels by centring, scaling and offsetting, with north up and one scale for both '
                 'axes (longitudes shortened by the cosine of the latitude for the flat-earth one), rounds down when integers are asked '
                 'for, maps pixels back to the same positions (integers to pixel centres), keeps its bounding box in step with its '
                 'scale, and never changes the arrays it is given; meters convert to degrees and back at the latitude of the reference '
                 'position. A bounding box knows containment, overlap and union, refuses minimum above maximum, and treats null and '
                 'infinite boxes as such; the crossings test counts a point inside a polygon, closed explicitly or not, exactly when '
                 'an odd number of edges lies to one side; orientation is the sign of the area; thinning keeps points that differ at '
                 'the scale; a polygon set returns each appended polygon with its metadata and equals only a set with the same '
                 'polygons. BNA files are read polygon by polygon, closing points dropped, bad headers or missing or bad coordinates '
                 'refused. Hulls, contours and surface concentrations are computed from the elements of each spill alone, weighted by '
                 'mass. A canvas draws on the foreground or background asked for, through the projection, and rescales when its '
                 'viewport changes; grid lines and their tags lie on multiples of the interval.',
    'quantifier': {'over': ['inputs'],
                   'text': 'every bounding box, image size, position array, polygon, BNA file, viewport and set of elements'},
    'why_tests_cant': 'The tests project a few points on a few boxes; aspect ratios, latitudes, integer against float pixels, shared arrays '
                      'and degenerate polygons form a continuum, and hulls, contours and drawing have hardly any tests here.',
    'anchors': {'files': ['py_gnome/gnome/utilities/projections.py', 'py_gnome/gnome/utilities/geometry/BBox.py',
                          'py_gnome/gnome/utilities/geometry/PinP.py', 'py_gnome/gnome/utilities/geometry/polygons.py',
                          'py_gnome/gnome/utilities/geometry/geo_routines.py', 'py_gnome/gnome/utilities/hull.py',
                          'py_gnome/gnome/utilities/surface_concentration.py', 'py_gnome/gnome/utilities/map_canvas.py',
                          'py_gnome/gnome/utilities/file_tools/haz_files.py'],
                'mechanism': ['to_pixel', 'to_lonlat', 'set_scale', 'meters_to_lonlat', 'BBox', 'CrossingsTest', 'PolygonSet',
                              'ReadBNA', 'calculate_hull', 'surface_conc_kde', 'MapCanvas', 'GridLines']},
}
TECHNIQUE = ('contract comparison: normal forms of arithmetic, stores, calls and exceptional paths of every projection, geometry and '
             'drawing function against the stated relations')
MIN = 60

RULES = spec_rules('C22')
