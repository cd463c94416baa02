def P(id, title, statement, over, text, why, files, mech, reason):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': mech}, reason=reason)


NA = [
    P('N01', 'Rounding never loses an element or a kilogram over a whole run',
      'The numbers of elements released in the steps of a complete run, each truncated to an integer, add up to the number '
      'requested, and their masses to the spilled mass within rounding, for any release duration, time step and start offset.',
      ['inputs', 'configurations'], 'every release duration, time step, start offset and element count',
      'the total is a sum over a run-time schedule; tests sample a few schedules',
      ['py_gnome/gnome/spills/release.py', 'py_gnome/gnome/spills/spill.py'],
      ['Release.generate_release_timeseries', 'Spill.release_elements'],
      'the totals are sums over interpolated floating-point time series whose length is a run-time quantity; no static argument in reach bounds the rounding of np.interp and int truncation'),
    P('N02', 'Numerical weathering and transport formulas are accurate',
      'Evaporation, emulsification, dispersion, spreading and transport results agree with the published formulas within their '
      'stated accuracy for all physical inputs.',
      ['inputs'], 'all physically meaningful oil properties, winds, waves and currents',
      'tests compare a few stored numbers',
      ['py_gnome/gnome/weatherers', 'py_gnome/lib_gnome'], ['weather_elements', 'get_move'],
      'agreement with a physical model is a quantitative statement over real arithmetic; there is no formal reference in the repository and static analysis cannot bound floating-point error of these formulas'),
    P('N03', 'No trajectory crosses land',
      'An element whose straight path crosses land is stopped at the first land cell it meets, never beyond it.',
      ['inputs'], 'every start and end position on every land raster',
      'tests use a handful of small rasters',
      ['py_gnome/gnome/cy_gnome/cy_land_check.pyx', 'py_gnome/gnome/maps/map.py'], ['check_land', 'RasterMap.allowable_spill_position'],
      'correctness of the line-rasterisation loop depends on run-time pixel arithmetic over unbounded loops; that needs a proof or bounded model checking, not static analysis (C09 compares the march with a reference, which does not show the geometric claim)'),
]
