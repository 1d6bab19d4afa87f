P = "ProcessMultipliers/processMultipliers.py"
L = "ProcessMultipliers/lowResProcessMultipliers.py"
BN = "band_numbers_for_indices_in_geotiff = [2, 3, 1, 6, 5, 7, 8, 4, 2]"
SEGLOOP = """    for i in list(indices.keys()):
        m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]
        idx = np.where((bear_data >= indices[i]['min']) &
                       (bear_data < indices[i]['max']))
        local[idx] = wind_data[idx] * m4[idx]
"""
CASES = [
    ("unchanged", "same", []),
    ("band numbers swapped", "bug", [(P, BN, BN.replace("7, 8", "8, 7"))]),
    ("band numbers swapped in low resolution", "bug", [(L, BN, BN.replace("6, 5", "5, 6"))]),
    ("last sector uses another band", "bug", [(P, BN, BN.replace("4, 2]", "4, 4]"))]),
    ("band not shifted", "bug", [(P, "m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]",
        "m4 = m4_all[band_numbers_for_indices_in_geotiff[i] % 8]")]),
    ("gap between sectors", "bug", [(P, "{'dir': 'se', 'min': 112.5, 'max': 157.5}", "{'dir': 'se', 'min': 112.5, 'max': 155.}")]),
    ("sector bounds moved", "bug", [(L, "'max': 247.5},\n            6: {'dir': 'w', 'min': 247.5", "'max': 242.5},\n            6: {'dir': 'w', 'min': 242.5")]),
    ("strict bounds", "bug", [(P, "idx = np.where((bear_data >= indices[i]['min']) &\n                       (bear_data < indices[i]['max']))\n        local[idx] = wind_data[idx] * m4[idx]\n    with",
        "idx = np.where((bear_data > indices[i]['min']) &\n                       (bear_data < indices[i]['max']))\n        local[idx] = wind_data[idx] * m4[idx]\n    with")]),
    ("upper bound included in one path", "bug", [(L, "(bearing >= indices[i]['min']) & (bearing < indices[i]['max'])",
        "(bearing > indices[i]['min'] - 1e-9) & (bearing <= indices[i]['max'])")]),
    ("directions not in band order", "bug", [(P, "self.dirns = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']",
        "self.dirns = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']")]),
    ("first band for all", "bug", [(P, "source_dir_bands.append(m4_ds.GetRasterBand(dn_ix))", "source_dir_bands.append(m4_ds.GetRasterBand(1))")]),
    ("bands from zero", "bug", [(P, "dn_ix = dn_ix + 1\n                source_dir_bands.append(m4_ds.GetRasterBand(dn_ix))",
        "source_dir_bands.append(m4_ds.GetRasterBand(max(dn_ix, 1)))\n                dn_ix = dn_ix + 1")]),
    ("file of the sector's number", "bug", [(P, "m4_file = pjoin(working_dir, 'm4_{0}.tif'.format(dn.lower()))\n            m4 =",
        "m4_file = pjoin(working_dir, 'm4_{0}.tif'.format(indices[(i + 4) % 8]['dir']))\n            m4 =")]),
    ("bearing the wind blows to", "bug", [(P, "bearing = 2 * np.pi - (np.arctan2(-vv, -uu) - np.pi / 2)",
        "bearing = 2 * np.pi - (np.arctan2(vv, uu) - np.pi / 2)")]),
    ("components swapped", "bug", [(L, "np.arctan2(-gust.va, -gust.ua)", "np.arctan2(-gust.ua, -gust.va)")]),
    ("bearing anticlockwise", "bug", [(P, "bearing = 2 * np.pi - (np.arctan2(-vv, -uu) - np.pi / 2)",
        "bearing = 2 * np.pi + (np.arctan2(-vv, -uu) - np.pi / 2)")]),
    ("bearing averaged", "bug", [(P, """        reprojectDataset(bear_raster, m4_max_file_obj, bear_prj_file,
                         warp_memory_limit=warp_memory_limit,
                         resampling_method=gdalconst.GRA_NearestNeighbour)
""", """        reprojectDataset(bear_raster, m4_max_file_obj, bear_prj_file,
                         warp_memory_limit=warp_memory_limit)
""")]),
    ("speed upside down", "bug", [(P, """    wind_raster = createRaster(np.flipud(wspd), lon, lat, delta, delta,
                               filename = wind_raster_file)""", """    wind_raster = createRaster(wspd, lon, lat, delta, delta,
                               filename = wind_raster_file)""")]),
    ("bearing from swapped components", "bug", [(P, "    bearing = calculateBearing(uu, vv)\n\n", "    bearing = calculateBearing(vv, uu)\n\n")]),
    ("terrain of another direction", "bug", [(P, "'{0}terrain/{1}_terrain.tif'.format(working_dir, dirn)", "'{0}terrain/{1}_terrain.tif'.format(working_dir, dirns[0])")]),
    ("terrain twice", "bug", [(P, "dataOut = m_data1 * m_data2 * m_data3", "dataOut = m_data1 * m_data2 * m_data1")]),
    ("bands translated in another order", "bug", [(P, "bandList=[1, 2, 3, 4, 5, 6, 7, 8]", "bandList=[1, 2, 3, 4, 5, 6, 8, 7]")]),
    ("merge of another direction", "bug", [(P, "common_dir = glob.glob(pathn + '*_' + dirn + '.tif')", "common_dir = glob.glob(pathn + '*_' + dirns[-1] + '.tif')")]),
    ("360 dropped again", "bug", [(P, "    bear_data[bear_data == 360.] = 0.\n", "")]),
    # same
    ("integer division", "same", [(P, SEGLOOP, """    sector = ((bear_data + 22.5) // 45.) % 8
    bands = [2, 3, 1, 6, 5, 7, 8, 4]
    for i in range(8):
        m4 = m4_all[bands[i] - 1]
        idx = np.where(sector == i)
        local[idx] = wind_data[idx] * m4[idx]
""")]),
    ("table of tuples", "same", [(P, SEGLOOP, """    for i, band in enumerate(band_numbers_for_indices_in_geotiff):
        lower, upper = indices[i]['min'], indices[i]['max']
        mask = (bear_data >= lower) & (bear_data < upper)
        local[mask] = (wind_data * m4_all[band - 1])[mask]
""")]),
    ("helper", "same", [(P, SEGLOOP, """    for i in list(indices.keys()):
        _scale(local, wind_data, m4_all[band_numbers_for_indices_in_geotiff[i] - 1],
               bear_data, indices[i])
"""), (P, "def processMultiplierSegment(", """def _scale(local, wind_data, m4, bear_data, sector):
    idx = np.where((bear_data >= sector['min']) & (bear_data < sector['max']))
    local[idx] = wind_data[idx] * m4[idx]


def processMultiplierSegment(""")]),
    ("np.where accumulates", "same", [(P, SEGLOOP, """    for i in list(indices.keys()):
        m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]
        local = np.where((bear_data >= indices[i]['min']) & (bear_data < indices[i]['max']),
                         wind_data * m4, local)
""")]),
    ("360 included", "same", [(P, "    bear_data[bear_data == 360.] = 0.\n", ""), (P, "'max': 360.}", "'max': 360.1}")]),
    ("bands by enumerate", "same", [(P, """            dn_ix = 0
            m4_ds = gdal.Open(combined_mulipliers_file, gdal.GA_ReadOnly)
            for dn in dirns:
                dn_ix = dn_ix + 1
                source_dir_bands.append(m4_ds.GetRasterBand(dn_ix))
""", """            m4_ds = gdal.Open(combined_mulipliers_file, gdal.GA_ReadOnly)
            source_dir_bands = [m4_ds.GetRasterBand(n) for n, _ in enumerate(dirns, 1)]
""")]),
    ("degrees", "same", [(P, "    bearing = (180. / np.pi) * np.mod(bearing, 2. * np.pi)\n    return bearing", "    return np.mod(np.degrees(bearing), 360.)")]),
    ("band order renamed with the list", "same", [(P, "self.dirns = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']",
        "self.dirns = sorted(['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw'])")]),
]
CASES += [
 ('nofold', 'bug', [('ProcessMultipliers/processMultipliers.py', '    bear_data[bear_data == 360.] = 0.\n    m4_all', '    m4_all')]),
 ('fill0', 'bug', [('ProcessMultipliers/processMultipliers.py', 'def loadAllBandArrayData(band_sources, fill_value=1,', 'def loadAllBandArrayData(band_sources, fill_value=0,')]),
 ('bearmean', 'bug', [('ProcessMultipliers/processMultipliers.py', '    bearing = (180. / np.pi) * np.mod(bearing, 2. * np.pi)', '    bearing = np.round((180. / np.pi) * np.mod(bearing, 2. * np.pi), -1)')]),
 ('dirns', 'bug', [('ProcessMultipliers/processMultipliers.py', "self.dirns = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']", "self.dirns = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']")]),
 ('additive', 'same', [('ProcessMultipliers/processMultipliers.py', '        local[idx] = wind_data[idx] * m4[idx]\n    with', '        local[idx] += wind_data[idx] * m4[idx]\n    with')]),
 ('bilinear', 'bug', [('ProcessMultipliers/processMultipliers.py', '                         warp_memory_limit=warp_memory_limit,\n                         resampling_method=gdalconst.GRA_NearestNeighbour)\n', '                         warp_memory_limit=warp_memory_limit)\n')]),
 ('break', 'bug', [('ProcessMultipliers/processMultipliers.py', '        m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]\n', "        if not (bear_data >= indices[i]['min']).all():\n            break\n        m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]\n")]),
 ('ceil', 'same', [('ProcessMultipliers/processMultipliers.py', '    bear_data[bear_data == 360.] = 0.\n    m4_all', '    bear_data[bear_data >= 350.] = 0.\n    m4_all')]),
 ('thr', 'bug', [('ProcessMultipliers/processMultipliers.py', '    bear_data[bear_data == 360.] = 0.\n    m4_all', '    bear_data[bear_data >= 330.] = 0.\n    m4_all')]),
 ('le-first', 'bug', [('ProcessMultipliers/processMultipliers.py', "0: {'dir': 'n', 'min': 0., 'max': 22.5},\n        1: {'dir': 'ne', 'min': 22.5", "0: {'dir': 'n', 'min': 0., 'max': 22.5},\n        1: {'dir': 'ne', 'min': 20.5")]),
]
CASES += [
 ('last-open', 'bug', [('ProcessMultipliers/processMultipliers.py', "        idx = np.where((bear_data >= indices[i]['min']) &\n                       (bear_data < indices[i]['max']))\n\n        local[idx] = wind_data[idx] * m4[idx]\n    rows, cols", "        idx = np.where((bear_data > indices[i]['min']) &\n                       (bear_data < indices[i]['max']))\n\n        local[idx] = wind_data[idx] * m4[idx]\n    rows, cols")]),
 ('uses-other', 'bug', [('ProcessMultipliers/processMultipliers.py', "        idx = np.where((bear_data >= indices[i]['min']) &\n                       (bear_data < indices[i]['max']))\n\n        local[idx] = wind_data[idx] * m4[idx]\n    rows, cols", "        idx = np.where((bearing >= indices[i]['min']) &\n                       (bearing < indices[i]['max']))\n\n        local[idx] = np.maximum(local[idx], wind_data[idx] * m4[idx])\n    rows, cols")]),
]
CASES += [
 ('bear-raw', 'bug', [('ProcessMultipliers/processMultipliers.py', '    bear_data[bear_data == 360.] = 0.\n    m4_all', '    m4_all')]),
 ('band-seg', 'bug', [('ProcessMultipliers/processMultipliers.py', '        m4 = m4_all[band_numbers_for_indices_in_geotiff[i] - 1]\n', '        m4 = m4_all[i - 1]\n')]),
 ('sw-bound', 'bug', [('ProcessMultipliers/processMultipliers.py', "        5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},\n        6: {'dir': 'w', 'min': 247.5, 'max': 292.5},\n        7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},\n        8: {'dir': 'n', 'min': 337.5, 'max': 360.}\n    }\n    band", "        5: {'dir': 'sw', 'min': 202.5, 'max': 245.5},\n        6: {'dir': 'w', 'min': 247.5, 'max': 292.5},\n        7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},\n        8: {'dir': 'n', 'min': 337.5, 'max': 360.}\n    }\n    band")]),
 ('cb-order', 'same', [('ProcessMultipliers/processMultipliers.py', '            for dn in dirns:\n                dn_ix = dn_ix + 1\n', '            for dn in sorted(dirns):\n                dn_ix = dn_ix + 1\n')]),
]
