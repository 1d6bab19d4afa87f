H = "hazard/__init__.py"
D = "database/__init__.py"
W = "wind/__init__.py"
T = "tcrm.py"
TG = "TrackGenerator/TrackGenerator.py"
CASES = [
    ("gust name without dash", "bug", [(W, "'gust.{0:03d}-{1:05d}.nc'", "'gust.{0:03d}_{1:05d}.nc'")]),
    ("gust name with too few digits", "bug", [(W, "'gust.{0:03d}-{1:05d}.nc'", "'gust.{0:03d}-{1:04d}.nc'")]),
    ("listing takes all files", "bug", [(H, "if f.startswith('gust.')]\n    files", "if f.startswith('')]\n    files")]),
    ("listing takes evolution", "bug", [(D, "fileList = [f for f in fileList if f.startswith('gust.') and", "fileList = [f for f in fileList if f.endswith('.nc') and")]),
    ("hazard variable renamed", "bug", [(H, "'name': 'wspdupper'", "'name': 'wspd_upper'")]),
    ("track file prefix", "bug", [(TG, '"tracks.{0:05d}.nc"', '"track.{0:05d}.nc"')]),
    ("hazard file name", "bug", [(H, "'hazard.nc'", "'hazards.nc'")]),
    ("hazard folder not created", "bug", [(T, "'tracks', 'hazard', 'windfield'", "'tracks', 'windfield'")]),
    ("folders made only when processing", "bug", [(T, "    doOutputDirectoryCreation(configFile)\n", "    config = ConfigParser()\n    config.read(configFile)\n    if config.getboolean('Actions', 'DataProcess'):\n        doOutputDirectoryCreation(configFile)\n")]),
    ("statistics file under other name", "bug", [("StatInterface/StatInterface.py", "'speed_stats.nc'), 'speed')", "'vel_stats.nc'), 'speed')")]),
    ("attribute renamed", "bug", [(W, "'track_file_date'", "'trackfile_date'")]),
    ("frequency written elsewhere", "bug", [("DataProcess/DataProcess.py", "'frequency'", "'freq'")]),
    ("cdf variable", "bug", [("StatInterface/GenerateDistributions.py", "'CDF'", "'cdf'")]),
    ("bearing read from wrong file", "bug", [(TG, "all_cell_cdf_init_bearing", "all_cell_cdf_bearing")]),
    ("glob instead of listing", "same", [(H, "    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]\n    files = [pjoin(inputPath, f) for f in fileList]\n", "    import glob\n    files = glob.glob(pjoin(inputPath, 'gust.*.nc'))\n")]),
    ("old style format", "same", [(TG, '"tracks.{0:05d}.nc".format(sim.index)', '"tracks.%05d.nc" % sim.index')]),
    ("loop over folders unrolled", "same", [(T, "subdirs = ['tracks', 'hazard', 'windfield', 'plots', 'plots/hazard',", "subdirs = ['windfield', 'hazard', 'tracks', 'plots', 'plots/hazard',")]),
    ("loop instead of comprehension", "same", [(H, "    fileList = [f for f in os.listdir(inputPath) if f.startswith('gust.')]\n    files = [pjoin(inputPath, f) for f in fileList]\n", "    files = []\n    for f in os.listdir(inputPath):\n        if not f.startswith('gust.'):\n            continue\n        files.append(pjoin(inputPath, f))\n")]),
]
CASES += [
 ('wf-name', 'bug', [('wind/__init__.py', "'gust.{0:03d}-{1:05d}.nc'.format", "'wind.{0:03d}-{1:05d}.nc'.format")]),
 ('vmax', 'bug', [('wind/__init__.py', "'name': 'vmax'", "'name': 'gust'"), ('wind/__init__.py', "'lon', 'vmax', 'ua'", "'lon', 'gust', 'ua'")]),
 ('trackfolder', 'bug', [('wind/__init__.py', "trackPath = pjoin(outputPath, 'tracks')", "trackPath = pjoin(outputPath, 'track')")]),
 ('prefix', 'bug', [('wind/__init__.py', "if f.startswith('tracks')]\n    nfiles", "if f.startswith('track-')]\n    nfiles")]),
]
CASES += [
 ('origin', 'bug', [('StatInterface/KDEOrigin.py', "ncSaveGrid(pjoin(self.processPath, 'originPDF.nc'),", "ncSaveGrid(pjoin(self.outputPath, 'originPDF.nc'),")]),
 ('gpdf', 'same', [('StatInterface/KDEOrigin.py', "                    'name': 'gpdf',\n                    'dims': ('lat', 'lon'),\n                    'values': np.array(pdf),", "                    'name': 'pdf',\n                    'dims': ('lat', 'lon'),\n                    'values': np.array(pdf),")]),
 ('cdfname', 'bug', [('StatInterface/GenerateDistributions.py', "'all_cell_cdf_' + self.pName)", "'all_cells_cdf_' + self.pName)")]),
 ('cdfx', 'bug', [('StatInterface/GenerateDistributions.py', "x = ncdf.createVariable('x', 'f', ('cell',))", "x = ncdf.createVariable('X', 'f', ('cell',))")]),
 ('plots-stats', 'bug', [('tcrm.py', "               'plots/stats', 'log',", "               'log',")]),
 ('ts-folder', 'bug', [('tcrm.py', "'process/timeseries',\n", '\n')]),
 ('evt-ts', 'bug', [('tcevent.py', "'process/timeseries']", "'timeseries']")]),
 ('evt-plots', 'bug', [('tcevent.py', "subdirs = ['tracks', 'windfield', 'plots', 'plots/timeseries',", "subdirs = ['tracks', 'windfield', 'plots',")]),
 ('haz-plot', 'bug', [('PlotInterface/AutoPlotHazard.py', "pjoin(outputPath, 'hazard', 'hazard.nc')", "pjoin(outputPath, 'hazard', 'hazard_map.nc')")]),
 ('year-spec', 'bug', [('hazard/__init__.py', '"gust.*-%05d.nc"%year', '"gust.*-%03d.nc"%year')]),
 ('year-spec2', 'bug', [('hazard/__init__.py', '"gust.*-%05d.nc"%year', '"gust.%05d-*.nc"%year')]),
 ('stats-name', 'bug', [('StatInterface/StatInterface.py', "dpStats.save(pjoin(path, 'pressure_rate_stats.nc'), 'pressure_rate')", "dpStats.save(pjoin(path, 'pressure_rate.nc'), 'pressure_rate')")]),
 ('coeff', 'bug', [('StatInterface/generateStats.py', "'lphi'", "'lph'")]),
 ('freqfile', 'bug', [('DataProcess/DataProcess.py', "self.origin_year = pjoin(self.processPath, 'origin_year')", "self.origin_year = pjoin(self.processPath, 'origin_years')")]),
 ('evt-track', 'bug', [('tcevent.py', '"tracks.interp.nc"', '"interp.tracks.nc"')]),
 ('db-wind', 'bug', [('database/__init__.py', "self.windfieldPath = pjoin(self.outputPath, 'windfield')", "self.windfieldPath = pjoin(self.outputPath, 'windfields')")]),
 ('db-haz', 'bug', [('database/__init__.py', "hazardFile = pjoin(self.hazardPath, 'hazard.nc')", "hazardFile = pjoin(self.outputPath, 'hazard.nc')")]),
]
CASES += [
 ('hazard-case', 'bug', [('hazard/__init__.py', "pjoin(self.outputPath, 'hazard.nc')", "pjoin(self.outputPath, 'hazard.{0}.nc'.format(self.evd))")]),
]
CASES += [
 ('gd-lower', 'bug', [('StatInterface/GenerateDistributions.py', "'all_cell_cdf_' + self.pName)", "'all_cell_cdf_' + self.pName.replace('_', ''))")]),
 ('gd-var', 'bug', [('StatInterface/GenerateDistributions.py', "ncdf.createVariable('CDF', 'f', ('cell',))", "ncdf.createVariable('cdf', 'f', ('cell',))")]),
]
