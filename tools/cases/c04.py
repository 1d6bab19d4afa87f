H = "hazard/__init__.py"
D = "database/__init__.py"
W = "wind/__init__.py"
T = "TrackGenerator/TrackGenerator.py"
M = "tcrm.py"
P = "Utilities/parallel.py"
CASES = [
 ("undecorate-process", "bug", [(M, "@disableOnWorkers\ndef doDataProcessing", "def doDataProcessing")]),
 ("undecorate-dirs", "bug", [(M, "@disableOnWorkers\ndef doOutputDirectoryCreation", "def doOutputDirectoryCreation")]),
 ("undecorate-stats", "bug", [(M, "@disableOnWorkers\ndef doStatistics", "def doStatistics")]),
 ("undecorate-plot", "bug", [(M, "@disableOnWorkers\ndef doDataPlotting", "def doDataPlotting")]),
 ("undecorate-hazplot", "bug", [(M, "@disableOnWorkers\ndef doHazardPlotting", "def doHazardPlotting")]),
 ("decorator-or", "bug", [(P, "        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:\n", "        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 1:\n")]),
 ("save-hazard", "bug", [(H, "    @disableOnWorkers\n    def saveHazard", "    def saveHazard")]),
 ("db-hazard", "bug", [(D, "    @disableOnWorkers\n    def processHazard", "    def processHazard")]),
 ("db-tables", "same", [(D, "    @disableOnWorkers\n    def createDatabase", "    def createDatabase")]),
 ("worker-insert", "bug", [(D, "                results = processTrack(*work_pack)\n", "                results = processTrack(*work_pack)\n                self.insertTracks(results)\n")]),
 ("gust-name", "bug", [(W, "'gust.{0:03d}-{1:05d}.nc'", "'gust.{0:03d}.nc'")]),
 ("tracks-name", "bug", [(T, "        ncTrackFile = pjoin(trackPath, \"tracks.{0:05d}.nc\".format(sim.index))\n", "        ncTrackFile = pjoin(trackPath, \"tracks.nc\")\n")]),
 ("log-name", "bug", [(M, "        logfile += '-' + str(comm.rank)\n", "")]),
 ("log-name-size", "bug", [(M, "        logfile += '-' + str(comm.rank)\n", "        logfile += '-' + str(comm.size)\n")]),
 ("eval-save", "bug", [("Evaluate/trackDensity.py", "    @disableOnWorkers\n    def save(", "    def save(")]),
 ("log-fmt", "same", [(M, "        logfile += '-' + str(comm.rank)\n", "        logfile = '{0}-{1}'.format(logfile, comm.rank)\n")]),
 ("rank-test", "same", [(M, "@disableOnWorkers\ndef doStatistics(configFile):\n", "def doStatistics(configFile):\n    if comm.rank == 0:\n        _doStatistics(configFile)\n\n\ndef _doStatistics(configFile):\n")]),
 ("gust-name2", "same", [(W, "'gust.{0:03d}-{1:05d}.nc'.format(*track.trackId)", "'gust.{0:03d}-{1:05d}.nc'.format(track.trackId[0], track.trackId[1])")]),
 ("decorator-form", "same", [(P, "        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:\n            return\n        else:\n            return f(*args, **kwargs)\n", "        if MPI.COMM_WORLD.rank == 0:\n            return f(*args, **kwargs)\n")]),
]
CASES += [
 ('hz-all', 'bug', [('hazard/__init__.py', '    @disableOnWorkers\n    def saveHazard', '    def saveHazard')]),
 ('dp-all', 'bug', [('tcrm.py', '@disableOnWorkers\ndef doDataProcessing', 'def doDataProcessing')]),
 ('png-shared', 'bug', [('wind/__init__.py', "'gust.{0:03d}-{1:05d}.nc'.format(*track.trackId))", "'gust.{0:03d}.nc'.format(*track.trackId))")]),
 ('evol', 'bug', [('wind/__init__.py', "'evolution.{0:03d}-{1:05d}.nc'.format(\n                               *track.trackId))", "'evolution.nc')")]),
]
CASES += [
 ('rank1', 'bug', [('Utilities/parallel.py', 'MPI.COMM_WORLD.rank > 0:', 'MPI.COMM_WORLD.rank > 1:')]),
 ('run-first', 'bug', [('Utilities/parallel.py', '        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:\n            return\n        else:\n            return f(*args, **kwargs)', '        result = f(*args, **kwargs)\n        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:\n            return\n        return result')]),
]
CASES += [
 ('dp-plot', 'bug', [('tcrm.py', '@disableOnWorkers\ndef doHazardPlotting(', 'def doHazardPlotting(')]),
]
