T = "TrackGenerator/TrackGenerator.py"
CASES = [
 ("zero-bearing", "bug", [(T, "            if initBearing is None:", "            if not initBearing:")]),
 ("zero-lon", "bug", [(T, "            if initLon is None or initLat is None:", "            if not (initLon and initLat):")]),
 ("env-leak", "bug", [(T, "            if initEnvPressure is None:\n                genesisEnvPressure = ", "            if initEnvPressure is None:\n                initEnvPressure = genesisEnvPressure = ")]),
 ("day-leak", "bug", [(T, "                genesisDay = ppf(uniform(), cdfInitDay)", "                genesisDay = initDay = ppf(uniform(), cdfInitDay)")]),
 ("pos-once", "bug", [(T, """                genesisLon, genesisLat = \\
                    self.originSampler.ppf(uniform(), uniform())
""", """                initLon, initLat = \\
                    self.originSampler.ppf(uniform(), uniform())
                genesisLon, genesisLat = initLon, initLat
""")]),
 ("wrong-cdf", "bug", [(T, "                cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]", "                cdfInitSpeed = self.allCDFInitBearing[ind, 1:3]")]),
 ("wrong-ind", "bug", [(T, "                ind = self.allCDFInitDay[:, 0] == initCellNum", "                ind = self.allCDFInitSpeed[:, 0] == initCellNum")]),
 ("swap-origin", "bug", [(T, "                genesisLon, genesisLat = \\\n", "                genesisLat, genesisLon = \\\n")]),
 ("same-u", "bug", [(T, "                    self.originSampler.ppf(uniform(), uniform())", "                    self.originSampler.ppf(*[uniform()] * 2)")]),
 ("cell-hoist", "bug", [(T, "            initCellNum = stats.getCellNum(genesisLon, genesisLat,", "            initCellNum = stats.getCellNum(genesisLat, genesisLon,")]),
 ("u-hoist", "bug", [(T, "        results = []\n        j = 0\n        while", "        results = []\n        ub = uniform()\n        j = 0\n        while"), (T, "genesisBearing = ppf(uniform(), cdfInitBearing)", "genesisBearing = ppf(ub, cdfInitBearing)")]),
 ("env-day", "bug", [(T, """                    self.mslp.get_pressure(np.array([[genesisDay],
                                                     [genesisLat],
                                                     [genesisLon]]))""", """                    self.mslp.get_pressure(np.array([[genesisHour],
                                                     [genesisLat],
                                                     [genesisLon]]))""")]),
 ("env-swap", "bug", [(T, """                                                     [genesisLat],
                                                     [genesisLon]]))""", """                                                     [genesisLon],
                                                     [genesisLat]]))""")]),
 ("file-swap", "bug", [(T, "            load(pjoin(path, 'all_cell_cdf_init_speed'))", "            load(pjoin(path, 'all_cell_cdf_init_bearing'))")]),
 ("ppf-col", "bug", [(T, "    return cdf[i, 0]", "    return cdf[i, 1]")]),
 ("ppf-off", "bug", [(T, "    i = cdf[:, 1].searchsorted(q)\n", "    i = cdf[:, 1].searchsorted(q) - 1\n")]),
 ("call-swap", "bug", [(T, """                                     genesisSpeed, genesisBearing,
                                     genesisPressure,""", """                                     genesisBearing, genesisSpeed,
                                     genesisPressure,""")]),
 ("rmax-env", "bug", [(T, "                dp = genesisEnvPressure - genesisPressure\n", "                dp = 1010. - genesisPressure\n")]),
 ("abs-given", "bug", [(T, "                genesisLat = initLat\n", "                genesisLat = -abs(initLat)\n")]),
 ("eps-kept", "bug", [(T, "                self.rmwEps = normal(0., 0.335)\n                genesisRmax = trackSize", "                if not hasattr(self, 'rmwEps'):\n                    self.rmwEps = normal(0., 0.335)\n                genesisRmax = trackSize")]),
 ("helper", "same", [(T, """                ind = self.allCDFInitBearing[:, 0] == initCellNum
                cdfInitBearing = self.allCDFInitBearing[ind, 1:3]
                genesisBearing = ppf(uniform(), cdfInitBearing)
""", """                genesisBearing = self._sampleCell(self.allCDFInitBearing,
                                                  initCellNum)
"""), (T, "    def _stepPressureChange(self, c, i, onLand):", """    def _sampleCell(self, dist, cell):
        rows = dist[dist[:, 0] == cell]
        return ppf(uniform(), rows[:, 1:3])

    def _stepPressureChange(self, c, i, onLand):""")]),
 ("flip", "same", [(T, """            if initRmax is None:
""", """            if not (initRmax is not None):
""")]),
 ("while-len", "same", [(T, "        while j < nTracks:\n", "        while len(results) < nTracks:\n            j = len(results)\n"), (T, "                    j += 1\n", "")]),
 ("kwcall", "same", [(T, """            data = self._singleTrack(j, genesisLon, genesisLat,
                                     genesisSpeed, genesisBearing,
                                     genesisPressure, genesisEnvPressure,
                                     genesisRmax, genesisTime)""", """            data = self._singleTrack(j, initLat=genesisLat, initLon=genesisLon,
                                     initSpeed=genesisSpeed, initBearing=genesisBearing,
                                     initPressure=genesisPressure, initEnvPressure=genesisEnvPressure,
                                     initRmax=genesisRmax, initTime=genesisTime)""")]),
 ("default-first", "same", [(T, """            if initSpeed is None:
                ind = self.allCDFInitSpeed[:, 0] == initCellNum
                cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]
                genesisSpeed = ppf(uniform(), cdfInitSpeed)
            else:
                genesisSpeed = initSpeed
""", """            genesisSpeed = initSpeed
            if genesisSpeed is None:
                cdf = self.allCDFInitSpeed
                cdfInitSpeed = cdf[cdf[:, 0] == initCellNum][:, 1:]
                genesisSpeed = ppf(uniform(), cdfInitSpeed)
""")]),
 ("time-delta", "same", [(T, """            initTimeStr = "%04d-%03d %d:00" % (genesisYear,
                                               genesisDay,
                                               genesisHour)
            genesisTime = datetime.strptime(initTimeStr, "%Y-%j %H:%M")
""", """            genesisTime = datetime(genesisYear, 1, 1) + timedelta(
                days=int(genesisDay) - 1, hours=genesisHour)
""")]),
]
CASES += [
 ('given-pos-partial', 'bug', [('TrackGenerator/TrackGenerator.py', '            if initLon is None or initLat is None:', '            if initLon is None and initLat is None:')]),
 ('day-reuse', 'bug', [('TrackGenerator/TrackGenerator.py', '                genesisDay = ppf(uniform(), cdfInitDay)', '                genesisDay = initDay = ppf(uniform(), cdfInitDay)')]),
 ('rmax-given-censored', 'bug', [('TrackGenerator/TrackGenerator.py', '                genesisRmax = initRmax\n', '                genesisRmax = min(initRmax, 100.)\n')]),
 ('env-hour', 'bug', [('TrackGenerator/TrackGenerator.py', 'self.mslp.get_pressure(np.array([[genesisDay],\n                                                     [genesisLat],', 'self.mslp.get_pressure(np.array([[genesisHour],\n                                                     [genesisLat],')]),
 ('pressure-cell', 'bug', [('TrackGenerator/TrackGenerator.py', 'ind = self.allCDFInitPressure[:, 0] == initCellNum', 'ind = self.allCDFInitPressure[:, 0] <= initCellNum')]),
 ('speed-day-cdf', 'bug', [('TrackGenerator/TrackGenerator.py', 'genesisSpeed = ppf(uniform(), cdfInitSpeed)', 'genesisSpeed = ppf(uniform(), cdfInitBearing)')]),
 ('bearing-mod', 'bug', [('TrackGenerator/TrackGenerator.py', '                genesisBearing = initBearing\n', '                genesisBearing = initBearing % 180.\n')]),
 ('given-pressure-neg', 'bug', [('TrackGenerator/TrackGenerator.py', '            if initPressure is None:', '            if initPressure is None or initPressure > genesisEnvPressure:')]),
]
CASES += [
 ('year-day', 'bug', [('TrackGenerator/TrackGenerator.py', '                    self.mslp.get_pressure(np.array([[genesisDay],\n                                                     [genesisLat],', '                    self.mslp.get_pressure(np.array([[genesisDay % 31],\n                                                     [genesisLat],')]),
]
CASES += [
 ('envp-hour', 'bug', [('TrackGenerator/TrackGenerator.py', '                    self.mslp.get_pressure(np.array([[genesisDay],', '                    self.mslp.get_pressure(np.array([[genesisHour],')]),
 ('cache-cell', 'bug', [('TrackGenerator/TrackGenerator.py', '                ind = self.allCDFInitBearing[:, 0] == initCellNum\n                cdfInitBearing = self.allCDFInitBearing[ind, 1:3]\n', '                ind = self.allCDFInitBearing[:, 0] == initCellNum\n                cdfInitBearing = cdfs.setdefault(\n                    initCellNum, self.allCDFInitBearing[ind, 1:3])\n'), ('TrackGenerator/TrackGenerator.py', '                cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]\n', '                cdfInitSpeed = cdfs.setdefault(\n                    initCellNum, self.allCDFInitSpeed[ind, 1:3])\n'), ('TrackGenerator/TrackGenerator.py', '        results = []\n        j = 0\n', '        results = []\n        cdfs = {}\n        j = 0\n')]),
 ('first-cell', 'bug', [('TrackGenerator/TrackGenerator.py', '        results = []\n        j = 0\n', '        results = []\n        initCellNum = None\n        j = 0\n'), ('TrackGenerator/TrackGenerator.py', '            initCellNum = stats.getCellNum(genesisLon, genesisLat,\n                                           self.gridLimit,\n                                           self.gridSpace)\n', '            if initCellNum is None:\n                initCellNum = stats.getCellNum(genesisLon, genesisLat,\n                                               self.gridLimit,\n                                               self.gridSpace)\n')]),
 ('pressure-up', 'bug', [('TrackGenerator/TrackGenerator.py', '                genesisPressure = ppf(uniform(0.0, upperProb),\n                                      cdfInitPressure)', '                genesisPressure = ppf(uniform(0.0, upperProb),\n                                      cdfInitSpeed)')]),
]
CASES += [
 ('day-year', 'bug', [('TrackGenerator/TrackGenerator.py', 'self.mslp.get_pressure(np.array([[genesisDay],', 'self.mslp.get_pressure(np.array([[genesisTime.day],')]),
 ('bearing-reuse', 'bug', [('TrackGenerator/TrackGenerator.py', '                genesisBearing = ppf(uniform(), cdfInitBearing)', '                genesisBearing = initBearing = ppf(uniform(), cdfInitBearing)')]),
 ('speed-cell', 'bug', [('TrackGenerator/TrackGenerator.py', 'ind = self.allCDFInitSpeed[:, 0] == initCellNum', 'ind = np.round(self.allCDFInitSpeed[:, 0]) >= initCellNum')]),
 ('lonlat-either', 'bug', [('TrackGenerator/TrackGenerator.py', 'if initLon is None or initLat is None:', 'if initLon is None and initLat is None:')]),
]
