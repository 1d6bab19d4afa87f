D = "DataProcess/DataProcess.py"
SI = "StatInterface/StatInterface.py"
G = "StatInterface/generateStats.py"
GD = "StatInterface/GenerateDistributions.py"
CASES = [
 ("init-lon", "bug", [(D, "lonInit = lon.compress(initIndex)", "lonInit = lon.compress(indicator)")]),
 ("lat-col", "bug", [(D, "np.transpose([lonInit, latInit, lsflagInit])", "np.transpose([latInit, lonInit, lsflagInit])")]),
 ("init-bear", "bug", [(D, "initBearingIndex = np.flatnonzero(initIndex[:-1]) + 1", "initBearingIndex = np.flatnonzero(initIndex[:-1])")]),
 ("init-speed-ind", "bug", [(D, "initSpeedIndex = np.flatnonzero(initIndex[:-1]) + 1", "initSpeedIndex = np.flatnonzero(indicator[:-1]) + 1")]),
 ("pair-bearing", "bug", [(SI, """        lonLat = pjoin(self.processPath, 'init_lon_lat')
        pList = pjoin(self.processPath, 'init_bearing')""", """        lonLat = pjoin(self.processPath, 'origin_lon_lat')
        pList = pjoin(self.processPath, 'init_bearing')""")]),
 ("pair-pressure", "bug", [(SI, """        lonLat = pjoin(self.processPath, 'origin_lon_lat')
        pList = pjoin(self.processPath, 'init_pressure')""", """        lonLat = pjoin(self.processPath, 'init_lon_lat')
        pList = pjoin(self.processPath, 'init_pressure')""")]),
 ("label", "bug", [(SI, "dvStats = calculate('speed_rate')", "dvStats = calculate('pressure_rate')")]),
 ("init-pressure", "bug", [(D, "        initPressure = pressure.compress(indicator)", "        initPressure = pressure[np.flatnonzero(indicator[:-1]) + 1]")]),
 ("pressure-valid", "bug", [(D, "        initPressure = pressure.compress(indicator)", "        valid = pressure < sys.maxsize\n        initPressure = pressure[valid].compress(indicator[valid])")]),
 ("filter-lat", "bug", [(D, """                lat = lat[idx]
""", """                lat = lat[:len(idx)]
""")]),
 ("bear-shift", "bug", [(D, "        bear[1:] = bear_\n", "        bear[:-1] = bear_\n")]),
 ("dt-shift", "bug", [(D, "            dt[1:] = np.diff(inputData['age'])", "            dt[:-1] = np.diff(inputData['age'])")]),
 ("select-after", "bug", [(GD, """        parameter_ = self.pList[indij]
        self.parameter = stats.statRemoveNum(np.array(parameter_),
                                             self.missingValue)

        while np.size""", """        parameter_ = stats.statRemoveNum(np.array(self.pList),
                                         self.missingValue)
        self.parameter = parameter_[indij]
        while np.size""")]),
 ("jdays", "bug", [(D, "        flSaveFile(jday, np.transpose(jdays.compress(indicator)),", "        flSaveFile(jday, np.transpose(jdays[:indicator.sum()]),")]),
 ("take-style", "same", [(D, "lonInit = lon.compress(initIndex)", "lonInit = lon[np.flatnonzero(initIndex)]")]),
 ("bool-style", "same", [(D, "        initPressure = pressure.compress(indicator)", "        initPressure = pressure[indicator == 1]")]),
 ("helper", "same", [(SI, """        lonLat = pjoin(self.processPath, 'init_lon_lat')
        pList = pjoin(self.processPath, 'init_bearing')
""", """        lonLat, pList = [pjoin(self.processPath, n)
                         for n in ('init_lon_lat', 'init_bearing')]
""")]),
 ("init-direct", "same", [(D, "initBearingIndex = np.flatnonzero(initIndex[:-1]) + 1", "initBearingIndex = 1 + np.where(initIndex[:-1] == 1)[0]")]),
]
CASES += [
 ('lsone', 'bug', [('DataProcess/DataProcess.py', 'lsflagOne = lsflag.compress(indicator)', 'lsflagOne = lsflag.compress(initIndex)')]),
 ('idx', 'bug', [('DataProcess/DataProcess.py', '                lat = lat[idx]\n            except', '                lat = lat[:len(idx)]\n            except')]),
 ('trans', 'bug', [('DataProcess/DataProcess.py', 'np.transpose([lonInit, latInit, lsflagInit])', 'np.transpose([latInit, lonInit, lsflagInit])')]),
]
CASES += [
 ('genesis-day', 'bug', [('StatInterface/StatInterface.py', "        lonLat = pjoin(self.processPath, 'origin_lon_lat')\n        kde", "        lonLat = pjoin(self.processPath, 'init_lon_lat')\n        kde")]),
 ('calc', 'bug', [('StatInterface/StatInterface.py', "pjoin(path, 'all_lon_lat')", "pjoin(path, 'origin_lon_lat')")]),
 ('sorted', 'bug', [('DataProcess/DataProcess.py', '        initPressure = pressure.compress(indicator)\n', '        initPressure = np.sort(pressure.compress(indicator))\n')]),
 ('valid-init', 'bug', [('DataProcess/DataProcess.py', '        initPressure = pressure.compress(indicator)\n', '        initPressure = pressure.compress(indicator)\n        initPressure = initPressure.compress(initPressure < sys.maxsize)\n')]),
 ('rmax-init', 'bug', [('DataProcess/DataProcess.py', '        initrmax = rmax.compress(indicator)\n', '        initrmax = rmax.compress(indicator == 1)[1:]\n')]),
 ('speed-file', 'bug', [('DataProcess/DataProcess.py', "            flSaveFile(all_speed, speed, header, fmt='%6.2f')", "            flSaveFile(all_speed, speedNoInit, header, fmt='%6.2f')")]),
 ('filter-lon', 'bug', [('DataProcess/DataProcess.py', '                lon = lon[idx]\n                lat = lat[idx]\n            except', '                lon = lon[idx]\n                lat = lat[idx][::-1]\n            except')]),
 ('domain', 'bug', [('DataProcess/DataProcess.py', '            inputData = inputData[domainIndex]\n', '')]),
 ('select', 'bug', [('StatInterface/generateStats.py', '        p_ = self.param[ij]\n        p = stats', '        p_ = self.param[1:][ij[0][:-1]]\n        p = stats')]),
 ('press-sel', 'bug', [('DataProcess/DataProcess.py', "            flSaveFile(all_pressure, pressure, header, fmt='%7.2f')", "            flSaveFile(all_pressure, pressure[pressure < sys.maxsize], header, fmt='%7.2f')")]),
 ('lsinit', 'bug', [('DataProcess/DataProcess.py', '        latInit = lat.compress(initIndex)\n', '        latInit = lat.compress(indicator)\n')]),
 ('brate', 'bug', [('DataProcess/DataProcess.py', "            flSaveFile(bearing_rate, bearingRate, header, fmt='%6.2f')", "            flSaveFile(bearing_rate, bearingRate[1:], header, fmt='%6.2f')")]),
]
CASES += [
 ('inplace', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, indicator, sys.maxsize)\n        np.putmask(pressureRate, pressure >=', '        pressure = pressure[indicator == 0]\n        np.putmask(pressureRate, indicator, sys.maxsize)\n        np.putmask(pressureRate, pressure >=')]),
]
CASES += [
 ('init-single', 'bug', [('DataProcess/DataProcess.py', '        initBearingIndex = np.flatnonzero(initIndex[:-1]) + 1\n', '        initBearingIndex = np.flatnonzero(indicator[:-1]) + 1\n')]),
 ('init-speed-drop', 'bug', [('DataProcess/DataProcess.py', '        initSpeed = speed.take(initSpeedIndex)\n', '        initSpeed = speed.take(initSpeedIndex)\n        initSpeed = initSpeed.compress(initSpeed < sys.maxsize)\n')]),
 ('stats-origin', 'bug', [('StatInterface/StatInterface.py', "                pjoin(path, 'all_lon_lat'),\n", "                pjoin(path, 'init_lon_lat' if angular else 'all_lon_lat'),\n")]),
 ('gd-lononly', 'bug', [('StatInterface/GenerateDistributions.py', '            self.pList = np.array(flLoadFile(parameterList))\n', '            self.pList = np.sort(np.array(flLoadFile(parameterList)))\n')]),
 ('jdays-unique', 'bug', [('DataProcess/DataProcess.py', 'flSaveFile(jday, np.transpose(jdays.compress(indicator)),', 'flSaveFile(jday, np.transpose(jdays.compress(indicator == 0)),')]),
]
CASES += [
 ('gd-sort', 'bug', [('StatInterface/GenerateDistributions.py', '            self.pList = np.array(flLoadFile(parameterList))\n', '            self.pList = np.sort(np.array(flLoadFile(parameterList)))\n')]),
 ('gd-first', 'bug', [('StatInterface/GenerateDistributions.py', '            self.pList = np.array(flLoadFile(parameterList))\n', '            self.pList = np.array(flLoadFile(parameterList))[1:]\n            self.lonLat = self.lonLat[:-1]\n')]),
 ('gd-same', 'same', [('StatInterface/GenerateDistributions.py', '            self.pList = np.array(flLoadFile(parameterList))\n', '            values = flLoadFile(parameterList)\n            self.pList = np.asarray(values, dtype=float)\n')]),
 ('gd-unique', 'bug', [('StatInterface/GenerateDistributions.py', '            self.lonLat = lonLat\n', '            self.lonLat = np.unique(lonLat, axis=0)\n')]),
]
