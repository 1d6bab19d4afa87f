T = "TrackGenerator/TrackGenerator.py"
MU = "Utilities/maputils.py"
CASES = [
 ("slice-speed", "bug", [(T, "                        speed[:i], bearing[:i], pressure[:i],\n", "                        speed[1:i + 1], bearing[:i], pressure[:i],\n")]),
 ("all-plus1", "bug", [(T, """                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],
                        speed[:i], bearing[:i], pressure[:i],
                        poci[:i], rmax[:i])
""", """                i += 1
                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],
                        speed[:i], bearing[:i], pressure[:i],
                        poci[:i], rmax[:i])
""")]),
 ("order", "bug", [(T, "                speed[:i], bearing[:i], pressure[:i], poci[:i],\n", "                bearing[:i], speed[:i], pressure[:i], poci[:i],\n"), ]),
 ("order-last", "bug", [(T, "        return (index, dates, age, lon, lat, speed, bearing, pressure,\n                poci, rmax)", "        return (index, dates, age, lon, lat, speed, bearing, poci,\n                pressure, rmax)")]),
 ("cols", "bug", [("Utilities/track.py", "'Speed', 'Bearing',", "'Bearing', 'Speed',")]),
 ("dist-next", "bug", [(T, "            dist[i] = self.dt * speed[i]\n", "            dist[i] = self.dt * speed[i - 1]\n")]),
 ("dist0", "bug", [(T, "        dist[0] = self.dt * speed[0]\n", "        dist[0] = speed[0]\n")]),
 ("bearing-cur", "bug", [(T, "maputils.bear2LatLon(bearing[i - 1],\n", "maputils.bear2LatLon(bearing[0],\n")]),
 ("age", "bug", [(T, "            age[i] = age[i - 1] + self.dt\n", "            age[i] = age[i - 1] + 1.\n")]),
 ("dates", "bug", [(T, "        timestep = timedelta(self.dt/24.)", "        timestep = timedelta(minutes=self.dt)")]),
 ("dates-hours", "same", [(T, "        timestep = timedelta(self.dt/24.)", "        timestep = timedelta(hours=self.dt)")]),
 ("dates-init", "bug", [(T, "            dates[i] = dates[i - 1] + timestep\n", "            dates[i] = initTime + timestep\n")]),
 ("dates-closed", "same", [(T, "            dates[i] = dates[i - 1] + timestep\n", "            dates[i] = initTime + i * timestep\n")]),
 ("age-closed", "same", [(T, "            age[i] = age[i - 1] + self.dt\n", "            age[i] = i * self.dt\n")]),
 ("lonlat-swap", "bug", [(T, "            lon[i], lat[i] = maputils", "            lat[i], lon[i] = maputils")]),
 ("v-signed", "bug", [(T, "            dist[i] = self.dt * speed[i]\n", "            dist[i] = self.dt * self.v * 1.1\n")]),
 ("no-dist", "same", [(T, "                                                  dist[i - 1],\n", "                                                  self.dt * speed[i - 1],\n")]),
 ("scalar-dist", "same", [(T, "        dist[0] = self.dt * speed[0]\n", "        step = self.dt * speed[0]\n"), (T, "                                                  dist[i - 1],\n", "                                                  step,\n"), (T, "            dist[i] = self.dt * speed[i]\n", "            step = self.dt * speed[i]\n")]),
 ("prev-pos", "same", [(T, """            lon[i], lat[i] = maputils.bear2LatLon(bearing[i - 1],
                                                  dist[i - 1],
                                                  lon[i - 1],
                                                  lat[i - 1])
""", """            before = i - 1
            there = maputils.bear2LatLon(bearing[before], dist[before],
                                         oLat=lat[before], oLon=lon[before])
            lon[i] = there[0]
            lat[i] = there[1]
""")]),
 ("loop0", "same", [(T, "        for i in range(1, self.maxTimeSteps):\n", "        for n in range(self.maxTimeSteps - 1):\n            i = n + 1\n")]),
 ("loop-short", "bug", [(T, "        for i in range(1, self.maxTimeSteps):\n", "        for i in range(1, self.maxTimeSteps - 1):\n")]),
 ("helper", "same", [(T, """                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],
                        speed[:i], bearing[:i], pressure[:i],
                        poci[:i], rmax[:i])
""", """                cols = (index, dates, age, lon, lat, speed, bearing,
                        pressure, poci, rmax)
                return tuple(c[:i] for c in cols)
""")]),
 ("gc", "bug", [(MU, "    bb = np.cos(distance / radius) - np.sin(oLat) * np.sin(nLat)", "    bb = np.cos(distance / radius) - np.sin(oLat) * np.sin(oLat)")]),
 ("gc-same", "same", [(MU, "    nLon = oLon + np.arctan2(aa, bb)\n\n    return math.degrees(nLon), math.degrees(nLat)", "    nLon = math.degrees(oLon + np.arctan2(aa, bb))\n    return nLon, math.degrees(nLat)")]),
 ("rmax-start", "bug", [(T, "        rmax[0] = initRmax\n", "        rmax[0] = initSpeed\n")]),
 ("swap-call", "bug", [(T, """                                     genesisPressure, genesisEnvPressure,
""", """                                     genesisEnvPressure, genesisPressure,
""")]),
 ("while", "same", [(T, "        for i in range(1, self.maxTimeSteps):\n", "        i = 0\n        while i < self.maxTimeSteps - 1:\n            i += 1\n")]),
]
CASES += [
 ('dt-int', 'bug', [('TrackGenerator/TrackGenerator.py', 'timestep = timedelta(self.dt/24.)', 'timestep = timedelta(int(self.dt)/24.)')]),
 ('age-i', 'bug', [('TrackGenerator/TrackGenerator.py', '            age[i] = age[i - 1] + self.dt\n', '            age[i] = age[i - 1] + i * self.dt\n')]),
 ('speed-lag', 'bug', [('TrackGenerator/TrackGenerator.py', '            dist[i] = self.dt * speed[i]\n', '            dist[i] = self.dt * speed[i - 1]\n')]),
 ('index-short', 'bug', [('TrackGenerator/TrackGenerator.py', '                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],\n                        speed[:i], bearing[:i], pressure[:i], poci[:i],\n                        rmax[:i])', '                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],\n                        speed[:i], bearing[:i], pressure[:i], poci[:i],\n                        rmax[1:i + 1])')]),
 ('from-genesis', 'bug', [('TrackGenerator/TrackGenerator.py', '                                                  lon[i - 1],\n                                                  lat[i - 1])', '                                                  lon[i - 1],\n                                                  lat[0])')]),
]
CASES += [
 ('alias-poci', 'bug', [('TrackGenerator/TrackGenerator.py', "        pressure = np.empty(self.maxTimeSteps, 'f')\n        poci = np.empty(self.maxTimeSteps, 'f')\n", "        poci = pressure = np.empty(self.maxTimeSteps, 'f')\n")]),
 ('age-int', 'bug', [('TrackGenerator/TrackGenerator.py', "        age = np.empty(self.maxTimeSteps, 'f')\n", "        age = np.empty(self.maxTimeSteps, 'i')\n")]),
 ('dist-int', 'bug', [('TrackGenerator/TrackGenerator.py', "        dist = np.empty(self.maxTimeSteps, 'f')\n", "        dist = np.empty(self.maxTimeSteps, 'i')\n")]),
 ('date-alias', 'bug', [('TrackGenerator/TrackGenerator.py', '            dates[i] = dates[i - 1] + timestep\n', '            dates[i] = initTime + timestep * (i - 1)\n')]),
]
CASES += [
 ('dt-whole', 'bug', [('TrackGenerator/TrackGenerator.py', '        timestep = timedelta(self.dt/24.)', '        timestep = timedelta(hours=int(self.dt))')]),
 ('dt-min', 'same', [('TrackGenerator/TrackGenerator.py', '        timestep = timedelta(self.dt/24.)', '        timestep = timedelta(minutes=60. * self.dt)')]),
 ('dt-sec', 'bug', [('TrackGenerator/TrackGenerator.py', '        timestep = timedelta(self.dt/24.)', '        timestep = timedelta(seconds=60. * self.dt)')]),
]
CASES += [
 ('hours-int', 'bug', [('TrackGenerator/TrackGenerator.py', 'timestep = timedelta(self.dt/24.)', 'timestep = timedelta(hours=int(self.dt))')]),
 ('date-age', 'bug', [('TrackGenerator/TrackGenerator.py', 'dates[i] = dates[i - 1] + timestep', 'dates[i] = initTime + timedelta(hours=round(age[i]))')]),
 ('date-age-same', 'same', [('TrackGenerator/TrackGenerator.py', 'dates[i] = dates[i - 1] + timestep', 'dates[i] = initTime + i * timestep')]),
 ('names-sorted', 'bug', [('TrackGenerator/TrackGenerator.py', "track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})", "track_dtype = np.dtype({'names':sorted(TCRM_COLS), 'formats':TCRM_FMTS})")]),
]
