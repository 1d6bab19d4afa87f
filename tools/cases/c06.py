T = "TrackGenerator/TrackGenerator.py"
ST = "Utilities/stats.py"
KEEP = """            if not (empty(track) or diedEarly(track))\\
                    and validInitPressure(track) \\
               and validPressures(track) and validSize(track) \\
               and validInitSize(track):
                if self.innerGridLimit and not insideDomain(track):
                    log.debug("Track exits inner grid limit - rejecting")
                    continue
                else:
                    results.append(track)
                    log.debug("Completed track {0:03d}-{1:04d}".\\
                              format(*track.trackId))
                    j += 1
            else:
                log.debug("Eliminated invalid track")
"""
CASES = [
 ("no-size", "bug", [(T, "and validPressures(track) and validSize(track) \\\n", "and validPressures(track) \\\n")]),
 ("no-init-size", "bug", [(T, "               and validInitSize(track):", "               and True:")]),
 ("or", "bug", [(T, "return (all(track.rMax > 5.) and all(track.rMax < 500.))", "return (all(track.rMax > 5.) or all(track.rMax < 500.))")]),
 ("any", "bug", [(T, "return (all(track.rMax > 5.) and all(track.rMax < 500.))", "return (any(track.rMax > 5.) and all(track.rMax < 500.))")]),
 ("age", "bug", [(T, "return track.TimeElapsed[-1] < minAge", "return track.TimeElapsed[0] > minAge")]),
 ("age2", "bug", [(T, "def diedEarly(track, minAge=12):", "def diedEarly(track, minAge=6):")]),
 ("age-len", "bug", [(T, "return track.TimeElapsed[-1] < minAge", "return len(track.TimeElapsed) < minAge")]),
 ("pressure-first", "bug", [(T, """            if all(np.round(track.CentralPressure, 2) <\\
                       np.round(track.EnvPressure, 2)):""", """            if all(np.round(track.CentralPressure[1:], 2) <=\\
                       np.round(track.EnvPressure[1:], 2)):""")]),
 ("deficit", "bug", [(T, "            return (track.EnvPressure[0] - track.CentralPressure[0] > 1.0)", "            return (track.EnvPressure[0] - track.CentralPressure[0] > 0.0)")]),
 ("inner-any", "bug", [(T, "            return all(inside)", "            return any(inside)")]),
 ("inner-side", "bug", [(T, "                      track.Latitude[k] > self.innerGridLimit['yMin'] and\n", "")]),
 ("j-out", "bug", [(T, "                    j += 1\n            else:\n                log.debug(\"Eliminated invalid track\")\n", "            else:\n                log.debug(\"Eliminated invalid track\")\n            j += 1\n")]),
 ("loop-le", "bug", [(T, "        while j < nTracks:", "        while j <= nTracks:")]),
 ("for", "bug", [(T, "        j = 0\n        while j < nTracks:", "        for j in range(nTracks):"), (T, "                    j += 1\n", "")]),
 ("exit-lt", "bug", [(T, "                    lat[i] <= self.gridLimit['yMin'] or\n                    lat[i] > self.gridLimit['yMax']):", "                    lat[i] <= self.gridLimit['yMin']):")]),
 ("exit-include", "bug", [(T, """                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],
                        speed[:i], bearing[:i], pressure[:i],
                        poci[:i], rmax[:i])
""", """                i += 1
                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],
                        speed[:i], bearing[:i], pressure[:i],
                        poci[:i], rmax[:i])
""")]),
 ("exit-prev", "bug", [(T, "            if (lon[i] < self.gridLimit['xMin'] or\n", "            if (lon[i - 1] < self.gridLimit['xMin'] or\n")]),
 ("sim-n", "bug", [(T, "        tracks = tg.generateTracks(sim.ntracks, sim.index)", "        tracks = tg.generateTracks(sim.ntracks - 1, sim.index)")]),
 ("sims-n", "bug", [(T, "        sims.append(Simulation(i, trackSeed, jumpAhead[i], n,", "        sims.append(Simulation(i, trackSeed, n, jumpAhead[i],")]),
 ("cell", "bug", [(ST, "    if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or\n            lat <= gridLimit['yMin']", "    if (lon < gridLimit['xMin'] or lon > gridLimit['xMax'] + 5 or\n            lat <= gridLimit['yMin']")]),
 ("save-some", "bug", [(T, "ncSaveTracks(ncTrackFile, tracks, calendar='julian')", "ncSaveTracks(ncTrackFile, tracks[1:], calendar='julian')")]),
 ("fact", "same", [(T, KEEP, """            if (empty(track) or diedEarly(track)
                    or not validInitPressure(track)
                    or not validPressures(track)
                    or not validSize(track) or not validInitSize(track)):
                log.debug("Eliminated invalid track")
                continue
            if self.innerGridLimit is not None and not insideDomain(track):
                continue
            results.append(track)
            j = len(results)
""")]),
 ("helper", "same", [(T, KEEP, """            if not self._acceptable(track, [diedEarly, empty], [validInitPressure, validPressures, validSize, validInitSize]):
                continue
            if self.innerGridLimit and not insideDomain(track):
                continue
            results.append(track)
            j += 1
"""), (T, "    def generateTracksToFile(", """    def _acceptable(self, track, bad, good):
        if len(track.Longitude) == 0:
            return False
        for f in bad:
            if f(track):
                return False
        for f in good:
            if not f(track):
                return False
        return True

    def generateTracksToFile(""")]),
 ("minmax", "same", [(T, "return (all(track.rMax > 5.) and all(track.rMax < 500.))", "return track.rMax.min() > 5. and np.max(track.rMax) < 500.")]),
 ("inner-vec", "same", [(T, """            inside = [track.Longitude[k] > self.innerGridLimit['xMin'] and
                      track.Longitude[k] < self.innerGridLimit['xMax'] and
                      track.Latitude[k] > self.innerGridLimit['yMin'] and
                      track.Latitude[k] < self.innerGridLimit['yMax']
                      for k in range(len(track.Longitude))]
""", """            lim = self.innerGridLimit
            inside = ((track.Longitude > lim['xMin']) & (track.Longitude < lim['xMax'])
                      & (track.Latitude > lim['yMin']) & (track.Latitude < lim['yMax']))
""")]),
 ("inner-zip", "same", [(T, """            inside = [track.Longitude[k] > self.innerGridLimit['xMin'] and
                      track.Longitude[k] < self.innerGridLimit['xMax'] and
                      track.Latitude[k] > self.innerGridLimit['yMin'] and
                      track.Latitude[k] < self.innerGridLimit['yMax']
                      for k in range(len(track.Longitude))]
""", """            lim = self.innerGridLimit
            inside = [lim['xMin'] < x < lim['xMax'] and lim['yMin'] < y < lim['yMax']
                      for x, y in zip(track.Longitude, track.Latitude)]
""")]),
 ("exit-same", "same", [(T, """            if (lon[i] < self.gridLimit['xMin'] or
                    lon[i] >= self.gridLimit['xMax'] or
                    lat[i] <= self.gridLimit['yMin'] or
                    lat[i] > self.gridLimit['yMax']):

""", """            lim = self.gridLimit
            if not (lim['xMin'] <= lon[i] < lim['xMax'] and
                    lim['yMin'] < lat[i] <= lim['yMax']):

""")]),
 ("len-loop", "same", [(T, "        while j < nTracks:", "        while len(results) < nTracks:")]),
]
CASES += [
 ('reject-continue', 'bug', [('TrackGenerator/TrackGenerator.py', '                    log.debug("Track exits inner grid limit - rejecting")\n                    continue', '                    log.debug("Track exits inner grid limit - rejecting")\n                    j += 1\n                    continue')]),
 ('round-up', 'bug', [('TrackGenerator/TrackGenerator.py', '            if all(np.round(track.CentralPressure, 2) <\\\n                       np.round(track.EnvPressure, 2)):', '            if all(np.round(track.CentralPressure[:-1], 2) <\\\n                       np.round(track.EnvPressure[:-1], 2)):')]),
 ('size-mean', 'bug', [('TrackGenerator/TrackGenerator.py', '            return (all(track.rMax > 5.) and all(track.rMax < 500.))', '            return (track.rMax.mean() > 5. and all(track.rMax < 500.))')]),
 ('age-first', 'bug', [('TrackGenerator/TrackGenerator.py', '            return track.TimeElapsed[-1] < minAge', '            return track.TimeElapsed.max() + self.dt < minAge')]),
 ('inner-every-other', 'bug', [('TrackGenerator/TrackGenerator.py', '                      for k in range(len(track.Longitude))]', '                      for k in range(0, len(track.Longitude), 2)]')]),
 ('inner-lon360', 'bug', [('TrackGenerator/TrackGenerator.py', "            inside = [track.Longitude[k] > self.innerGridLimit['xMin'] and", "            inside = [track.Longitude[k] > self.gridLimit['xMin'] and")]),
 ('domain-one-extra', 'bug', [('TrackGenerator/TrackGenerator.py', '                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],\n                        speed[:i], bearing[:i], pressure[:i],\n                        poci[:i], rmax[:i])', '                i += 1\n                return (index[:i], dates[:i], age[:i], lon[:i], lat[:i],\n                        speed[:i], bearing[:i], pressure[:i],\n                        poci[:i], rmax[:i])')]),
 ('while-tries', 'bug', [('TrackGenerator/TrackGenerator.py', '        while j < nTracks:\n', '        tries = 0\n        while j < nTracks and tries < 1000 * nTracks:\n            tries += 1\n')]),
 ('ntracks-first2', 'bug', [('TrackGenerator/TrackGenerator.py', '        tracks = tg.generateTracks(sim.ntracks, sim.index)', '        tracks = tg.generateTracks(sims[0].ntracks, sim.index)')]),
 ('ntracks-prev', 'bug', [('TrackGenerator/TrackGenerator.py', '        sims.append(Simulation(i, trackSeed, jumpAhead[i], n,', '        sims.append(Simulation(i, trackSeed, jumpAhead[i], nCyclones[i - 1],')]),
 ('ntracks-min1', 'bug', [('TrackGenerator/TrackGenerator.py', '        sims.append(Simulation(i, trackSeed, jumpAhead[i], n,', '        sims.append(Simulation(i, trackSeed, jumpAhead[i], max(n, 1),')]),
]
CASES += [
 ('inner-gate', 'bug', [('TrackGenerator/TrackGenerator.py', "            inside = [track.Longitude[k] > self.innerGridLimit['xMin'] and", "            inside = [track.Longitude[0] > self.innerGridLimit['xMin'] and")]),
 ('press-nan', 'bug', [('TrackGenerator/TrackGenerator.py', '            if all(np.round(track.CentralPressure, 2) <\\\n                       np.round(track.EnvPressure, 2)):', '            if not any(np.round(track.CentralPressure, 0) >\\\n                       np.round(track.EnvPressure, 0)):')]),
]
CASES += [
 ('inner-all', 'bug', [('TrackGenerator/TrackGenerator.py', 'if self.innerGridLimit and not insideDomain(track):', 'if self.innerGridLimit and j > 0 and not insideDomain(track):')]),
 ('press-round', 'bug', [('TrackGenerator/TrackGenerator.py', 'if all(np.round(track.CentralPressure, 2) <\\\n                       np.round(track.EnvPressure, 2)):', 'if all(np.round(track.CentralPressure, 2) <\\\n                       np.round(track.EnvPressure, 2).max()):')]),
 ('cont-count', 'bug', [('TrackGenerator/TrackGenerator.py', '                    log.debug("Track exits inner grid limit - rejecting")\n                    continue', '                    log.debug("Track exits inner grid limit - rejecting")\n                    j += 1\n                    continue')]),
]
CASES += [
 ('len-check', 'bug', [('TrackGenerator/TrackGenerator.py', 'all(track.rMax < 500.)', 'all(track.rMax[:-1] < 500.)')]),
 ('rmax-low', 'bug', [('TrackGenerator/TrackGenerator.py', 'all(track.rMax > 5.)', 'any(track.rMax > 5.)')]),
]
