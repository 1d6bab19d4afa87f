T = "Utilities/timeseries.py"
W = "wind/__init__.py"
H = "wind/writer.py"
D = "Utilities/dynarray.py"
M = "Utilities/maputils.py"
CASES = [
 ("row and column swapped", "bug", [(T, "ss = spd[yy, xx]", "ss = spd[xx, yy]")]),
 ("pressure of other point", "bug", [(T, "pp = prs[yy, xx]", "pp = prs[yy, xx - 1]")]),
 ("components swapped in record", "bug", [(T, "                ss, ux, vy, bb, pp = result\n                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, ss,\n                                 ux, vy, bb, pp))", "                ss, ux, vy, bb, pp = result\n                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, ss,\n                                 vy, ux, bb, pp))")]),
 ("bearing to", "bug", [(T, "np.arctan2(-ux, -vy)", "np.arctan2(ux, vy)")]),
 ("bearing arguments", "bug", [(T, "np.arctan2(-ux, -vy)", "np.arctan2(-vy, -ux)")]),
 ("bearing unwrapped", "bug", [(T, "bb = np.mod((180. / np.pi) * np.arctan2(-ux, -vy), 360.)", "bb = (180. / np.pi) * np.arctan2(-ux, -vy)")]),
 ("bearing other form", "same", [(T, "bb = np.mod((180. / np.pi) * np.arctan2(-ux, -vy), 360.)", "bb = (np.degrees(np.arctan2(ux, vy)) + 180.) % 360.")]),
 ("lat lon swapped in record", "bug", [(T, "stn.data.append((str(stn.id), dt, stn.lon, stn.lat, ss,", "stn.data.append((str(stn.id), dt, stn.lat, stn.lon, ss,")]),
 ("index before nearest", "bug", [(M, "        idx = (abs(array - value)).argmin()", "        idx = (array - value).argmin()")]),
 ("searchsorted", "miss", [(M, "        idx = (abs(array - value)).argmin()", "        idx = np.searchsorted(array, value)")]),
 ("squared distance", "same", [(M, "        idx = (abs(array - value)).argmin()", "        idx = np.argmin((array - value) ** 2)")]),
 ("last index wrong", "bug", [(M, "    if (value > array.max()):", "    if (value >= array.max()):"), (M, "        return len(array) - 1\n", "        return len(array) - 2\n")]),
 ("grown array loses records", "bug", [(D, "            self._data = np.resize(self._data, self.size)", "            self._data = np.empty(self.size, self.dtype)")]),
 ("length before store", "miss", [(D, "        self._data[self.length] = rec\n        self.length += 1", "        self.length += 1\n        self._data[self.length - 2] = rec")]),
 ("one record short", "bug", [(D, "return self._data[:self.length]", "return self._data[:self.length - 1]")]),
 ("grow test", "bug", [(D, "if self.length == self.size:", "if self.length + 1 == self.size:"), (D, "            self.size = int(1.5 * self.size)\n            self._data = np.resize(self._data, self.size)\n        self._data[self.length] = rec", "            self.size = int(1.5 * self.size)\n            self._data = np.resize(self._data, self.size)\n            self.length = 0\n        self._data[self.length] = rec")]),
 ("max of pressure", "bug", [(T, "max_step = np.argmax(stn.data.data['Speed'])", "max_step = np.argmax(stn.data.data['Pressure'])")]),
 ("min over speed", "bug", [(T, "min_step = np.argmin(stn.data.data['Pressure'])", "min_step = np.argmin(stn.data.data['Speed'])")]),
 ("minima at maximum step", "bug", [(T, "min_data.append(tuple(stn.data.data[min_step]))", "min_data.append(tuple(stn.data.data[max_step]))")]),
 ("summaries swapped", "bug", [(T, "np.savetxt(self.maxfile, max_data.data", "np.savetxt(self.maxfile, min_data.data")]),
 ("summaries via method", "same", [(T, "max_step = np.argmax(stn.data.data['Speed'])", "max_step = stn.data.data['Speed'].argmax()")]),
 ("wind test strict", "bug", [(T, "np.any(stn.data.data['Speed'] > 0.0)", "np.all(stn.data.data['Speed'] > 5.0)")]),
 ("wind test max", "same", [(T, "np.any(stn.data.data['Speed'] > 0.0)", "stn.data.data['Speed'].max() > 0.0")]),
 ("header order", "bug", [(T, "header = 'Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure'", "header = 'Station,Time,Longitude,Latitude,Speed,UU,VV,Pressure,Bearing'")]),
 ("station columns", "bug", [(T, "stnlon = stndata[:, 1]", "stnlon = stndata[:, 2]"), (T, "stnlat = stndata[:, 2]", "stnlat = stndata[:, 1]")]),
 ("shape coordinates", "bug", [(T, "lat = vertices[stn][0][1]", "lat = vertices[stn][0][0]"), (T, "lon = vertices[stn][0][0]\n                lon =", "lon = vertices[stn][0][1]\n                lon =")]),
 ("station loop helper", "same", [(T, "            for sid, lon, lat in zip(stnid, stnlon, stnlat):\n                self.stations.append(Station(sid, lon, lat))", "            self.stations = [Station(sid, lon, lat) for sid, lon, lat in zip(stnid, stnlon, stnlat)]")]),
 ("numeric identifiers", "bug", [(T, "dtype=str, comments", "comments")]),
 ("callback order", "bug", [(W, "localGust, Ux, Vy, P,", "localGust, Vy, Ux, P,")]),
 ("callback before gust factor", "bug", [(W, "            Ux *= self.gustFactor\n            Vy *= self.gustFactor\n\n            localGust = np.sqrt(Ux ** 2 + Vy ** 2)", "            localGust = np.sqrt(Ux ** 2 + Vy ** 2)\n            Ux *= self.gustFactor\n            Vy *= self.gustFactor\n")]),
 ("callback whole grid", "bug", [(W, "lonGrid[imin:imax] / 100.,", "lonGrid[jmin:jmax] / 100.,")]),
 ("callback other time", "bug", [(W, "timeStepCallback(self.track.Datetime[i],", "timeStepCallback(self.track.Datetime[0],")]),
 ("wrapped order", "bug", [(H, "self.callback(time, gust, Ux, Uy, P, lon, lat)", "self.callback(time, gust, Uy, Ux, P, lon, lat)")]),
 ("not wrapped", "bug", [(W, "                                                     wraps=callback)", "                                                     wraps=None)")]),
 ("not passed on", "bug", [(W, "                track, result = self.calculateExtremesFromTrack(\n                    track, timeStepCallback)", "                track, result = self.calculateExtremesFromTrack(\n                    track)")]),
 ("not passed from files", "bug", [(W, "        self.dumpGustsFromTracks(tracks, windfieldPath,\n                                 timeStepCallback=timeStepCallback)", "        self.dumpGustsFromTracks(tracks, windfieldPath)")]),
 ("never written", "bug", [(W, "        ts.shutdown()\n", "        pass\n")]),
 ("stations outside kept", "bug", [(T, "float(self.lat) <= gridy.max()", "float(self.lat) < gridy.max()")]),
 ("inside grid returns", "same", [(T, "            return True\n        else:\n            return False", "            return True\n        return False")]),
 ("record helper", "same", [(T, "                result = self.sample(stn.lon, stn.lat, spd, uu, vv, prs,\n                                     gridx, gridy)\n                ss, ux, vy, bb, pp = result\n                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, ss,\n                                 ux, vy, bb, pp))", "                result = self.sample(stn.lon, stn.lat, spd, uu, vv, prs,\n                                     gridx, gridy)\n                self.record(stn, dt, result)"), (T, "    def extract(self, dt,", "    def record(self, stn, dt, values):\n        stn.data.append((str(stn.id), dt, stn.lon, stn.lat) + tuple(values))\n\n    def extract(self, dt,")]),
]
CASES += [
 ('wrap', 'bug', [('Utilities/timeseries.py', 'lon = np.where(lon < 0., lon + 360., lon)', 'lon = np.where(lon < 180., lon + 360., lon)')]),
 ('nostr', 'bug', [('Utilities/timeseries.py', "max_step = np.argmax(stn.data.data['Speed'])", "max_step = np.argmax(stn.data.data['UU'])")]),
 ('lastmax', 'bug', [('Utilities/timeseries.py', "max_step = np.argmax(stn.data.data['Speed'])", "max_step = len(stn.data.data) - 1 - np.argmax(stn.data.data['Speed'])")]),
 ('minfile', 'bug', [('Utilities/timeseries.py', '        np.savetxt(self.minfile, min_data.data,', '        np.savetxt(self.minfile, max_data.data,')]),
 ('inside-any', 'bug', [('Utilities/timeseries.py', 'float(self.lat) >= gridy.min() and \\', 'float(self.lat) >= gridy.min() or \\')]),
 ('break29', 'bug', [('Utilities/timeseries.py', '                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, 0.0, 0.0,\n                                 0.0, 0.0, prs[0, 0]))', '                continue')]),
 ('any-all', 'bug', [('Utilities/timeseries.py', "np.any(stn.data.data['Speed'] > 0.0)", "np.all(stn.data.data['Speed'] > 0.0)")]),
 ('shared', 'bug', [('Utilities/timeseries.py', '                ss, ux, vy, bb, pp = result\n', '                ss, ux, vy, bb, pp = result\n                if ss == 0.0:\n                    continue\n')]),
 ('argmin-bear', 'bug', [('Utilities/timeseries.py', "min_step = np.argmin(stn.data.data['Pressure'])", "min_step = np.argmin(stn.data.data['Pressure'][:max_step + 1])")]),
 ('idstn', 'bug', [('Utilities/timeseries.py', "fname = pjoin(self.outputPath, 'ts.%s.csv' % str(stn.id))", "fname = pjoin(self.outputPath, 'ts.%s.csv' % str(stn.id)[:5])")]),
 ('twice', 'bug', [('Utilities/timeseries.py', '        for stn in self.stations:\n            if stn.insideGrid', '        for stn in self.stations[1:]:\n            if stn.insideGrid')]),
]
CASES += [
 ('shared-data', 'bug', [('Utilities/timeseries.py', "        self.data = DynamicRecArray(dtype={'names': OUTPUT_NAMES,\n                                           'formats':OUTPUT_TYPES})\n\n    def __getattr__", '        self.data = DATA\n\n    def __getattr__'), ('Utilities/timeseries.py', 'class Station(object):', "DATA = DynamicRecArray(dtype={'names': OUTPUT_NAMES,\n                              'formats':OUTPUT_TYPES})\n\n\nclass Station(object):")]),
 ('break-outside', 'bug', [('Utilities/timeseries.py', '            else:\n                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, 0.0, 0.0,\n                                 0.0, 0.0, prs[0, 0]))\n', '            elif stns > 0:\n                stn.data.append((str(stn.id), dt, stn.lon, stn.lat, 0.0, 0.0,\n                                 0.0, 0.0, prs[0, 0]))\n')]),
 ('grow-first', 'bug', [('Utilities/dynarray.py', '            self._data = np.resize(self._data, self.size)', '            self._data = np.empty(self.size, self.dtype)')]),
 ('max-late', 'bug', [('Utilities/timeseries.py', "                max_step = np.argmax(stn.data.data['Speed'])", "                max_step = len(stn.data.data) - 1 - \\\n                    np.argmax(stn.data.data['Speed'][::-1][:-1])")]),
 ('lon-wrap', 'bug', [('Utilities/timeseries.py', '        xx = find_index(gridx, float(lon))', '        xx = find_index(gridx, np.round(float(lon)))')]),
]
CASES += [
 ('cb-after', 'bug', [('wind/__init__.py', '            # Calculate the local wind gust and bearing\n            Ux *= self.gustFactor', '            # Calculate the local wind gust and bearing\n            Ux = Ux * self.gustFactor if i else Ux')]),
 ('lat-grid', 'bug', [('wind/__init__.py', '                                 latGrid[jmin:jmax] / 100.)', '                                 latGrid[jmin:jmax] / 100. + 0.5 * self.resolution)')]),
]
CASES += [
 ('bearing-deg', 'bug', [('Utilities/timeseries.py', '        bb = np.mod((180. / np.pi) * np.arctan2(-ux, -vy), 360.)\n', '        bb = np.mod((180. / np.pi) * np.arctan2(ux, vy), 360.)\n')]),
 ('any-speed', 'bug', [('Utilities/timeseries.py', "            if np.any(stn.data.data['Speed'] > 0.0):\n", "            if stn.data.data['Speed'][-1] > 0.0:\n")]),
 ('minmax-swap', 'bug', [('Utilities/timeseries.py', '                max_data.append(tuple(stn.data.data[max_step]))\n                min_data.append(tuple(stn.data.data[min_step]))\n', '                max_data.append(tuple(stn.data.data[min_step]))\n                min_data.append(tuple(stn.data.data[max_step]))\n')]),
 ('xx-lat', 'bug', [('Utilities/timeseries.py', '        xx = find_index(gridx, float(lon))\n', '        xx = find_index(gridx, round(float(lon)))\n')]),
]
