W = "wind/__init__.py"
M = "wind/windmodels.py"
CASES = [
 ("pressure in hPa", "bug", [(W, "        eP = convert(self.track.EnvPressure[i], 'hPa', 'Pa')\n", "        eP = self.track.EnvPressure[i]\n")]),
 ("central from environment", "bug", [(W, "cP = convert(self.track.CentralPressure[i], 'hPa', 'Pa')", "cP = convert(self.track.EnvPressure[i], 'hPa', 'Pa')")]),
 ("speed in km/h", "bug", [(W, "vFm = convert(self.track.Speed[i], 'kph', 'mps')", "vFm = self.track.Speed[i]")]),
 ("speed from knots", "bug", [(W, "vFm = convert(self.track.Speed[i], 'kph', 'mps')", "vFm = convert(self.track.Speed[i], 'kts', 'mps')")]),
 ("direction in degrees", "bug", [(W, "thetaFm = bearing2theta(self.track.Bearing[i] * np.pi/180.)", "thetaFm = bearing2theta(self.track.Bearing[i])")]),
 ("thetaMax twice", "bug", [(W, "        thetaMax = self.thetaMax\n", "        thetaMax = np.radians(self.thetaMax)\n")]),
 ("field R in km", "bug", [(W, "field(R * 1000,", "field(R,")]),
 ("background hPa", "bug", [(W, "            envPressure = convert(self.track.EnvPressure[0], 'hPa', 'Pa')", "            envPressure = self.track.EnvPressure[0]")]),
 ("pressure radius in m", "bug", [(W, "                            self.track.rMax[i],", "                            self.track.rMax[i] * 1000,")]),
 ("coriolis in degrees", "bug", [("Utilities/metutils.py", "f = 2 * omega * np.sin(np.radians(lat))", "f = 2 * omega * np.sin(lat)")]),
 ("powell km", "bug", [(M, 'metutils.convert(rMax, "m", "nm")', 'metutils.convert(rMax, "m", "km")')]),
 ("willoughby metres", "bug", [(M, "np.log(rMax/1000.)", "np.log(rMax)")]),
 ("atkinson Pa", "bug", [(M, "cP = metutils.convert(self.cP, 'Pa', 'hPa')", "cP = self.cP")]),
 ("threshold", "bug", [(M, "        if cP < 10000.:\n            self.cP = metutils.convert(cP, 'hPa', 'Pa')", "        if cP < 1000.:\n            self.cP = metutils.convert(cP, 'hPa', 'Pa')"), (M, "        if cP < 10000:\n", "        if cP < 900:\n")]),
 ("input to Pa", "bug", [("Utilities/loadData.py", 'convert(pressure, inputPressureUnits, "hPa")', 'convert(pressure, inputPressureUnits, "Pa")')]),
 ("rmax not converted", "bug", [("DataProcess/DataProcess.py", '            rmax = metutils.convert(rmax, inputLengthUnits, "km")\n', "")]),
 ("wrong source unit", "bug", [("Utilities/loadData.py", 'convert(windspeed, inputSpeedUnits, "mps")', 'convert(windspeed, inputLengthUnits, "mps")')]),
 ("recorded unit", "bug", [(W, "'units': 'Pa'", "'units': 'hPa'")]),
 ("asymmetry radians", "bug", [(M, "        thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.", "        thetaMaxAbsolute = np.array(thetaFm) + thetaMax")]),
 ("step in m", "bug", [("TrackGenerator/TrackGenerator.py", "                                     self.dt * genesisSpeed,", "                                     self.dt * genesisSpeed / 3.6,")]),
 ("grid in m", "bug", [("Utilities/maputils.py", "        np.putmask(R, R == 0, 1e-30)", "        np.putmask(R, R == 0, 1e-30)\n        R = R * 1000.")]),
 ("radius in place", "same", [(W, "rMax = self.track.rMax[i]*1000\n", "rMax = convert(self.track.rMax[i], 'km', 'm')\n")]),
 ("factor written out", "same", [(W, "        eP = convert(self.track.EnvPressure[i], 'hPa', 'Pa')\n", "        eP = self.track.EnvPressure[i] * 100.\n")]),
 ("speed written out", "same", [(W, "vFm = convert(self.track.Speed[i], 'kph', 'mps')", "vFm = self.track.Speed[i] / 3.6")]),
 ("helper", "same", [(W, "        eP = convert(self.track.EnvPressure[i], 'hPa', 'Pa')\n        cP = convert(self.track.CentralPressure[i], 'hPa', 'Pa')\n", "        eP, cP = self._pressures(i)\n"), (W, "    def localWindField(self, i):", "    def _pressures(self, i):\n        return (convert(self.track.EnvPressure[i], 'hPa', 'Pa'),\n                convert(self.track.CentralPressure[i], 'hPa', 'Pa'))\n\n    def localWindField(self, i):")]),
 ("radians", "same", [(M, "        thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.", "        thetaMaxAbsolute = np.array(thetaFm) + np.radians(thetaMax)")]),
 ("beta via clip", "same", [(M, "np.log(rMax/1000.)", "np.log(metutils.convert(rMax, 'm', 'km'))")]),
]
CASES += [
 ('rmax-km-profile', 'bug', [('wind/__init__.py', 'rMax = self.track.rMax[i]*1000', 'rMax = self.track.rMax[i]')]),
 ('prs-rmax-m', 'bug', [('wind/__init__.py', '                            self.track.rMax[i],\n                            self.track.Latitude[i],', '                            self.track.rMax[i] * 1000,\n                            self.track.Latitude[i],')]),
 ('vfm-knots', 'bug', [('wind/__init__.py', "convert(self.track.Speed[i], 'kph', 'mps')", "convert(self.track.Speed[i], 'kts', 'mps')")]),
 ('bearing-deg', 'bug', [('wind/__init__.py', 'bearing2theta(self.track.Bearing[i] * np.pi/180.)', 'bearing2theta(self.track.Bearing[i])')]),
 ('R-km', 'bug', [('wind/__init__.py', 'windfield.field(R * 1000, theta', 'windfield.field(R, theta')]),
 ('ep-twice', 'bug', [('wind/__init__.py', '        else:\n            envPressure = np.nan', "            envPressure = convert(envPressure, 'hPa', 'Pa')\n        else:\n            envPressure = np.nan")]),
 ('env-unconverted', 'bug', [('wind/__init__.py', "envPressure = convert(self.track.EnvPressure[0], 'hPa', 'Pa')", 'envPressure = self.track.EnvPressure[0]')]),
 ('slp-units', 'bug', [('wind/__init__.py', "'units': 'Pa',", "'units': 'hPa',")]),
 ('thetamax-rad', 'bug', [('wind/windmodels.py', 'thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.', 'thetaMaxAbsolute = np.array(thetaFm) + thetaMax')]),
 ('same-tmp', 'same', [('wind/__init__.py', 'rMax = self.track.rMax[i]*1000', 'rMaxKm = self.track.rMax[i]\n        rMax = rMaxKm * 1000.0')]),
 ('same-deg2rad', 'same', [('wind/__init__.py', 'bearing2theta(self.track.Bearing[i] * np.pi/180.)', 'bearing2theta(np.radians(self.track.Bearing[i]))')]),
 ('same-div', 'same', [('wind/__init__.py', "convert(self.track.Speed[i], 'kph', 'mps')", 'self.track.Speed[i] / 3.6')]),
]
CASES += [
 ('rmax-km', 'bug', [('wind/__init__.py', 'rMax = self.track.rMax[i]*1000', 'rMax = self.track.rMax[i]*1000 if self.track.rMax[i] < 100 else self.track.rMax[i]*1852')]),
 ('theta-bearing', 'bug', [('wind/__init__.py', 'thetaFm = bearing2theta(self.track.Bearing[i] * np.pi/180.)', 'thetaFm = bearing2theta(self.track.Bearing[i]) * np.pi/180.')]),
]
CASES += [
 ('prs-env-hpa', 'bug', [('wind/__init__.py', "        p = PressureProfile(R, convert(self.track.EnvPressure[i], 'hPa', 'Pa'),\n", '        p = PressureProfile(R, self.track.EnvPressure[i],\n')]),
 ('thfm-noconv', 'bug', [('wind/__init__.py', 'thetaFm = bearing2theta(self.track.Bearing[i] * np.pi/180.)', 'thetaFm = bearing2theta(self.track.Bearing[i]) * np.pi/180.')]),
 ('gust-kmh-note', 'bug', [('wind/__init__.py', "                    'standard_name': 'wind_speed_of_gust',\n                    'units': 'm/s',", "                    'standard_name': 'wind_speed_of_gust',\n                    'units': 'km/h',")]),
 ('mslp-units', 'bug', [('Utilities/loadData.py', "    penv = metutils.convert(penv, slpunits, 'hPa')\n    del data", "    penv = metutils.convert(penv, 'Pa', 'hPa')\n    del data")]),
 ('rmax-ld', 'bug', [('Utilities/loadData.py', '        rmax = metutils.convert(rmax, inputLengthUnits, "km")\n', '        rmax = metutils.convert(rmax, inputLengthUnits, "nm")\n')]),
 ('vmax-ld', 'bug', [('Utilities/loadData.py', '        windspeed = metutils.convert(windspeed, inputSpeedUnits, "mps")\n', '        windspeed = metutils.convert(windspeed, inputLengthUnits, "mps")\n')]),
]
CASES += [
 ('mslp-none', 'bug', [('Utilities/loadData.py', "    penv = metutils.convert(penv, slpunits, 'hPa')\n    del data", '    del data')]),
 ('mslp-other', 'bug', [('TrackGenerator/TrackGenerator.py', "slpunits = getattr(ncobj.variables[var], 'units')", "slpunits = getattr(ncobj.variables['lat'], 'units')")]),
 ('mslp-to', 'bug', [('TrackGenerator/TrackGenerator.py', "data = metutils.convert(data, slpunits, 'hPa')", "data = metutils.convert(data, slpunits, 'Pa')")]),
 ('mslp-first', 'same', [('Utilities/loadData.py', "    penv = metutils.convert(penv, slpunits, 'hPa')\n    del data", "    penv = metutils.convert(penv, ncobj.variables[ncvar].units, outunits='hPa')\n    del data")]),
 ('mslp-early', 'same', [('Utilities/loadData.py', "    penv = metutils.convert(penv, slpunits, 'hPa')\n    del data", '    del data'), ('Utilities/loadData.py', '    data = nctools.ncGetData(ncobj, ncvar)\n    # Get', "    data = metutils.convert(nctools.ncGetData(ncobj, ncvar), slpunits, 'hPa')\n    # Get")]),
 ('mslp-spline', 'same', [('TrackGenerator/TrackGenerator.py', "        data = metutils.convert(data, slpunits, 'hPa')\n        self.data = spline_filter(data)", "        self.data = metutils.convert(spline_filter(data), slpunits, 'hPa')")]),
]
