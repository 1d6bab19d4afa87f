D = "DataProcess/DataProcess.py"
L = "Utilities/loadData.py"
G = "StatInterface/generateStats.py"
GD = "StatInterface/GenerateDistributions.py"
KD = "StatInterface/KDEParameters.py"
S = "Utilities/stats.py"
CASES = [
 ("pressure-novalue", "bug", [(D, "        pressure = np.where((pressure < 600) | (pressure > 1100),\n                            sys.maxsize, pressure)\n", "        pressure = np.where(pressure < 600, sys.maxsize, pressure)\n")]),
 ("pressure-and", "bug", [(D, "(pressure < 600) | (pressure > 1100)", "(pressure < 600) & (pressure > 1100)")]),
 ("prate-sanity", "bug", [(D, "np.putmask(pressureRate, np.abs(pressureRate) > 10, sys.maxsize)", "np.putmask(pressureRate, pressureRate > 10, sys.maxsize)")]),
 ("rmax-code", "bug", [(D, "            rmax[novalue_index] = sys.maxsize\n", "")]),
 ("rmax-prev", "bug", [(D, "        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)\n", "")]),
 ("vmax", "bug", [(D, "        np.putmask(windSpeed, windSpeed > 200., sys.maxsize)\n", "")]),
 ("speed", "bug", [(D, "(speed < 0) | (speed > 200) | indicator", "(speed < 0) | indicator")]),
 ("srate", "bug", [(D, "        np.putmask(indicator_, (speed < 0) | (speed > 200), 1)\n", "")]),
 ("nan", "miss", [(D, "        np.putmask(pressureRate, np.isnan(pressureRate), sys.maxsize)\n", "")] ,),
 ("filter", "bug", [(L, "    pressure = np.where((pressure < 600) | (pressure > 1100),\n                        missingValue, pressure)\n", "    pressure = np.where((pressure < 600), missingValue, pressure)\n")]),
 ("load-rmax", "bug", [(L, "        rmax[novalue_index] = missingValue\n", "        rmax[novalue_index] = 0\n")]),
 ("load-vmax", "bug", [(L, "        windspeed[novalue_index] = missingValue\n", "")]),
 ("stats-first", "bug", [(G, """        p_ = self.param[ij]
        p = stats.statRemoveNum(np.array(p_), self.missingValue)

        while np.size(p) <= self.minSample:""", """        p = np.array(self.param[ij])

        while np.size(p) <= self.minSample:""")]),
 ("stats-loop", "bug", [(G, """            p_ = self.param[ij]
            p = stats.statRemoveNum(np.array(p_), self.missingValue)
        return p""", """            p = self.param[ij]

        return p""")]),
 ("remove", "bug", [(S, """    tmp = a.compress(a != Num)
    return tmp.compress(tmp < sys.maxsize)""", """    return a.compress(a == a)""")]),
 ("remove-half", "same", [(S, """    tmp = a.compress(a != Num)
    return tmp.compress(tmp < sys.maxsize)""", """    keep = (a != Num) & (a < sys.maxsize)
    return a[keep]""")]),
 ("kde", "bug", [(KD, "            self.parameters = stats.statRemoveNum(parameters, missingValue)", "            self.parameters = parameters")]),
 ("calc", "bug", [(G, "            mu = np.mean(p)", "            mu = np.mean(self.param)")]),
 ("dist-helper", "same", [(GD, """        parameter_ = self.pList[indij]
        self.parameter = stats.statRemoveNum(np.array(parameter_),
                                             self.missingValue)

        while np.size""", """        self.parameter = self._valid(indij)
        while np.size"""), (GD, "    def extractParameter(self, cellNum):", """    def _valid(self, where_):
        values = np.array(self.pList[where_])
        return stats.statRemoveNum(values, self.missingValue)

    def extractParameter(self, cellNum):""")]),
 ("mask-first", "same", [(D, """        pressure = np.where((pressure < 600) | (pressure > 1100),
                            sys.maxsize, pressure)
""", """        bad = np.logical_or(pressure < 600, pressure > 1100)
        pressure[bad] = sys.maxsize
""")]),
 ("valid-range", "same", [(D, """        pressure = np.where((pressure < 600) | (pressure > 1100),
                            sys.maxsize, pressure)
""", """        pressure = np.where((600 <= pressure) & (pressure <= 1100),
                            pressure, sys.maxsize)
""")]),
]
CASES += [
 ('rate-prev', 'bug', [('DataProcess/DataProcess.py', 'np.putmask(pressureRate, pressure >= sys.maxsize, sys.maxsize)', 'pass')]),
 ('speedmask', 'bug', [('DataProcess/DataProcess.py', 'np.putmask(speed, np.isnan(speed), sys.maxsize)', 'np.putmask(speed, np.isnan(speed), 0.)')]),
]
CASES += [
 ('prate-only-big', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, np.abs(pressureRate) > 10, sys.maxsize)', '        np.putmask(pressureRate, pressureRate > 10, sys.maxsize)')]),
 ('prate-eq', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, pressure >= sys.maxsize, sys.maxsize)\n        np.putmask(pressureRate, np.isnan(pressureRate), sys.maxsize)\n        np.putmask(pressureRate, np.abs(pressureRate) > 10, sys.maxsize)', '        np.putmask(pressureRate, pressure >= sys.maxsize, sys.maxsize)\n        np.putmask(pressureRate, np.isnan(pressureRate), 0.)\n        np.putmask(pressureRate, np.abs(pressureRate) > 10, sys.maxsize)')]),
]
CASES += [
 ('gs-mean', 'bug', [('StatInterface/generateStats.py', '            mu = np.mean(p)\n', '            mu = np.mean(self.param)\n')]),
 ('gs-remove', 'bug', [('StatInterface/generateStats.py', '            p_ = self.param[ij]\n            p = stats.statRemoveNum(np.array(p_), self.missingValue)\n\n        # Check', '            p_ = self.param[ij]\n            p = np.array(p_)\n\n        # Check')]),
 ('gs-zero', 'same', [('StatInterface/generateStats.py', '        p = stats.statRemoveNum(np.array(p_), self.missingValue)\n\n        while np.size(p)', '        p = stats.statRemoveNum(np.array(p_), 0)\n\n        while np.size(p)')]),
 ('ld-speed', 'bug', [('Utilities/loadData.py', '        novalue_index = np.where(windspeed == sys.maxsize)\n        windspeed = metutils.convert(windspeed, inputSpeedUnits, "mps")\n        windspeed[novalue_index] = missingValue', '        windspeed = metutils.convert(windspeed, inputSpeedUnits, "mps")\n        novalue_index = np.where(windspeed == sys.maxsize)\n        windspeed[novalue_index] = missingValue')]),
 ('ld-rmax', 'bug', [('Utilities/loadData.py', '        rmax[novalue_index] = missingValue', '        rmax[novalue_index] = 0.5')]),
]
CASES += [
 ('rrate-prev', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)\n', '')]),
 ('kde-keep', 'bug', [('StatInterface/KDEParameters.py', '            self.parameters = stats.statRemoveNum(parameters, missingValue)\n', '            self.parameters = np.array(parameters)\n')]),
 ('press-low-only', 'bug', [('DataProcess/DataProcess.py', '        pressure = np.where((pressure < 600) | (pressure > 1100),\n                            sys.maxsize, pressure)\n', '        pressure = np.where((pressure < 600),\n                            sys.maxsize, pressure)\n')]),
 ('rmax-wrong-missing', 'bug', [('DataProcess/DataProcess.py', '            novalue_index = np.where(rmax == sys.maxsize)\n', '            novalue_index = np.where(rmax == 0)\n')]),
 ('prate-10', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, np.abs(pressureRate) > 10, sys.maxsize)\n', '        np.putmask(pressureRate, pressureRate > 10, sys.maxsize)\n')]),
]
