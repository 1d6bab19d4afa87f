D = "DataProcess/DataProcess.py"
L = "Utilities/loadData.py"
CASES = [
 ("prate-unmasked", "bug", [(D, "        np.putmask(pressureRate, indicator, sys.maxsize)\n", "")]),
 ("prate-shifted", "bug", [(D, "        np.putmask(pressureRate, indicator, sys.maxsize)\n", "        np.putmask(pressureRate, np.roll(indicator, 1), sys.maxsize)\n")]),
 ("brate-second", "bug", [(D, "        np.putmask(bearingRate[1:], indicator[:-1], sys.maxsize)\n", "")]),
 ("srate-second", "bug", [(D, "        np.putmask(speedRate[1:], indicator_[:-1], sys.maxsize)\n", "")]),
 ("srate-copy-slice", "bug", [(D, "        np.putmask(speedRate[1:], indicator_[:-1], sys.maxsize)\n", "        np.putmask(speedRate[1:].copy(), indicator_[:-1], sys.maxsize)\n")]),
 ("srate-firsts-late", "bug", [(D, "        np.putmask(speedRate, indicator_, sys.maxsize)\n", "        np.putmask(speedRate, (speed < 0) | (speed > 200), sys.maxsize)\n")]),
 ("rrate", "bug", [(D, "        np.putmask(rmaxRate, indicator, sys.maxsize)\n", "        np.putmask(rmaxRate, indicator > 1, sys.maxsize)\n")]),
 ("bear", "bug", [(D, "        np.putmask(bear, indicator, sys.maxsize)\n", "        np.putmask(bear[1:], indicator[:-1], sys.maxsize)\n")]),
 ("flag-or", "bug", [(L, "if (season[i] == season[i - 1]) and (num[i] == num[i - 1]):", "if (season[i] == season[i - 1]) or (num[i] == num[i - 1]):")]),
 ("flag-num", "bug", [(L, "ind_[np.where(ind_ != 0)] = 1", "ind_ = np.where(ind_ > 0, 1, 0)")]),
 ("flag-late", "bug", [(L, "        indicator[1:] = ind_\n", "        indicator[:-1] = ind_\n")]),
 ("spb", "bug", [(L, "    np.putmask(speed, index, missingValue)\n", "")]),
 ("spb-bear", "bug", [(L, "    np.putmask(bearing, index, missingValue)\n", "")]),
 ("speed-or", "bug", [(D, "np.putmask(speed, (speed < 0) | (speed > 200) | indicator,", "np.putmask(speed, ((speed < 0) | (speed > 200)) & (indicator > 0),")]),
 ("where-style", "same", [(D, "        np.putmask(pressureRate, indicator, sys.maxsize)\n", "        pressureRate = np.where(indicator > 0, sys.maxsize, pressureRate)\n")]),
 ("flag-vector", "same", [(L, """        for i in range(1, len(tcSerialNo)):
            if tcSerialNo[i] == tcSerialNo[i - 1]:
                indicator[i] = 0
""", """        indicator[1:] = np.where(tcSerialNo[1:] == tcSerialNo[:-1], 0, 1)
""")]),
 ("helper", "same", [(D, "        np.putmask(bearingRate, indicator, sys.maxsize)\n        np.putmask(bearingRate[1:], indicator[:-1], sys.maxsize)\n",
   "        self._maskTwo(bearingRate, indicator)\n"),
   (D, "    def _bearingRate(self, bear, dt, indicator):", """    @staticmethod
    def _maskTwo(values, flags):
        second = np.zeros(flags.size, 'i')
        second[1:] = flags[:-1]
        values[(flags > 0) | (second > 0)] = sys.maxsize

    def _bearingRate(self, bear, dt, indicator):""")]),
 ("loop", "same", [(D, "        np.putmask(rmaxRate, indicator, sys.maxsize)\n", """        for i in range(len(rmaxRate)):
            if indicator[i]:
                rmaxRate[i] = sys.maxsize
""")]),
 ("index-assign", "same", [(D, "        np.putmask(speedRate[1:], indicator_[:-1], sys.maxsize)\n", """        second = np.flatnonzero(indicator_[:-1]) + 1
        speedRate[second] = sys.maxsize
""")]),
]
CASES += [
 ('speed-noind', 'bug', [('DataProcess/DataProcess.py', '(speed < 0) | (speed > 200) | indicator', '(speed < 0) | (speed > 200)')]),
 ('press-noind', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, indicator, sys.maxsize)\n', '')]),
 ('shift', 'bug', [('DataProcess/DataProcess.py', '        pressureChange[1:] = pressureChange_\n', '        pressureChange[:-1] = pressureChange_\n')]),
 ('jump', 'bug', [('DataProcess/DataProcess.py', 'indicator[np.where(delta_lon > 15)[0] + 1] = 1', 'indicator[np.where(delta_lon > 15)[0]] = 1')]),
]
CASES += [
 ('nojump-ind', 'bug', [('DataProcess/DataProcess.py', '        indicator[np.where(delta_lat > 5)[0] + 1] = 1\n', '        indicator[np.where(delta_lat > 5)[0]] = 1\n')]),
 ('brate-order', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(bearingRate[1:], indicator[:-1], sys.maxsize)\n', '        np.putmask(bearingRate[2:], indicator[:-2], sys.maxsize)\n')]),
 ('press-prev', 'bug', [('DataProcess/DataProcess.py', '        pressureRate = pressureChange / dt\n', '        pressureRate = np.roll(pressureChange, -1) / dt\n')]),
 ('srate-ind', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(speedRate, indicator_, sys.maxsize)\n', '        np.putmask(speedRate, indicator_ == 0, sys.maxsize)\n')]),
 ('rrate-val', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(rmaxRate, indicator, sys.maxsize)\n', '        np.putmask(rmaxRate, indicator, 0.)\n')]),
 ('rate-before', 'bug', [('DataProcess/DataProcess.py', '        self._bearing(bear, indicator, initIndex)\n        self._bearingRate(bear, dt, indicator)\n', '        self._bearing(bear, indicator, initIndex)\n        self._bearingRate(bear, dt, initIndex)\n')]),
 ('init-excl', 'bug', [('DataProcess/DataProcess.py', '        self._pressureRate(pressure, dt, indicator)\n        self._wind', '        self._pressureRate(pressure, dt, initIndex)\n        self._wind')]),
 ('season', 'bug', [('DataProcess/DataProcess.py', '                indicator = indicator[idx]\n                lon = lon[idx]\n                lat = lat[idx]\n            except', '                indicator = indicator[:len(idx)]\n                lon = lon[idx]\n                lat = lat[idx]\n            except')]),
 ('speed-late', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(speed, np.isnan(speed), sys.maxsize)\n\n', '        np.putmask(speed, np.isnan(speed), sys.maxsize)\n        speed = dist / dt\n\n')]),
 ('putmask-where', 'same', [('DataProcess/DataProcess.py', '        np.putmask(rmaxRate, indicator, sys.maxsize)\n', '        rmaxRate[indicator == 1] = sys.maxsize\n')]),
]
CASES += [
 ('tcid', 'bug', [('Utilities/loadData.py', '    indicator[np.where(delta_lon > 10)[0] + 1] = 1', '    indicator[np.where(delta_lon > 10)[0]] = 1')]),
 ('late-split', 'bug', [('Utilities/loadData.py', '    indicator[np.where(delta_lon > 10)[0] + 1] = 1\n    indicator[np.where(delta_lat > 5)[0] + 1] = 1\n', ''), ('Utilities/loadData.py', '    TCID = np.cumsum(indicator)\n', '    indicator[np.where(delta_lon > 10)[0] + 1] = 1\n    indicator[np.where(delta_lat > 5)[0] + 1] = 1\n    TCID = np.cumsum(indicator)\n')]),
]
CASES += [
 ('rate-ind-only-bad', 'bug', [('DataProcess/DataProcess.py', '        indicator_ = indicator.copy()\n        np.putmask(indicator_, (speed < 0) | (speed > 200), 1)\n', '        indicator_ = np.where((speed < 0) | (speed > 200), 1, 0)\n')]),
 ('numneg', 'bug', [('Utilities/loadData.py', 'ind_[np.where(ind_ != 0)] = 1', 'ind_[np.where(ind_ > 0)] = 1')]),
 ('serial-prefix', 'bug', [('Utilities/loadData.py', 'if tcSerialNo[i] == tcSerialNo[i - 1]:', 'if tcSerialNo[i][:4] == tcSerialNo[i - 1][:4]:')]),
 ('press-skip-short', 'bug', [('DataProcess/DataProcess.py', '        np.putmask(pressureRate, indicator, sys.maxsize)\n', '        np.putmask(pressureRate, indicator & (dt > 24), sys.maxsize)\n')]),
 ('brate-diff-after', 'same', [('DataProcess/DataProcess.py', '        bearingRate = bearingChange / dt\n', '        bearingRate = bearingChange\n        bearingRate = bearingRate / dt\n')]),
]
