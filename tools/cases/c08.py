T = "TrackGenerator/TrackGenerator.py"
G = "StatInterface/generateStats.py"
S = "StatInterface/StatInterface.py"
L = "TrackGenerator/trackLandfall.py"
CASES = [
 ("lsig", "bug", [(T, "            sigma = self.bStats.coeffs.lsig\n", "            sigma = self.bStats.coeffs.sig\n")]),
 ("swap-branch", "bug", [(T, """        if onLand:
            alpha = self.vStats""", """        if not onLand:
            alpha = self.vStats""")]),
 ("foreign", "bug", [(T, "            mu = self.vStats.coeffs.mu\n", "            mu = self.bStats.coeffs.mu\n")]),
 ("alphaphi", "bug", [(T, "        self.bChi = alpha[c] * self.bChi + phi[c] * logistic()", "        self.bChi = phi[c] * self.bChi + alpha[c] * logistic()")]),
 ("musig", "bug", [(T, "            self.dp = mu[c] + sigma[c] * self.dpChi", "            self.dp = sigma[c] + mu[c] * self.dpChi")]),
 ("chi-share", "bug", [(T, "        self.vChi = alpha[c] * self.vChi", "        self.vChi = alpha[c] * self.bChi")]),
 ("oldcell", "bug", [(T, """            cellNum = stats.getCellNum(lon[i], lat[i],
""", """            cellNum = stats.getCellNum(lon[i - 1], lat[i - 1],
""")]),
 ("oldflag", "bug", [(T, "self.landfall.onLand(lon[i], lat[i])", "self.landfall.onLand(lon[i - 1], lat[i - 1])")]),
 ("flag-swap", "bug", [(T, "self.landfall.onLand(lon[i], lat[i])", "self.landfall.onLand(lat[i], lon[i])")]),
 ("load-file", "bug", [(T, "        self.vStats.load(pjoin(self.processPath, 'speed_stats.nc'))", "        self.vStats.load(pjoin(self.processPath, 'speed_rate_stats.nc'))")]),
 ("save-file", "bug", [(S, "        dpStats = calculate('pressure_rate')", "        dpStats = calculate('all_pressure')")]),
 ("angular", "bug", [(S, "calculate('all_bearing', angular=True)", "calculate('all_bearing')")]),
 ("mask", "bug", [(L, "sampleGrid(cLon, cLat) > 0.0", "sampleGrid(cLon, cLat) >= 0.0")]),
 ("mask-args", "bug", [(L, "sampleGrid(cLon, cLat) > 0.0", "sampleGrid(cLat, cLon) > 0.0")]),
 ("calc-flag", "bug", [(G, "self.coeffs.phi[i],self.coeffs.min[i] = self.calculate(i,False)", "self.coeffs.phi[i],self.coeffs.min[i] = self.calculate(i,True)")]),
 ("calc-order", "bug", [(G, "        return mu, sig, alpha, phi, mn", "        return mu, sig, phi, alpha, mn")]),
 ("calc-one", "bug", [(G, "self.coeffs.lmu[i], self.coeffs.lsig[i], self.coeffs.lalpha[i]", "self.coeffs.lsig[i], self.coeffs.lmu[i], self.coeffs.lalpha[i]")]),
 ("filter-grow", "bug", [(G, """            if onLand:
                ij = np.where(((lat >= sLat) & (lat < nLat)) & (lon >= wLon) &
                           (lon < eLon) & (lsflag>0))
""", """            if onLand:
                ij = np.where(((lat >= sLat) & (lat < nLat)) & (lon >= wLon) &
                           (lon < eLon) & (lsflag>=0))
""")]),
 ("filter-noflag", "bug", [(G, """                ij = np.where(((lat >= sLat) & (lat < nLat)) & (lon >= wLon) &
                           (lon < eLon) & (lsflag==0))
""", """                ij = np.where(((lat >= sLat) & (lat < nLat)) & (lon >= wLon) &
                           (lon < eLon))
""")]),
 ("filter-swap", "bug", [(G, """        if onLand:
            ij = np.where(((lat >= sLat) & (lat < nLat)) &
                       (lon >= wLon) & (lon < eLon) & (lsflag>0))
""", """        if not onLand:
            ij = np.where(((lat >= sLat) & (lat < nLat)) &
                       (lon >= wLon) & (lon < eLon) & (lsflag>0))
""")]),
 ("save-name", "bug", [(G, "'values':self.coeffs.lsig.reshape", "'values':self.coeffs.sig.reshape")]),
 ("save-name2", "bug", [(G, "'values':self.coeffs.lmin.reshape", "'values':self.coeffs.lmu.reshape")]),
 ("load-strip", "bug", [(G, "            setattr(self.coeffs, var, ncdf.variables[var][:].flatten())", "            setattr(self.coeffs, var.lstrip('l'), ncdf.variables[var][:].flatten())")]),
 ("helper", "same", [(T, """        if onLand:
            alpha = self.bStats.coeffs.lalpha
            phi = self.bStats.coeffs.lphi
            mu = self.bStats.coeffs.lmu
            sigma = self.bStats.coeffs.lsig
        else:
            alpha = self.bStats.coeffs.alpha
            phi = self.bStats.coeffs.phi
            mu = self.bStats.coeffs.mu
            sigma = self.bStats.coeffs.sig
""", """        alpha, phi, mu, sigma = self._pick(self.bStats, onLand)
"""), (T, """    def _stepBearing(""", """    def _pick(self, st, onLand):
        names = ('alpha', 'phi', 'mu', 'sig')
        if onLand:
            return [getattr(st.coeffs, 'l' + n) for n in names]
        return [getattr(st.coeffs, n) for n in names]

    def _stepBearing(""")]),
 ("index-early", "same", [(T, """            alpha = self.vStats.coeffs.lalpha
            phi = self.vStats.coeffs.lphi
            mu = self.vStats.coeffs.lmu
            sigma = self.vStats.coeffs.lsig
        else:
            alpha = self.vStats.coeffs.alpha
            phi = self.vStats.coeffs.phi
            mu = self.vStats.coeffs.mu
            sigma = self.vStats.coeffs.sig
""", """            prefix = 'l'
        else:
            prefix = ''
        alpha = getattr(self.vStats.coeffs, prefix + 'alpha')
        phi = getattr(self.vStats.coeffs, prefix + 'phi')
        mu = getattr(self.vStats.coeffs, prefix + 'mu')
        sigma = getattr(self.vStats.coeffs, prefix + 'sig')
""")]),
 ("temps", "same", [(T, """        self.dpChi = alpha[c] * self.dpChi + phi[c] * logistic()

        if i == 1:
            self.dp += sigma[c] * self.dpChi
        else:
            self.dp = mu[c] + sigma[c] * self.dpChi
""", """        eps = logistic()
        chi = phi[c] * eps + self.dpChi * alpha[c]
        base = mu[c]
        if i <= 1:
            base = self.dp
        self.dp = base + chi * sigma[c]
        self.dpChi = chi
""")]),
 ("order", "same", [(T, """            self._stepPressureChange(cellNum, i, onLand)
            self._stepBearing(cellNum, i, onLand)
            self._stepSpeed(cellNum, i, onLand)
""", """            self._stepSpeed(cellNum, i, onLand)
            self._stepBearing(cellNum, i, onLand)
            self._stepPressureChange(cellNum, i, onLand)
""")]),
 ("mask-same", "same", [(L, """        if self.landMask.sampleGrid(cLon, cLat) > 0.0:
            self.tol += self.dt
            log.debug("Storm centre: %6.2f, %6.2f"%(cLon, cLat))
            log.debug("Time over land: %d hours"%self.tol)
            return True
        else:
            self.tol = 0
            return False
""", """        overLand = self.landMask.sampleGrid(cLon, cLat) > 0.0
        self.tol = self.tol + self.dt if overLand else 0
        return overLand
""")]),
 ("calc-same", "same", [(G, """            self.coeffs.mu[i], self.coeffs.sig[i], self.coeffs.alpha[i], \\
            self.coeffs.phi[i],self.coeffs.min[i] = self.calculate(i,False)
""", """            sea = self.calculate(i, False)
            for name, value in zip(('mu', 'sig', 'alpha', 'phi', 'min'), sea):
                getattr(self.coeffs, name)[i] = value
""")]),
 ("filter-same", "same", [(G, """        if onLand:
            ij = np.where(((lat >= sLat) & (lat < nLat)) &
                       (lon >= wLon) & (lon < eLon) & (lsflag>0))
        else:
            ij = np.where(((lat >= sLat) & (lat < nLat)) &
                       (lon >= wLon) & (lon < eLon) & (lsflag==0))

        p_ = self.param[ij]
        p = stats.statRemoveNum(np.array(p_), self.missingValue)

        while np.size""", """        wanted = (lsflag > 0) if onLand else (lsflag == 0)
        inside = ((lat >= sLat) & (lat < nLat) & (lon >= wLon) & (lon < eLon))
        p = stats.statRemoveNum(np.array(self.param[inside & wanted]),
                                self.missingValue)

        while np.size""")]),
]
CASES += [
 ('land-lag', 'bug', [('TrackGenerator/TrackGenerator.py', '            onLand = self.landfall.onLand(lon[i], lat[i])', '            onLand = self.landfall.onLand(lon[i - 1], lat[i - 1])')]),
 ('land-swap', 'bug', [('TrackGenerator/TrackGenerator.py', '            onLand = self.landfall.onLand(lon[i], lat[i])', '            onLand = self.landfall.onLand(lat[i], lon[i])')]),
 ('min-of-speed', 'bug', [('TrackGenerator/TrackGenerator.py', '                pstat = self.pStats.coeffs\n', '                pstat = self.vStats.coeffs\n')]),
 ('chi-cross', 'bug', [('TrackGenerator/TrackGenerator.py', '        self.bChi = alpha[c] * self.bChi + phi[c] * logistic()', '        self.bChi = alpha[c] * self.vChi + phi[c] * logistic()')]),
]
CASES += [
 ('alias-coef', 'bug', [('StatInterface/generateStats.py', '        self.lsig = np.zeros(numCells)\n', '        self.lsig = self.sig\n')]),
]
CASES += [
 ('land-prev', 'bug', [('TrackGenerator/TrackGenerator.py', '            onLand = self.landfall.onLand(lon[i], lat[i])', '            onLand = self.landfall.onLand(lon[i - 1], lat[i - 1])')]),
 ('cell-prev', 'bug', [('TrackGenerator/TrackGenerator.py', '            cellNum = stats.getCellNum(lon[i], lat[i],', '            cellNum = stats.getCellNum(lon[i - 1], lat[i - 1],')]),
 ('land-later', 'bug', [('TrackGenerator/TrackGenerator.py', '            self._stepSpeed(cellNum, i, onLand)', '            self._stepSpeed(cellNum, i, onLand and land[i - 1])')]),
 ('land-int', 'same', [('TrackGenerator/TrackGenerator.py', '            self._stepSpeed(cellNum, i, onLand)', '            self._stepSpeed(cellNum, i, land[i])')]),
 ('gs-flag', 'bug', [('StatInterface/generateStats.py', '(lon >= wLon) & (lon < eLon) & (lsflag==0))\n\n        p_', '(lon >= wLon) & (lon < eLon) & (lsflag>=0))\n\n        p_')]),
 ('gs-cache', 'bug', [('StatInterface/generateStats.py', '        p = self.extractParameter(cellNum, onLand)\n\n        if self.angular', "        if not hasattr(self, '_last') or self._last[0] != cellNum:\n            self._last = (cellNum, self.extractParameter(cellNum, onLand))\n        p = self._last[1]\n        if self.angular")]),
 ('gs-load', 'bug', [('StatInterface/generateStats.py', '            setattr(self.coeffs, var, ncdf.variables[var][:].flatten())', "            setattr(self.coeffs, var.lstrip('l'), ncdf.variables[var][:].flatten())")]),
 ('gs-skip', 'bug', [('StatInterface/generateStats.py', '        for var in list(ncdf.variables.keys()):\n', "        for var in list(ncdf.variables.keys()):\n            if var.endswith('phi'):\n                continue\n")]),
]
CASES += [
 ('dump-bl', 'bug', [('TrackGenerator/TrackGenerator.py', "'values': self.bStats.coeffs.lalpha.reshape((ny, nx)),", "'values': self.bStats.coeffs.alpha.reshape((ny, nx)),")]),
 ('lnd-lat', 'bug', [('TrackGenerator/TrackGenerator.py', 'onLand = self.landfall.onLand(lon[i], lat[i])', 'onLand = self.landfall.onLand(lon[i], lat[i - 1])')]),
 ('first-step', 'bug', [('TrackGenerator/TrackGenerator.py', '            self._stepBearing(cellNum, i, onLand)', '            self._stepBearing(cellNum, i, onLand and i > 1)')]),
]
CASES += [
 ('stats-speed-rate', 'bug', [('StatInterface/StatInterface.py', "        dvStats.save(pjoin(path, 'speed_rate_stats.nc'), 'speed_rate')\n", "        vStats.save(pjoin(path, 'speed_rate_stats.nc'), 'speed_rate')\n")]),
]
