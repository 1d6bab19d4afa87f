F="wind/windmodels.f90"; W="wind/windmodels.py"; M="Utilities/maputils.py"; P="PressureInterface/pressureProfile.py"
CASES=[
 ("jel","bug",[(W,"        V = np.sign(self.f) * V\n        return V\n\n    def vorticity(self, R):\n        \"\"\"\n        Calculate the vorticity associated with the (gradient level)\n        vortex.\n\n        :param R: :class:`numpy.ndarray` of distance of grid from\n                  the TC centre (metres).\n\n        :returns: Array of gradient level (relative) vorticity.\n        :rtype: :class:`numpy.ndarray`\n\n        \"\"\"\n        rr","        return V\n\n    def vorticity(self, R):\n        rr")]),
 ("willlat","bug",[(W,"0.0087 * np.abs(lat)","0.0087 * lat")]),
 ("powlat","bug",[(W,"0.010917 * np.abs(lat)","0.010917 * lat")]),
 ("newh","bug",[(W,"0.014 * np.abs(self.lat)","0.014 * self.lat")]),
 ("absf","bug",[(W,"                 R * np.abs(self.f) / 2.)\n\n            icore","                 R * self.f / 2.)\n\n            icore")]),
 ("d1","bug",[(W,"dVm = (-np.abs(f)/2 +","dVm = (-f/2 +")]),
 ("fort","bug",[(F,"V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.","V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * f / 2.")]),
 ("fortk","bug",[(F,"vms = imagpart(Am * exp(-j * (lam(i) - thetaFm) * sign(b, f))) * sign(b, f)","vms = imagpart(Am * exp(-j * (lam(i) - thetaFm) * sign(b, f)))")]),
 ("kep","bug",[(W,"u0s = A0.real * albe * np.sign(self.f)","u0s = A0.real * albe")]),
 ("kepV","bug",[(W,"chi = np.abs((Cd / K) * V / np.sqrt(np.sqrt(al * be)))","chi = (Cd / K) * V / np.sqrt(np.sqrt(al * be))")]),
 ("mcc","bug",[(W,"inflow = -np.sign(self.f) * inflow * np.pi / 180.","inflow = inflow * np.pi / 180.")]),
 ("mccswrf","bug",[(W,"med = np.where(np.abs(Vsf) >= 19.5)","med = np.where(Vsf >= 19.5)")]),
 ("mccasym","bug",[(W,"vFm * (V / np.abs(V).max()))","vFm * (np.abs(V) / np.abs(V).max()))")]),
 ("hub","bug",[(W,"inflow = -np.sign(self.f) * 25. * np.ones(np.shape(R))","inflow = 25. * np.ones(np.shape(R))")]),
 ("prs","bug",[(P,"abs(self.cLat)","self.cLat")]),
 ("same1","same",[(W,"        V = 2 * self.vMax * self.rMax * R / (self.rMax ** 2 + R ** 2)\n        V = np.sign(self.f) * V\n        return V","        s = 1. if self.f > 0 else (-1. if self.f < 0 else 0.)\n        return s * 2 * self.vMax * self.rMax * R / (self.rMax ** 2 + R ** 2)")]),
 ("same2","same",[(W,"        phi = np.arctan2(usf, vsf)\n\n        # Surface winds, cartesian coordinates\n        Ux = np.sqrt(usf ** 2. + vsf ** 2.) * np.sin(phi - lam)\n        Vy = np.sqrt(usf ** 2. + vsf ** 2.) * np.cos(phi - lam)","        Ux = usf * np.cos(lam) - vsf * np.sin(lam)\n        Vy = vsf * np.cos(lam) + usf * np.sin(lam)")]),
 ("same3","same",[(W,"        Ux = swrf * Vsf * np.sin(phi) * 1.069\n        Vy = swrf * Vsf * np.cos(phi) * 1.069\n","        speed = 1.069 * swrf * Vsf\n        Ux, Vy = speed * np.sin(phi), speed * np.cos(phi)\n")]),
]
CASES += [
 ('abs-f-drop', 'bug', [('wind/windmodels.py', 'be = (self.f + Z) / (2. * K)', 'be = (np.abs(self.f) + Z) / (2. * K)')]),
 ('ums-sign', 'bug', [('wind/windmodels.py', 'vms = (Am * np.exp(-i * (lam - thetaFm) * np.sign(self.f))).imag * np.sign(self.f)', 'vms = (Am * np.exp(-i * (lam - thetaFm) * np.sign(self.f))).imag')]),
 ('inflow-sign', 'bug', [('wind/windmodels.py', '        inflow[inner] = 10. * R[inner] / self.rMax\n        inflow = -np.sign(self.f) * inflow * np.pi / 180.\n\n        thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.', '        inflow[inner] = 10. * R[inner] / self.rMax\n        inflow = -inflow * np.pi / 180.\n\n        thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.')]),
 ('swrf-abs', 'bug', [('wind/windmodels.py', 'low = np.where(np.abs(Vsf) >= 6)', 'low = np.where(Vsf >= 6)')]),
 ('jel-sign', 'bug', [('wind/windmodels.py', '        V = np.sign(self.f) * V\n        return V\n\n    def vorticity(self, R):\n', '        V = V\n        return V\n\n    def vorticity(self, R):\n')]),
 ('lat-powell', 'bug', [('wind/windmodels.py', '0.010917 * np.abs(lat)', '0.010917 * lat')]),
 ('same-abs', 'same', [('wind/windmodels.py', 'asym = (0.5 * (1. + np.cos(thetaMaxAbsolute - lam)) *\n                vFm * (V / np.abs(V).max()))', 'peak = np.abs(V).max()\n        asym = (0.5 * (1. + np.cos(thetaMaxAbsolute - lam)) *\n                vFm * (V / peak))')]),
]
CASES += [
 ('sign-lat', 'bug', [('wind/windmodels.py', '        self.f = metutils.coriolis(lat)', '        self.f = metutils.coriolis(abs(lat))')]),
]
