F="wind/windmodels.f90"; W="wind/windmodels.py"; M="Utilities/maputils.py"; MF="Utilities/maputils.f90"; P="PressureInterface/pressureProfile.py"; PF="PressureInterface/pressureProfile.f90"
CASES=[
 ("f-cd","bug",[(F,"Cd = 0.002","Cd = 0.0015")]),
 ("f-phase","bug",[(F,"ups = realpart(Ap * exp(j *","ups = realpart(Ap * exp(-j *")]),
 ("f-le","bug",[(F,"if (R(i) > 2 * rMax) then","if (R(i) > rMax) then")]),
 ("f-lt","bug",[(F,"""      icore = R(i) <= rMax
      if (icore) then
         V(i)""","""      icore = R(i) < rMax
      if (icore) then
         V(i)""")]),
 ("f-half","bug",[(F,"aa = ((d2Vm / 2. - (dVm","aa = ((d2Vm * (1/2) - (dVm")]),
 ("py-args","bug",[(W,"self.beta, self.dP, self.rho, self.f, Z.size","self.dP, self.beta, self.rho, self.f, Z.size")]),
 ("py-rho","bug",[(W,"Umod = vFm * np.abs(1.25*(1. - (vFm/Vm)))","Umod = vFm * np.abs(1.25*(1. - (Vm/vFm)))")]),
 ("py-type","same",[(W,"if type(self.profile) in (PowellWindProfile, HollandWindProfile):","if type(self.profile) in [HollandWindProfile, PowellWindProfile]:")]),
 ("py-isinst","miss",[(W,"if type(self.profile) in (PowellWindProfile, HollandWindProfile):","if isinstance(self.profile, HollandWindProfile):")]),
 ("bear","bug",[(MF,"0.5 * pi - atan2","0.5 * pi + atan2")]),
 ("dist","bug",[(MF,"radius = 6367.0","radius = 6371.0")]),
 ("distpy","bug",[(M,"        R = gridLatLonDist(cLon, cLat, xGrid / 1000., yGrid / 1000.)\n        theta","        R = gridLatLonDist(cLon, cLat, yGrid / 1000., xGrid / 1000.)\n        theta")]),
 ("floor","bug",[(M,"        np.putmask(R, R == 0, 1e-30)\n\n    return","    return")]),
 ("prs","bug",[(PF,"exp(-(rMax / R(i)) ** beta)","exp(-(R(i) / rMax) ** beta)")]),
 ("prsbeta","bug",[(P,"self.pCentre, self.dP, beta\n","self.pCentre, self.dP, self.beta\n")]),
 ("refF","same",[(F,"""      V(i) = sign(V(i), f)

   end do""","""      if (f < 0) then
         V(i) = -V(i)
      else if (f == 0) then
         V(i) = 0.0d0
      end if
   end do""")]),
 ("refF2","same",[(PF,"""      P(i) = pc + dP * exp(-(rMax / R(i)) ** beta)""","""      ratio = rMax / R(i)
      ratio = ratio ** beta
      P(i) = dP * exp(-ratio) + pc"""),(PF,":: rMax, beta, pc, dP",":: rMax, beta, pc, dP\n   doubleprecision :: ratio")]),
 ("refP","same",[(W,"""            delta = (self.rMax / R) ** beta
            edelta = np.exp(-delta)

            Z =""","""            delta = np.power(self.rMax / R, beta)
            edelta = 1. / np.exp(delta)

            Z =""")]),
 ("refK","same",[(W,"""        V = self.velocity(R)
        Z = self.vorticity(R)
        if (vFm > 0)""","""        Z = self.vorticity(R)
        V = self.velocity(R)
        if (vFm > 0)"""),(W,"""        usf = us + Vt * np.cos(lam - thetaFm)
        vsf = vs - Vt * np.sin(lam - thetaFm)""","""        ang = thetaFm - lam
        usf = us + Vt * np.cos(ang)
        vsf = vs + Vt * np.sin(ang)""")]),
 ("where","same",[(W,"""            icore = np.where(R <= self.rMax)
            V[icore] = (R[icore] * (R[icore] * (R[icore] * aa + bb) + cc))
            V = np""","""            V = np.where(R <= self.rMax, aa * R**3 + bb * R**2 + cc * R, V)
            V = np""")]),
]
CASES += [
 ('press-fall', 'bug', [('PressureInterface/pressureProfile.py', 'P = self.pCentre + self.dP*numpy.exp(-(self.rMax/self.R)**beta)', 'P = self.pCentre + self.dP*numpy.exp(-(self.rMax/self.R)**self.beta)')]),
 ('vt-ratio', 'bug', [('wind/windmodels.py', 'if (vFm > 0) and (Vm/vFm < 5.):', 'if (vFm > 0) and (Vm/vFm <= 4.):')]),
 ('core', 'bug', [('wind/windmodels.py', 'core = np.where(R > 2. * self.rMax)', 'core = np.where(R > self.rMax)')]),
 ('amIII', 'bug', [('wind/windmodels.py', 'Am[ind] = AmIII[ind]', 'Am = AmIII')]),
 ('swap-args', 'bug', [('wind/windmodels.py', 'vFm, d2Vm, dVm, self.profile.dP, self.profile.beta', 'vFm, dVm, d2Vm, self.profile.dP, self.profile.beta')]),
 ('thfm', 'bug', [('wind/windmodels.py', 'R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,', 'R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaMax,')]),
]
