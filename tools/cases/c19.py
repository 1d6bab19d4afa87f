H = "hazard/__init__.py"
E = "hazard/evd.py"
G = "hazard/GPD.py"
CASES = [
    ("GPD few records fitted", "bug", [(G, "    if len(data) < minrecords:", "    if len(data) < minrecords - 1:")]),
    ("GPD location kept when rejected", "bug", [(G, """    if shape > 0: # or Rpeval[0] < 0.0:
        return Rp, loc, scl, shp""", """    if shape > 0: # or Rpeval[0] < 0.0:
        return Rp, location, scl, shp""")]),
    ("GPD rejection reversed", "bug", [(G, "    if shape > 0: #", "    if shape < 0: #")]),
    ("GPD levels kept when rejected", "bug", [(G, """    if shape > 0: # or Rpeval[0] < 0.0:
        return Rp, loc, scl, shp""", """    if shape > 0: # or Rpeval[0] < 0.0:
        return Rpeval, loc, scl, shp""")]),
    ("GPD no handler", "bug", [(G, """    try:
        shape, location, scale = genpareto.fit(datafilled[datafilled > mu],
                                               floc = mu)
    except:
        return Rp, loc, scl, shp
""", """    shape, location, scale = genpareto.fit(datafilled[datafilled > mu],
                                           floc = mu)
""")]),
    ("GPD handler computes levels", "bug", [(G, """    except:
        return Rp, loc, scl, shp
""", """    except:
        shape, location, scale = shp, loc, scl
""")]),
    ("GPD parameters in library order", "bug", [(G, "        return Rpeval, location, scale, shape", "        return Rpeval, shape, location, scale")]),
    ("GEV non-finite kept", "bug", [(E, """                    if not np.isfinite(loc):
                        loc, scale, shp = [nodata, nodata, nodata]
""", "")]),
    ("GEV only location reset", "bug", [(E, """                    if not np.isfinite(loc):
                        loc, scale, shp = [nodata, nodata, nodata]
""", """                    if not np.isfinite(loc):
                        loc = nodata
""")]),
    ("GEV negative shape accepted", "bug", [(E, "        if shp <= 0.:\n            w[i] = nodata\n        # if a valid fit was found...", "        if shp == 0.:\n            w[i] = nodata\n        # if a valid fit was found...")]),
    ("GEV minimum ignored", "bug", [(E, """            if len(ii) >= minrecords:
                l1,""", """            if len(ii) >= 2:
                l1,""")]),
    ("GEV skewness limit one-sided", "bug", [(E, "if (l2 <= 0.) or (np.abs(t3) >= 1.):", "if (l2 <= 0.) or (t3 >= 1.):")]),
    ("GEV l2 limit", "bug", [(E, "if (l2 <= 0.) or (np.abs(t3) >= 1.):", "if (np.abs(t3) >= 1.):")]),
    ("same: GEV conditions merged", "same", [(E, """        if data[ii].min() != data[ii].max():
            if len(ii) >= minrecords:
                l1,""", """        if len(ii) >= minrecords:
            if data[ii].min() != data[ii].max():
                l1,""")]),
    ("same: GEV de morgan", "same", [(E, """                if (l2 <= 0.) or (np.abs(t3) >= 1.):
                    # Reject""", """                if not ((l2 > 0.) and (np.abs(t3) < 1.)):
                    # Reject""")]),
    ("power handler narrower", "bug", [(E, """                                maxfev=10000)
    except:
        
        return w, loc, scale, shp
""", """                                maxfev=10000)
    except RuntimeError:
        return w, loc, scale, shp
""")]),
    ("power shape returned missing", "bug", [(E, "        loc, scale, shp = pars\n", "        loc, scale = pars[:2]\n")]),
    ("missing value default", "bug", [(H, """                w, l, sc, sh = evd.gevfit(Vr[:,i,j], years, nodata,
                                          minRecords, yrsPerSim)""", """                w, l, sc, sh = evd.gevfit(Vr[:,i,j], years, 0.,
                                          minRecords, yrsPerSim)""")]),
    ("minimum and missing value swapped", "bug", [(H, """                w, l, sc, sh = evd.gevfit(Vr[:,i,j], years, nodata,
                                          minRecords, yrsPerSim)""", """                w, l, sc, sh = evd.gevfit(Vr[:,i,j], years, minRecords,
                                          nodata, yrsPerSim)""")]),
    ("cells start at zero", "bug", [(H, """    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
""", """    Rp = np.zeros((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon
""")]),
    ("percentile over missing", "bug", [(H, "                        wLower[n] = percentile(valid, lower)", "                        wLower[n] = percentile(w[n, :], lower)")]),
    ("same: valid by comparison", "same", [(H, "valid = w[n, w[n, :] != nodata]", "valid = w[n, w[n, :] > nodata]")]),
    ("same: early return", "same", [(G, """    if shape > 0: # or Rpeval[0] < 0.0:
        return Rp, loc, scl, shp
    else:
        return Rpeval, location, scale, shape
""", """    accepted = shape <= 0
    if accepted:
        Rp, loc, scl, shp = Rpeval, location, scale, shape
    return Rp, loc, scl, shp
""")]),
    ("file missing value differs", "bug", [(H, "                           nodata=self.nodata,", "                           nodata=0.0,")]),
]
CASES += [
 ('shp0', 'bug', [('hazard/evd.py', '        if shp <= 0.:\n            w[i] = nodata', '        if shp <= nodata:\n            w[i] = nodata')]),
 ('locnodata', 'bug', [('hazard/evd.py', '                    if not np.isfinite(loc):\n                        loc, scale, shp = [nodata, nodata, nodata]', '                    if not np.isfinite(loc):\n                        loc = nodata')]),
 ('gpdshape', 'bug', [('hazard/evd.py', '    if shape > 0: # or Rpeval[0] < 0.0:\n        return Rp, loc, scl, shp', '    if shape > 0: # or Rpeval[0] < 0.0:\n        return Rpeval, loc, scl, shp')]),
 ('ci-nodata', 'bug', [('hazard/__init__.py', 'valid = w[n, w[n, :] != nodata]', 'valid = w[n, w[n, :] != 0]')]),
 ('init0', 'bug', [('hazard/__init__.py', "    RpLower = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')", "    RpLower = np.zeros((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')")]),
 ('minrec', 'bug', [('hazard/evd.py', 'if len(ii) >= minrecords:', 'if len(data) >= minrecords:')]),
]
CASES += [
 ('gev-shp0', 'bug', [('hazard/evd.py', '                    if not np.isfinite(loc):\n                        loc, scale, shp = [nodata, nodata, nodata]', '                    if not np.isfinite(loc):\n                        loc = nodata')]),
 ('gpd-loc', 'bug', [('hazard/GPD.py', '    if shape > 0: # or Rpeval[0] < 0.0:\n        return Rp, loc, scl, shp', '    if shape > 0: # or Rpeval[0] < 0.0:\n        return Rp, location, scl, shp')]),
 ('gpd-lt', 'bug', [('hazard/GPD.py', '    if len(data) < minrecords:\n', '    if len(recs) + len(data) < minrecords:\n')]),
 ('power-partial', 'bug', [('hazard/evd.py', '        w = func(intervals, *pars)\n        loc, scale, shp = pars\n', '        w = func(intervals, *pars)\n        loc, scale = pars[:2]\n')]),
 ('gev-ge', 'bug', [('hazard/evd.py', '            if len(ii) >= minrecords:\n', '            if len(data) >= minrecords:\n')]),
]
