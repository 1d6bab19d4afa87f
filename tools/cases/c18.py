H = "hazard/__init__.py"
PAR = """                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]

                if self.calcCI:
                    self.RPupper"""
CASES = [
    ("tile end one short", "bug", [(H, """        x2 = int(self.x_end[k] + 1)""", """        x2 = int(self.x_end[k])""")]),
    ("tiles overlap", "bug", [(H, """                                    self.xdim + self.imin) - 1""", """                                    self.xdim + self.imin)""")]),
    ("tile start without offset", "bug", [(H, """                self.y_start[k] = j * self.ystep + self.jmin""", """                self.y_start[k] = j * self.ystep + self.imin""")]),
    ("partial tiles dropped", "bug", [(H, """int(np.ceil(self.xdim / float(self.xstep)))""", """max(1, int(self.xdim // self.xstep))""")]),
    ("rows and columns of tile counter", "bug", [(H, """                k += 1

""", """                k = (i + 1) * subset_maxcols + j
""")]),
    ("same: tile counter", "same", [(H, """        for i in range(subset_maxcols):
            for j in range(subset_maxrows):
""", """        for i in range(subset_maxcols):
            for j in range(subset_maxrows):
                k = i * subset_maxrows + j
"""), (H, """                k += 1

""", "")]),
    ("extent one short", "bug", [(H, "self.wf_lat[self.jmin:self.jmax + 1]", "self.wf_lat[self.jmin:self.jmax]")]),
    ("limits x y swapped in loadFile", "bug", [(H, "data_subset = ncobj_vmax[ymin:ymax, xmin:xmax]", "data_subset = ncobj_vmax[xmin:xmax, ymin:ymax]")]),
    ("same: loadFile", "same", [(H, "data_subset = ncobj_vmax[ymin:ymax, xmin:xmax]", "rows = slice(ymin, ymax)\n        data_subset = ncobj_vmax[rows, xmin:xmax]")]),
    ("parallel placed without offset", "bug", [(H, """                ymax -= self.tilegrid.jmin

                self.loc[ymin:ymax, xmin:xmax] = loc
                self.scale[ymin:ymax, xmin:xmax] = scale
                self.shp[ymin:ymax, xmin:xmax] = shp
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]

""", """                ymax -= self.tilegrid.imin

                self.loc[ymin:ymax, xmin:xmax] = loc
                self.scale[ymin:ymax, xmin:xmax] = scale
                self.shp[ymin:ymax, xmin:xmax] = shp
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]

""")]),
    ("scale and shape swapped in parallel", "bug", [(H, """                self.scale[ymin:ymax, xmin:xmax] = scale
                self.shp[ymin:ymax, xmin:xmax] = shp
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]

""", """                self.scale[ymin:ymax, xmin:xmax] = shp
                self.shp[ymin:ymax, xmin:xmax] = scale
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]

""")]),
    ("upper and lower swapped in result", "bug", [(H, "return (tilelimits, Rp, loc, scale, shp, RpUpper, RpLower)", "return (tilelimits, Rp, loc, scale, shp, RpLower, RpUpper)")]),
    ("lower percentile", "bug", [(H, "    upper = 100. - lower", "    upper = 100. - prange")]),
    ("GEV sorted along wrong axis", "bug", [(H, "    Vr.sort(axis=0) #axis 0 = year\n    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon\n    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon\n    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon\n    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon\n\n    for i in range(Vr.shape[1]): # lat\n        for j in range(Vr.shape[2]): # lon\n            if Vr[:,i,j].max() > 0.0: # all years at one lat/lon\n                w, l, sc, sh = evd.gevfit", "    Vr.sort()\n    Rp = nodata*np.ones((len(years),) + Vr.shape[1:], dtype='f') # Rp = years x lat x lon\n    loc = nodata*np.ones(Vr.shape[1:], dtype='f') # loc = lat x lon\n    scale = nodata*np.ones(Vr.shape[1:], dtype='f') # scale = lat x lon\n    shp = nodata*np.ones(Vr.shape[1:], dtype='f') # shp = lat x lon\n\n    for i in range(Vr.shape[1]): # lat\n        for j in range(Vr.shape[2]): # lon\n            if Vr[:,i,j].max() > 0.0: # all years at one lat/lon\n                w, l, sc, sh = evd.gevfit")]),
    ("GEV data of the transposed cell", "bug", [(H, "evd.gevfit(Vr[:,i,j], years, nodata,", "evd.gevfit(Vr[:,j,i], years, nodata,")]),
    ("GEV last row skipped", "bug", [(H, "    for i in range(Vr.shape[1]): # lat\n        for j in range(Vr.shape[2]): # lon\n            if Vr[:,i,j].max() > 0.0: # all years at one lat/lon\n                w, l, sc, sh = evd.gevfit", "    for i in range(Vr.shape[1] - 1): # lat\n        for j in range(Vr.shape[2]): # lon\n            if Vr[:,i,j].max() > 0.0: # all years at one lat/lon\n                w, l, sc, sh = evd.gevfit")]),
    ("aggregated over wrong axis", "bug", [(H, "np.max(Va, axis=0)", "np.max(Va, axis=1)")]),
    ("same: aggregate max method", "same", [(H, "np.max(Va, axis=0)", "Va.max(axis=0)")]),
    ("limits returned shifted", "bug", [(H, "            return (tilelimits, Rp, loc, scale, shp)", "            return ((tilelimits[2], tilelimits[3], tilelimits[0], tilelimits[1]), Rp, loc, scale, shp)")]),
    ("loc and scale swapped in return", "bug", [(H, "            Rp, loc, scale, shp = calculateGPD(", "            Rp, scale, loc, shp = calculateGPD(")]),
    ("saved scale as shp", "bug", [(H, "                'values': self.scale,", "                'values': self.shp,")]),
    ("worker returns the parts in reverse", "miss", [(H, "                results = self.calculateHazard(W)", "                results = self.calculateHazard(W)\n                results = (W[:],) + tuple(results[1:])[::-1]")]),
    ("same: helper for tile", "same", [(H, """                (xmin, xmax, ymin, ymax) = limits
                xmin -= self.tilegrid.imin
                xmax -= self.tilegrid.imin
                ymin -= self.tilegrid.jmin
                ymax -= self.tilegrid.jmin

                self.loc[ymin:ymax, xmin:xmax] = loc
                self.scale[ymin:ymax, xmin:xmax] = scale
                self.shp[ymin:ymax, xmin:xmax] = shp
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]
                if self.calcCI:
                    self.RPupper[:, ymin:ymax, xmin:xmax] = RPupper[:, :, :]
""", """                (xmin, xmax, ymin, ymax) = self._shift(limits)

                self.loc[ymin:ymax, xmin:xmax] = loc
                self.scale[ymin:ymax, xmin:xmax] = scale
                self.shp[ymin:ymax, xmin:xmax] = shp
                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]
                if self.calcCI:
                    self.RPupper[:, ymin:ymax, xmin:xmax] = RPupper[:, :, :]
"""), (H, """    def dumpHazardFromTiles(self""", """    def _shift(self, limits):
        i0, j0 = self.tilegrid.imin, self.tilegrid.jmin
        return (limits[0] - i0, limits[1] - i0,
                limits[2] - j0, limits[3] - j0)

    def dumpHazardFromTiles(self""")]),
    ("w kept between cells", "bug", [(H, """                # w: years x number of iterations
                w = nodata*np.ones((len(years), nsamples), dtype='f')
""", ""), (H, """    wUpper = np.zeros(""", """    w = nodata*np.ones((len(years), nsamples), dtype='f')
    wUpper = np.zeros(""")]),
    ("confidence data of the transposed cell", "bug", [(H, "vsub = Vr[nstart:nend, i, j]", "vsub = Vr[nstart:nend, j, i]")]),
]
CASES += [
 ('imin', 'bug', [('hazard/__init__.py', '                ymin -= self.tilegrid.jmin\n                ymax -= self.tilegrid.jmin\n', '                ymin -= self.tilegrid.imin\n                ymax -= self.tilegrid.imin\n')]),
 ('xend', 'bug', [('hazard/__init__.py', '                self.y_end[k] = min((j + 1) * self.ystep + self.jmin,\n                                    self.ydim + self.jmin) - 1', '                self.y_end[k] = min((j + 1) * self.ystep + self.jmin,\n                                    self.ydim) - 1')]),
 ('extent', 'bug', [('hazard/__init__.py', 'lat = self.wf_lat[self.jmin:self.jmax + 1]', 'lat = self.wf_lat[self.jmin:self.jmax]')]),
 ('loadfile', 'bug', [('hazard/__init__.py', 'ncobj_vmax[ymin:ymax, xmin:xmax]', 'ncobj_vmax[xmin:xmax, ymin:ymax]')]),
 ('ij', 'bug', [('hazard/__init__.py', '                scale[i, j] = sc\n                shp[i, j] = sh\n\n    return Rp, loc, scale, shp\n\ndef calculateEMP', '                scale[j, i] = sc\n                shp[i, j] = sh\n\n    return Rp, loc, scale, shp\n\ndef calculateEMP')]),
 ('stale', 'bug', [('hazard/__init__.py', '            if Vr[:, i, j].max() > 0.0: # check for valid data\n', '            if Vr[:, i, 0].max() > 0.0: # check for valid data\n')]),
 ('reversed-lat', 'bug', [('hazard/__init__.py', "                'values': lat,\n", "                'values': lat[::-1],\n")]),
 ('cieq', 'bug', [('hazard/__init__.py', 'RpUpper[:, i, j] = wUpper', 'RpUpper[:, i, j] = wLower')]),
]
CASES += [
 ('alias-ci', 'bug', [('hazard/__init__.py', "        self.RPupper = np.zeros((len(self.years), len(lat), len(lon)), dtype='f')\n        self.RPlower = np.zeros((len(self.years), len(lat), len(lon)), dtype='f')\n", "        self.RPupper = np.zeros((len(self.years), len(lat), len(lon)), dtype='f')\n        self.RPlower = self.RPupper\n")]),
 ('alias-shp', 'bug', [('hazard/__init__.py', "        self.shp = np.zeros((len(lat), len(lon)), dtype='f')\n        self.scale = np.zeros((len(lat), len(lon)), dtype='f')\n", "        self.shp = self.scale = np.zeros((len(lat), len(lon)), dtype='f')\n")]),
 ('ci-hoist', 'bug', [('hazard/__init__.py', '                RpUpper[:, i, j] = wUpper\n                RpLower[:, i, j] = wLower\n', '                RpUpper[:, i, j] = wUpper\n                RpLower[:, i, :] = wLower[:, None]\n')]),
 ('offset-swap', 'bug', [('hazard/__init__.py', '                result = self.calculateHazard(tile)\n                if self.calcCI:\n                    limits, Rp, loc, scale, shp, RPupper, RPlower = result\n                else:\n                    limits, Rp, loc, scale, shp = result\n\n                # Reset the min/max bounds for the output array:\n                (xmin, xmax, ymin, ymax) = limits\n                xmin -= self.tilegrid.imin\n                xmax -= self.tilegrid.imin\n                ymin -= self.tilegrid.jmin\n                ymax -= self.tilegrid.jmin\n', '                result = self.calculateHazard(tile)\n                if self.calcCI:\n                    limits, Rp, loc, scale, shp, RPupper, RPlower = result\n                else:\n                    limits, Rp, loc, scale, shp = result\n\n                # Reset the min/max bounds for the output array:\n                (xmin, xmax, ymin, ymax) = limits\n                xmin -= self.tilegrid.imin\n                xmax -= self.tilegrid.imin\n                ymin -= self.tilegrid.imin\n                ymax -= self.tilegrid.imin\n')]),
 ('int16', 'bug', [('hazard/__init__.py', "        self.Rp = np.zeros((len(self.years), len(lat), len(lon)), dtype='f')", "        self.Rp = np.zeros((len(self.years), len(lat), len(lon)), dtype='i')")]),
]
CASES += [
 ('imax', 'bug', [('hazard/__init__.py', 'lon = self.wf_lon[self.imin:self.imax + 1]', 'lon = self.wf_lon[self.imin:self.imax + 1][::-1]')]),
 ('ystep', 'bug', [('hazard/__init__.py', 'subset_maxrows = int(np.ceil(self.ydim / float(self.ystep)))', 'subset_maxrows = int(np.ceil(self.ydim / float(self.xstep)))')]),
 ('round-tiles', 'bug', [('hazard/__init__.py', 'subset_maxcols = int(np.ceil(self.xdim / float(self.xstep)))', 'subset_maxcols = int(round(self.xdim / float(self.xstep))) or 1')]),
]
CASES += [
 ('worker-return18', 'same', [('hazard/__init__.py', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    break', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    return')]),
]
CASES += [
 ('agg-mean', 'bug', [('hazard/__init__.py', '        Vm[year, :, :] = np.max(Va, axis=0)\n', '        Vm[year, :, :] = np.max(Va[1:], axis=0) if len(Va) > 1 else Va[0]\n')]),
 ('agg-year', 'same', [('hazard/__init__.py', '        Vm[year, :, :] = np.max(Va, axis=0)\n', '        Vm[year - 1, :, :] = np.max(Va, axis=0)\n')]),
 ('vmax-mask', 'bug', [('hazard/__init__.py', '        data_subset = ncobj_vmax[ymin:ymax, xmin:xmax]\n', '        data_subset = ncobj_vmax[ymin:ymax, xmin:xmax][::-1]\n')]),
 ('ci-upper', 'bug', [('hazard/__init__.py', '                        wUpper[n] = percentile(valid, upper)\n                        wLower[n] = percentile(valid, lower)\n', '                        wUpper[n] = percentile(valid, lower)\n                        wLower[n] = percentile(valid, upper)\n')]),
 ('tile-ymin', 'bug', [('hazard/__init__.py', '                self.y_end[k] = min((j + 1) * self.ystep + self.jmin,\n                                    self.ydim + self.jmin) - 1\n', '                self.y_end[k] = min((j + 1) * self.ystep,\n                                    self.ydim) + self.jmin\n')]),
]
