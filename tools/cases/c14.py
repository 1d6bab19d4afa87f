W = "wind/__init__.py"
CASES = [
 ("bearing-always", "bug", [(W, """            bearing[jmin:jmax, imin:imax] = np.where(
                mask, localBearing, bearing[jmin:jmax, imin:imax])""",
  """            bearing[jmin:jmax, imin:imax] = localBearing""")]),
 ("mask-late", "bug", [(W, """            UU[jmin:jmax, imin:imax] = np.where(
                mask, Ux, UU[jmin:jmax, imin:imax])""",
  """            mask = localGust > gust[jmin:jmax, imin:imax]
            UU[jmin:jmax, imin:imax] = np.where(
                mask, Ux, UU[jmin:jmax, imin:imax])""")]),
 ("gf-one", "bug", [(W, "            Vy *= self.gustFactor\n", "")]),
 ("pressure-max", "bug", [(W, "                P < pressure[jmin:jmax, imin:imax],", "                P > pressure[jmin:jmax, imin:imax],")]),
 ("pressure-mask", "bug", [(W, "                P < pressure[jmin:jmax, imin:imax],", "                mask,")]),
 ("merge-late", "bug", [(W, """            mask = gust1 > gust
            gust = np.where(mask, gust1, gust)
""", """            gust = np.maximum(gust1, gust)
            mask = gust1 > gust
""")]),
 ("merge-ge-late", "bug", [(W, """            mask = gust1 > gust
            gust = np.where(mask, gust1, gust)
""", """            gust = np.maximum(gust1, gust)
            mask = gust1 >= gust
""")]),
 ("merge-swap", "bug", [(W, "Vx = np.where(mask, Vx1, Vx)", "Vx = np.where(mask, Vy1, Vx)")]),
 ("save-swap", "bug", [(W, """                                 np.flipud(Vx),
                                 np.flipud(Vy),""", """                                 np.flipud(Vy),
                                 np.flipud(Vx),""")]),
 ("save-noflip", "bug", [(W, "                                 np.flipud(Vx),", "                                 Vx,")]),
 ("abs-gust", "bug", [(W, "localGust = np.sqrt(Ux ** 2 + Vy ** 2)", "localGust = np.maximum(np.abs(Ux), np.abs(Vy))")]),
 ("bearing-to", "bug", [(W, "np.arctan2(-Ux, -Vy)", "np.arctan2(Ux, Vy)")]),
 ("last-step", "bug", [(W, "tqdm.tqdm(timesInRegion, disable=None)", "tqdm.tqdm(timesInRegion[:-1], disable=None)")]),
 ("strict-region", "bug", [(W, "(self.track.Longitude <= xMax)", "(self.track.Longitude <= yMax)")]),
 ("window-b", "bug", [(W, "VV[jmin:jmax, imin:imax] = np.where(", "VV[jmin:jmax, jmin:jmax] = np.where(")]),
 ("lonlat", "bug", [(W, "latCDegree = np.array(100. * self.track.Latitude, dtype=int)", "latCDegree = np.array(100. * self.track.Longitude, dtype=int)")]),
 ("break", "bug", [(W, "            Ux, Vy, P = self.localWindField(i)\n", "            Ux, Vy, P = self.localWindField(i)\n            if np.max(Ux) < 1.: break\n")]),
 ("init-gust", "bug", [(W, "gust = np.zeros_like(cGridX, dtype='f')", "gust = 5. + np.zeros_like(cGridX, dtype='f')")]),
 ("slice-skip", "bug", [(W, "            # Calculate the local wind speeds and pressure at time i", "            if i % 2: continue")]),
 ("maximum", "same", [(W, """            gust[jmin:jmax, imin:imax] = np.where(
                mask, localGust, gust[jmin:jmax, imin:imax])""", """            gust[jmin:jmax, imin:imax] = np.maximum(localGust, gust[jmin:jmax, imin:imax])"""), 
   (W, """            pressure[jmin:jmax, imin:imax] = np.where(
                P < pressure[jmin:jmax, imin:imax],
                P, pressure[jmin:jmax, imin:imax])""", """            pressure[jmin:jmax, imin:imax] = np.minimum(P, pressure[jmin:jmax, imin:imax])""")]),
 ("views", "same", [(W, """            mask = localGust > gust[jmin:jmax, imin:imax]
""", """            win = (slice(jmin, jmax), slice(imin, imax))
            old = gust[win]
            mask = old < localGust
"""), (W, """            UU[jmin:jmax, imin:imax] = np.where(
                mask, Ux, UU[jmin:jmax, imin:imax])""", """            UU[win] = np.where(~mask, UU[win], Ux)""")]),
 ("maskassign", "same", [(W, """            mask = localGust > gust[jmin:jmax, imin:imax]
""", """            mask = localGust > gust[jmin:jmax, imin:imax]
            vv = VV[jmin:jmax, imin:imax]
"""), (W, """            VV[jmin:jmax, imin:imax] = np.where(
                mask, Vy, VV[jmin:jmax, imin:imax])""", """            vv[mask] = Vy[mask]""")]),
 ("helper", "same", [(W, """            gust[jmin:jmax, imin:imax] = np.where(
                mask, localGust, gust[jmin:jmax, imin:imax])
            bearing[jmin:jmax, imin:imax] = np.where(
                mask, localBearing, bearing[jmin:jmax, imin:imax])
            UU[jmin:jmax, imin:imax] = np.where(
                mask, Ux, UU[jmin:jmax, imin:imax])
            VV[jmin:jmax, imin:imax] = np.where(
                mask, Vy, VV[jmin:jmax, imin:imax])
""", """            for total, local in ((gust, localGust), (bearing, localBearing),
                                 (UU, Ux), (VV, Vy)):
                self._keep(total, local, mask, jmin, jmax, imin, imax)
"""), (W, """    def regionalExtremes(self""", """    @staticmethod
    def _keep(total, local, mask, jmin, jmax, imin, imax):
        view = total[jmin:jmax, imin:imax]
        total[jmin:jmax, imin:imax] = np.where(mask, local, view)

    def regionalExtremes(self""")]),
 ("hypot", "same", [(W, "localGust = np.sqrt(Ux ** 2 + Vy ** 2)", "localGust = np.hypot(Ux, Vy)"), (W, "((np.arctan2(-Ux, -Vy)) * 180. / np.pi)", "np.degrees(np.arctan2(-Ux, -Vy))")]),
 ("outofplace", "same", [(W, """            Ux *= self.gustFactor
            Vy *= self.gustFactor
""", """            factor = self.gustFactor
            Ux = factor * Ux
            Vy = factor * Vy
""")]),
 ("loop-index", "same", [(W, """        for i in tqdm.tqdm(timesInRegion, disable=None):
""", """        for n in range(len(timesInRegion)):
            i = timesInRegion[n]
""")]),
 ("merge-loop", "same", [(W, """            gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
            mask = gust1 > gust
            gust = np.where(mask, gust1, gust)
            bearing = np.where(mask, bearing1, bearing)
            Vx = np.where(mask, Vx1, Vx)
            Vy = np.where(mask, Vy1, Vy)
""", """            gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
            keep = gust1 <= gust
            Vy = np.where(keep, Vy, Vy1)
            Vx = np.where(keep, Vx, Vx1)
            bearing = np.where(keep, bearing, bearing1)
            gust = np.maximum(gust, gust1)
""")]),
 ("merge-list", "same", [(W, """        results = (f(track, callback)[1] for track in trackiter)

        gust, bearing, Vx, Vy, P, lon, lat = next(results)
""", """        results = iter([f(track, callback)[1] for track in trackiter])
        first = next(results)
        gust, bearing, Vx, Vy, P, lon, lat = first
""")]),
 ("save-helper", "same", [(W, """            self.saveGustToFile(track.trackfile,
                                (np.flipud(lat), lon,
                                 np.flipud(gust),
                                 np.flipud(Vx),
                                 np.flipud(Vy),
                                 np.flipud(P)),
                                dumpfile)
""", """            flipped = tuple(np.flipud(x) for x in (gust, Vx, Vy, P))
            self.saveGustToFile(track.trackfile,
                                (lat[::-1], lon) + flipped,
                                dumpfile)
""")]),
]
CASES += [
 ('mask-after', 'bug', [('wind/__init__.py', '            # Retain when there is a new maximum gust\n            mask = localGust > gust[jmin:jmax, imin:imax]\n\n            gust[jmin:jmax, imin:imax] = np.where(\n                mask, localGust, gust[jmin:jmax, imin:imax])\n            bearing[jmin:jmax, imin:imax] = np.where(\n                mask, localBearing, bearing[jmin:jmax, imin:imax])', '            # Retain when there is a new maximum gust\n            mask = localGust > gust[jmin:jmax, imin:imax]\n\n            gust[jmin:jmax, imin:imax] = np.where(\n                mask, localGust, gust[jmin:jmax, imin:imax])\n            mask = localGust > gust[jmin:jmax, imin:imax]\n            bearing[jmin:jmax, imin:imax] = np.where(\n                mask, localBearing, bearing[jmin:jmax, imin:imax])')]),
 ('press-mask', 'bug', [('wind/__init__.py', 'P < pressure[jmin:jmax, imin:imax],\n                P,', 'mask,\n                P,')]),
 ('comp-tracks-p', 'bug', [('wind/__init__.py', 'P = np.where(P1 < P, P1, P)', 'P = np.where(mask, P1, P)')]),
 ('bearing-tracks', 'bug', [('wind/__init__.py', 'bearing = np.where(mask, bearing1, bearing)\n            Vx', 'bearing = np.where(gust1 >= gust, bearing1, bearing)\n            Vx')]),
 ('vy-absolute', 'bug', [('wind/__init__.py', 'mask, Vy, VV[jmin:jmax, imin:imax])', 'np.abs(Vy) > np.abs(VV[jmin:jmax, imin:imax]), Vy, VV[jmin:jmax, imin:imax])')]),
 ('pressure-start0', 'bug', [('wind/__init__.py', "pressure = np.ones_like(cGridX, dtype='f') * envPressure", "pressure = np.zeros_like(cGridX, dtype='f')")]),
 ('gust-factor-y', 'bug', [('wind/__init__.py', '            Vy *= self.gustFactor\n', '')]),
 ('skip-times', 'bug', [('wind/__init__.py', 'for i in tqdm.tqdm(timesInRegion, disable=None):', 'for i in tqdm.tqdm(timesInRegion[:-1], disable=None):')]),
 ('bounded-window', 'bug', [('wind/__init__.py', 'imin = int((lonCDegree[i] - minLon - gridMargin) / gridStep)', 'imin = int((lonCDegree[i] - minLon + gridMargin) / gridStep)')]),
 ('flip-one', 'bug', [('wind/__init__.py', '                                 np.flipud(Vx),\n', '                                 Vx,\n')]),
 ('tracks-order', 'bug', [('wind/__init__.py', '            gust = np.where(mask, gust1, gust)\n            bearing = np.where(mask, bearing1, bearing)\n            Vx = np.where(mask, Vx1, Vx)\n', '            gust = np.where(mask, gust1, gust)\n            bearing = np.where(mask, bearing1, bearing)\n            Vx = np.where(gust1 > gust, Vx1, Vx)\n')]),
 ('same-max', 'same', [('wind/__init__.py', '            gust = np.where(mask, gust1, gust)\n            bearing', '            gust = np.maximum(gust1, gust)\n            bearing')]),
 ('same-assign', 'same', [('wind/__init__.py', '            pressure[jmin:jmax, imin:imax] = np.where(\n                P < pressure[jmin:jmax, imin:imax],\n                P, pressure[jmin:jmax, imin:imax])', '            region = (slice(jmin, jmax), slice(imin, imax))\n            pressure[region] = np.minimum(P, pressure[region])')]),
]
CASES += [
 ('alias-uv', 'bug', [('wind/__init__.py', "        UU = np.zeros_like(cGridX, dtype='f')\n        VV = np.zeros_like(cGridY, dtype='f')\n", "        UU = VV = np.zeros_like(cGridX, dtype='f')\n")]),
 ('int-pressure', 'bug', [('wind/__init__.py', "pressure = np.ones_like(cGridX, dtype='f') * envPressure", 'pressure = np.ones_like(cGridX) * int(envPressure)')]),
 ('env-each', 'bug', [('wind/__init__.py', '            # Retain the lowest pressure\n            pressure[', '            # Retain the lowest pressure\n            pressure[jmin:jmax, imin:imax][mask] = P[mask]\n            pressure[')]),
 ('gust-int', 'bug', [('wind/__init__.py', "        gust = np.zeros_like(cGridX, dtype='f')\n", '        gust = np.zeros_like(cGridX)\n')]),
 ('bearing-alias', 'bug', [('wind/__init__.py', "        bearing = np.zeros_like(cGridX, dtype='f')\n        gust = np.zeros_like(cGridX, dtype='f')\n", "        bearing = np.zeros_like(cGridX, dtype='f')\n        gust = bearing\n")]),
 ('same-views', 'same', [('wind/__init__.py', "        UU = np.zeros_like(cGridX, dtype='f')\n        VV = np.zeros_like(cGridY, dtype='f')\n", "        UU, VV = (np.zeros_like(cGridX, dtype='f') for _ in range(2))\n")]),
]
CASES += [
 ('env-first', 'bug', [('wind/__init__.py', "pressure = np.ones_like(cGridX, dtype='f') * envPressure", "pressure = np.ones_like(cGridX, dtype='f') * 100000.")]),
 ('gust-abs', 'bug', [('wind/__init__.py', 'mask = localGust > gust[jmin:jmax, imin:imax]', 'mask = (localGust > gust[jmin:jmax, imin:imax]) & (P < pressure[jmin:jmax, imin:imax])')]),
 ('time-unique', 'bug', [('wind/__init__.py', 'for i in tqdm.tqdm(timesInRegion, disable=None):', 'for i in tqdm.tqdm(timesInRegion[:-1] if len(timesInRegion) > 1 else timesInRegion, disable=None):')]),
 ('lowp-mask', 'bug', [('wind/__init__.py', '            P = np.where(P1 < P, P1, P)', '            P = np.where(mask, P1, P)')]),
]
CASES += [
 ('press-first-step', 'bug', [('wind/__init__.py', '            pressure[jmin:jmax, imin:imax] = np.where(\n                P < pressure[jmin:jmax, imin:imax],\n', '            pressure[jmin:jmax, imin:imax] = np.where(\n                (P < pressure[jmin:jmax, imin:imax]) & (localGust > 0),\n')]),
 ('gust-ge17', 'bug', [('wind/__init__.py', '            mask = localGust > gust[jmin:jmax, imin:imax]\n', '            mask = (localGust > gust[jmin:jmax, imin:imax]) & (localGust > 17.)\n')]),
 ('save-vx', 'bug', [('wind/__init__.py', '                                 np.flipud(Vx),\n', '                                 np.flipud(np.abs(Vx)),\n')]),
]
CASES += [
 ('hz-sort', 'same', [('hazard/__init__.py', '    for n, f in enumerate(sorted(files)):\n', '    for n, f in enumerate(files):\n')]),
]
