T = "Utilities/track.py"
N = "Utilities/nctools.py"
W = "wind/__init__.py"
D = "database/__init__.py"
P = "Utilities/process.py"
G = "StatInterface/GenerateDistributions.py"
S = "Utilities/shptools.py"
TS = "Utilities/timeseries.py"
CASES = [
 ("tracks not closed", "bug", [(T, "    ncobj.setncatts(attributes)\n    ncobj.close()", "    ncobj.setncatts(attributes)")]),
 ("early return on empty track", "bug", [(T, "        if len(t.data) == 0: # Empty track\n            continue", "        if len(t.data) == 0: # Empty track\n            return")]),
 ("closed then attributes", "bug", [(T, "    ncobj.setncatts(attributes)\n    ncobj.close()", "    ncobj.close()\n    ncobj.setncatts(attributes)")]),
 ("tracks with a context", "same", [(T, "    ncobj.setncatts(attributes)\n    ncobj.close()", "    try:\n        ncobj.setncatts(attributes)\n    finally:\n        ncobj.close()")]),
 ("tracks attribute helper", "same", [(T, "    ncobj.setncatts(attributes)\n    ncobj.close()", "    finish(ncobj, attributes)"), (T, "def ncSaveTracks(", "def finish(obj, atts):\n    obj.setncatts(atts)\n    obj.close()\n\ndef ncSaveTracks(")]),
 ("grid returned early without close", "bug", [(N, "    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return", "    if keepfileopen:\n        return ncobj\n    elif not writedata:\n        return\n    else:\n        ncobj.close()\n        return")]),
 ("grid inverted", "same", [(N, "    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return", "    if not keepfileopen:\n        ncobj.close()\n        return\n    return ncobj")]),
 ("grid test swapped", "bug", [(N, "    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return", "    if keepfileopen:\n        ncobj.close()\n        return ncobj\n    else:\n        return")]),
 ("title after close", "bug", [(N, "    if datatitle:\n        ncobj.setncattr('title', datatitle)\n\n    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return", "    if keepfileopen:\n        return ncobj\n    ncobj.close()\n    if datatitle:\n        ncobj.setncattr('title', datatitle)\n    return")]),
 ("evolution never closed", "bug", [(W, "        if type(timeStepCallback) is writer.WriteFoliationCallback:\n            timeStepCallback.ds.close()\n\n", "")]),
 ("evolution isinstance", "same", [(W, "        if type(timeStepCallback) is writer.WriteFoliationCallback:", "        if isinstance(timeStepCallback, writer.WriteFoliationCallback):")]),
 ("evolution closed in loop", "bug", [(W, "                P, pressure[jmin:jmax, imin:imax])\n\n        if type(timeStepCallback) is writer.WriteFoliationCallback:\n            timeStepCallback.ds.close()\n", "                P, pressure[jmin:jmax, imin:imax])\n\n            if type(timeStepCallback) is writer.WriteFoliationCallback:\n                timeStepCallback.ds.close()\n")]),
 ("evolution closed before steps", "bug", [(W, "        for i in tqdm.tqdm(timesInRegion", "        if type(timeStepCallback) is writer.WriteFoliationCallback:\n            timeStepCallback.ds.close()\n\n        for i in tqdm.tqdm(timesInRegion"), (W, "        if type(timeStepCallback) is writer.WriteFoliationCallback:\n            timeStepCallback.ds.close()\n\n        return gust", "        return gust")]),
 ("evolution object not passed", "bug", [(W, "            callback = writer.WriteFoliationCallback(output,", "            cb = writer.WriteFoliationCallback(output,")]),
 ("distributions not closed", "bug", [(G, "            y[:] = results[:, 2]\n\n            ncdf.close()", "            y[:] = results[:, 2]")]),
 ("distributions filled after close", "bug", [(G, "            y[:] = results[:, 2]\n\n            ncdf.close()", "            ncdf.close()\n            y[:] = results[:, 2]")]),
 ("ledger not closed", "bug", [(P, "+ '\\n')\n            fh.close()", "+ '\\n')")]),
 ("ledger with", "same", [(P, "            fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')\n            fh.close()", "            with fh:\n                fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')")]),
 ("points not closed", "bug", [(S, "            sf.point(x, y)\n            sf.record(*rec)\n\n    try:\n        sf.close()\n    except shapefile.ShapefileException:\n        raise\n", "            sf.point(x, y)\n            sf.record(*rec)\n")]),
 ("points closed per track", "bug", [(S, "            sf.point(x, y)\n            sf.record(*rec)\n\n    try:", "            sf.point(x, y)\n            sf.record(*rec)\n        if len(track.data) == 0:\n            return\n\n    try:")]),
 ("series without with", "bug", [(TS, "                with open(fname, 'wb') as fh:\n                    np.savetxt(fh,", "                fh = open(fname, 'wb')\n                if True:\n                    np.savetxt(fh,")]),
 ("tracks records not committed", "bug", [(D, "            self.commit()\n            log.debug(\"Inserted {0} records into tblTracks", "            log.debug(\"Inserted {0} records into tblTracks")]),
 ("winds committed by the caller only in one case", "bug", [(D, "            self.executemany(INSLOCATIONS, locations)\n            self.commit()", "            self.executemany(INSLOCATIONS, locations)\n            if len(locations) > 1:\n                self.commit()")]),
 ("with connection", "same", [(D, "            self.executemany(INSLOCATIONS, locations)\n            self.commit()", "            with self:\n                self.executemany(INSLOCATIONS, locations)")]),
 ("location db committed after close", "bug", [(D, "    locdb.executemany(INSLOCATIONS, locations)\n    locdb.commit()\n", "    locdb.commit()\n    locdb.executemany(INSLOCATIONS, locations)\n")]),
 ("commit helper", "same", [(D, "            self.executemany(INSLOCATIONS, locations)\n            self.commit()", "            self.store(INSLOCATIONS, locations)"), (D, "    def setLocations(self):", "    def store(self, stmt, rows):\n        self.executemany(INSLOCATIONS, rows)\n        self.commit()\n\n    def setLocations(self):")]),
 ("commit helper generic", "same", [(D, "            self.executemany(INSLOCATIONS, locations)\n            self.commit()", "            self.store(INSLOCATIONS, locations)"), (D, "    def setLocations(self):", "    def store(self, stmt, rows):\n        self.executemany(stmt, rows)\n        self.commit()\n\n    def setLocations(self):")]),
 ("winds not committed", "bug", [(D, "            log.exception(\"Programming error: {0}\".format(err.args[0]))\n        else:\n            self.commit()\n\n\n", "            log.exception(\"Programming error: {0}\".format(err.args[0]))\n\n\n")]),
 ("hazard not committed", "bug", [(D, "            raise\n        else:\n            self.commit()\n\n    # pylint: disable=R0912\n    def processTracks", "            raise\n\n    # pylint: disable=R0912\n    def processTracks")]),
]
CASES += [
 ('kept-grid', 'same', [('Utilities/nctools.py', '    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return\n', '    if not keepfileopen and writedata:\n        ncobj.close()\n        return\n    return ncobj\n')]),
 ('title-close', 'bug', [('Utilities/nctools.py', "    ncobj.setncatts(gatts)\n\n    if datatitle:\n        ncobj.setncattr('title', datatitle)\n\n    if keepfileopen:\n        return ncobj\n    else:\n        ncobj.close()\n        return\n", "    if not keepfileopen:\n        ncobj.close()\n\n    ncobj.setncatts(gatts)\n\n    if datatitle:\n        ncobj.setncattr('title', datatitle)\n\n    if keepfileopen:\n        return ncobj\n")]),
 ('shp-try', 'bug', [('Utilities/tracks2shp.py', '            sf.point(lon, lat)\n            sf.record(*rec)\n\n    try:\n        sf.close()\n', '            sf.point(lon, lat)\n            sf.record(*rec)\n\n    try:\n        sf.balance()\n')]),
 ('commit-create', 'same', [('database/__init__.py', '            self.execute(tblDef)\n            self.commit()\n        except', '            self.execute(tblDef)\n        except'), ('database/__init__.py', '        self.exists = True\n        self.commit()\n', '        self.exists = True\n')]),
 ('rollback', 'bug', [('database/__init__.py', '            self.executemany(INSHAZARD, params)\n        except sqlite3.Error as err:', '            self.executemany(INSHAZARD, params)\n            self.rollback()\n        except sqlite3.Error as err:')]),
 ('commit-some', 'bug', [('database/__init__.py', '        else:\n            self.commit()\n            log.debug("Inserted {0} records into tblTracks', '        else:\n            if len(trackRecords) > 100:\n                self.commit()\n            log.debug("Inserted {0} records into tblTracks')]),
 ('locs', 'bug', [('database/__init__.py', '            self.executemany(INSLOCATIONS, locations)\n            self.commit()\n', '            self.commit()\n            self.executemany(INSLOCATIONS, locations)\n')]),
 ('foliation', 'bug', [('wind/__init__.py', '        if type(timeStepCallback) is writer.WriteFoliationCallback:\n            timeStepCallback.ds.close()\n', '        if type(timeStepCallback) is writer.WriteMemoryCallback:\n            timeStepCallback.ds.close()\n')]),
 ('interp', 'bug', [('Utilities/interpTrack.py', '    fh.close()', '    fh.flush')]),
 ('ledger-flush', 'bug', [('Utilities/process.py', '            fh.close()\n            rc = 1\n', '            rc = 1\n            if not moddate:\n                fh.close()\n')]),
 ('locdb', 'bug', [('database/__init__.py', '    locdb.commit()\n    locdb.close()\n', '    locdb.close()\n    locdb.commit()\n')]),
]
CASES += [
 ('tracks-raise', 'bug', [('Utilities/track.py', '    ncobj.setncatts(attributes)\n    ncobj.close()\n\n    return\n', '    ncobj.setncatts(attributes)\n    if ncobj.isopen() and len(tracks) > 1:\n        ncobj.close()\n\n    return\n')]),
]
CASES += [
 ('ws-commit', 'bug', [('database/__init__.py', '            log.exception("Programming error: {0}".format(err.args[0]))\n        else:\n            self.commit()', '            log.exception("Programming error: {0}".format(err.args[0]))\n        else:\n            if nrecords > 1:\n                self.commit()')]),
 ('wf-close', 'bug', [('database/__init__.py', '        lon, lat, vmax, ua, va, pmin = loadWindfieldFile(ncobj)\n        ncobj.close()', '        ncobj.close()\n        lon, lat, vmax, ua, va, pmin = loadWindfieldFile(ncobj)')]),
]
CASES += [
 ('haz-close', 'bug', [('database/__init__.py', "        shpParam = ncobj.variables['shp'][:]\n        ncobj.close()\n", "        ncobj.close()\n        shpParam = ncobj.variables['shp'][:]\n")]),
]
