T = "Utilities/track.py"
DATA = "        data = t.data.copy()\n        data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)\n        times[:] = data['Datetime']\n"
LOOP = "            for f in track_data.dtype.names:\n                if f != 'Datetime' and f in track_dtype.names:\n                    newtd[f] = track_data[f]\n"
CASES = [
 ("in place", "bug", [(T, "data = t.data.copy()", "data = t.data")]),
 ("in place via view", "bug", [(T, "data = t.data.copy()", "data = t.data[:]")]),
 ("skip single records", "bug", [(T, "        if len(t.data) == 0: # Empty track", "        if len(t.data) <= 1: # Empty track")]),
 ("one track only", "bug", [(T, "    if len(tracks) == 0:\n        log.info", "    if len(tracks) <= 1:\n        log.info")]),
 ("units fixed", "bug", [(T, "times.units = timeunits", "times.units = 'hours since 1900-01-01 00:00'")]),
 ("calendar fixed", "bug", [(T, "times.calendar = calendar", "times.calendar = 'standard'")]),
 ("calendar ignored", "bug", [(T, "date2num(data['Datetime'], timeunits, calendar)", "date2num(data['Datetime'], timeunits)")]),
 ("reader calendar ignored", "bug", [(T, "                              data.variables['time'].units,\n                              data.variables['time'].calendar)", "                              data.variables['time'].units)")]),
 ("minutes lost", "bug", [(T, "            dtconversion = [datetime.strptime(d.strftime(), \"%Y-%m-%d %H:%M:%S\") for d in dt]", "            dtconversion = [datetime.strptime(d.strftime(\"%Y-%m-%d %H:00\"), \"%Y-%m-%d %H:%M\") for d in dt]")]),
 ("pressure column lost", "bug", [(T, LOOP, LOOP.replace("f != 'Datetime'", "f not in ('Datetime', 'EnvPressure')"))]),
 ("row lost", "bug", [(T, "            track_data = data.variables['track'][:]", "            track_data = data.variables['track'][:-1]")]),
 ("group names collide", "bug", [(T, '"tracks-{:04d}".format(n)', '"tracks-{:04d}".format(n // 2)')]),
 ("same name", "bug", [(T, '"tracks-{:04d}".format(n)', '"tracks"')]),
 ("reversed", "bug", [(T, "enumerate(tracks):\n        if len(t.data)", "enumerate(tracks[::-1]):\n        if len(t.data)")]),
 ("sorted", "bug", [(T, "enumerate(tracks):\n        if len(t.data)", "enumerate(sorted(tracks, key=lambda x: x.trackId)):\n        if len(t.data)")]),
 ("id numbered", "bug", [(T, "track.trackId = eval(data.variables['track'].trackId)", "track.trackId = (i, ntracks)")]),
 ("id index", "bug", [(T, "tvar.trackId = repr(t.trackId)", "tvar.trackId = repr((n, 0))")]),
 ("id other variable", "bug", [(T, "tvar.trackId = repr(t.trackId)", "times.trackId = repr(t.trackId)")]),
 ("first track's data", "bug", [(T, "data = t.data.copy()", "data = tracks[0].data.copy()")]),
 ("single precision time", "bug", [(T, "track_dtype[dtidx] = ('Datetime', 'f8')", "track_dtype[dtidx] = ('Datetime', 'f4')")]),
 ("columns swapped", "bug", [(T, "                    newtd[f] = track_data[f]\n            dtconv", "                    newtd[f] = track_data[f]\n            newtd['Speed'] = track_data['Bearing']\n            dtconv")]),
 ("reader type narrowed", "bug", [(T, "    track_dtype = np.dtype({'names':TCRM_COLS,\n                            'formats':TCRM_FMTS})", "    track_dtype = np.dtype({'names':TCRM_COLS,\n                            'formats':('i', 'object', 'f', 'f4', 'f4', 'f8', 'f8', 'f8', 'f8', 'f8')})")]),
 ("tracks filtered", "bug", [(T, "            tracks.append(track)\n\n    else", "            if len(track.data) > 1:\n                tracks.append(track)\n\n    else")]),
 ("id set on track", "bug", [(T, "        tvar.trackId = repr(t.trackId)", "        t.trackId = (n, 0)\n        tvar.trackId = repr(t.trackId)")]),
 ("scaled", "bug", [(T, "        times.units = timeunits", "        data['CentralPressure'] /= 100.\n        times.units = timeunits")]),
 ("rounded", "bug", [(T, "        times.units = timeunits", "        data['rMax'] = np.round(data['rMax'], 1)\n        times.units = timeunits")]),
 ("helper", "same", [(T, DATA, "        data = _encode(t.data, timeunits, calendar)\n        times[:] = data['Datetime']\n"), (T, "def ncSaveTracks(", "def _encode(records, units, cal):\n    out = np.array(records)\n    out['Datetime'] = date2num(out['Datetime'], units, cal)\n    return out\n\ndef ncSaveTracks(")]),
 ("reorder", "same", [(T, "        times.units = timeunits\n        times.calendar = calendar\n", "        times.calendar = calendar\n        times.units = timeunits\n")]),
 ("loop over columns", "same", [(T, LOOP, "            for f in TCRM_COLS:\n                if f != 'Datetime':\n                    newtd[f] = track_data[f]\n")]),
 ("continue form", "same", [(T, LOOP, "            for f in track_data.dtype.names:\n                if f == 'Datetime' or f not in track_dtype.names:\n                    continue\n                newtd[f] = track_data[f]\n")]),
 ("comprehension", "same", [(T, "        for i, (t, data) in enumerate(tgroup.items()):\n", "        for i, t in enumerate(tgroup):\n            data = tgroup[t]\n")]),
 ("values", "same", [(T, "        for i, (t, data) in enumerate(tgroup.items()):\n            log.debug(\"Loading data for {0}\".format(t))\n", "        for i, data in enumerate(tgroup.values()):\n")]),
 ("if nonempty", "same", [(T, "    if len(tracks) == 0:\n        log.info", "    if not len(tracks):\n        log.info")]),
 ("index loop", "same", [(T, "    for n, t in enumerate(tracks):\n        if len(t.data)", "    for n in range(len(tracks)):\n        t = tracks[n]\n        if len(t.data)")]),
 ("getncattr", "same", [(T, "data.variables['time'].units", "data.variables['time'].getncattr('units')")]),
 ("reader helper", "same", [(T, "            dtconversion = [datetime.strptime(d.strftime(), \"%Y-%m-%d %H:%M:%S\") for d in dt]\n            newtd['Datetime'] = dtconversion\n", "            newtd['Datetime'] = _plain(dt)\n"), (T, "def ncReadTrackData(", "def _plain(dates):\n    out = []\n    for d in dates:\n        out.append(datetime.strptime(d.strftime(), \"%Y-%m-%d %H:%M:%S\"))\n    return out\n\ndef ncReadTrackData(")]),
 ("deepcopy", "same", [(T, "data = t.data.copy()", "data = np.copy(t.data)")]),
 ("record view", "same", [(T, "        if len(t.data) == 0: # Empty track", "        if not t.data.size: # Empty track")]),
]
CASES += [
 ('gname', 'same', [('Utilities/track.py', 'tname = "tracks-{:04d}".format(n)', 'tname = "tracks-{:d}".format(n)')]),
 ('gname3', 'bug', [('Utilities/track.py', 'tname = "tracks-{:04d}".format(n)', 'tname = "tracks-{:04d}".format(n % 1000)')]),
 ('int-time', 'bug', [('Utilities/track.py', "track_dtype[dtidx] = ('Datetime', 'f8')", "track_dtype[dtidx] = ('Datetime', 'f4')")]),
 ('units-default', 'same', [('Utilities/track.py', '        tvar.time_units = timeunits\n', "        tvar.time_units = timeunits\n        timeunits = timeunits.replace('hours', 'days')\n")]),
 ('str-id', 'bug', [('Utilities/track.py', 'tvar.trackId = repr(t.trackId)', 'tvar.trackId = repr(tracks[0].trackId)')]),
 ('id-enum', 'bug', [('Utilities/track.py', '            if hasattr(data.variables[\'track\'], "trackId"):\n                track.trackId', '            if not hasattr(data.variables[\'track\'], "trackId"):\n                track.trackId')]),
 ('sorted-id', 'bug', [('Utilities/track.py', '    for n, t in enumerate(tracks):\n        if len(t.data) == 0: # Empty track', '    for n, t in enumerate(sorted(tracks, key=lambda x: x.trackId[1])):\n        if len(t.data) == 0: # Empty track')]),
 ('time-trunc', 'bug', [('Utilities/track.py', "for d in dt]\n            newtd['Datetime']", "for d in dt]\n            dtconversion = [d.replace(minute=0) for d in dtconversion]\n            newtd['Datetime']")]),
 ('nofirst', 'bug', [('Utilities/track.py', "            for f in track_data.dtype.names:\n                if f != 'Datetime' and", "            for f in track_data.dtype.names[1:]:\n                if f != 'Datetime' and")]),
 ('unmask', 'bug', [('Utilities/track.py', 'newtd[f] = track_data[f]', 'newtd[f] = np.nan_to_num(track_data[f])')]),
 ('single', 'bug', [('Utilities/track.py', 'dtt = num2date(dt[:], units, calendar)', 'dtt = num2date(dt[:], units)')]),
 ('single-id', 'bug', [('Utilities/track.py', '        track.trackId = eval(ncobj.trackId)\n', '        track.trackId = (1, 1)\n')]),
 ('descr-last', 'bug', [('Utilities/track.py', 'data = t.data.copy()', 'data = t.data')]),
 ('same-unit', 'same', [('Utilities/track.py', '        tvar[:] = data.astype(track_dtype)', '        converted = data.astype(track_dtype)\n        tvar[:] = converted')]),
]
CASES += [
 ('alias-new', 'bug', [('Utilities/track.py', '        ntracks = len(tgroup)\n        for i,', '        ntracks = len(tgroup)\n        newtd = None\n        for i,'), ('Utilities/track.py', '            newtd = np.zeros(len(track_data), dtype=track_dtype)\n            for f in track_data', '            if newtd is None or len(newtd) != len(track_data):\n                newtd = np.zeros(len(track_data), dtype=track_dtype)\n            for f in track_data')]),
 ('id-loop', 'bug', [('Utilities/track.py', '        tvar.trackId = repr(t.trackId)\n', '        tvar.trackId = repr((n + 1, t.trackId[1]))\n')]),
 ('skip-short', 'bug', [('Utilities/track.py', '        if len(t.data) == 0: # Empty track', '        if len(t.data) <= 1: # Empty track')]),
]
CASES += [
 ('dup-skip', 'bug', [('Utilities/track.py', '            tracks.append(track)\n\n    else:', '            if len(track.data) > 1:\n                tracks.append(track)\n\n    else:')]),
 ('names-first', 'bug', [('Utilities/track.py', "                if f != 'Datetime' and f in track_dtype.names:\n                    newtd[f] = track_data[f]", "                if f not in ('Datetime', 'EnvPressure') and f in track_dtype.names:\n                    newtd[f] = track_data[f]")]),
 ('f4-time', 'bug', [('Utilities/track.py', "    track_dtype[dtidx] = ('Datetime', 'f8')", "    track_dtype[dtidx] = ('Datetime', 'f4')")]),
 ('time-nocopy', 'bug', [('Utilities/track.py', '        data = t.data.copy()\n', '        data = t.data\n')]),
 ('sim-skip-first', 'bug', [('Utilities/track.py', '        if len(t.data) == 0: # Empty track\n', '        if len(t.data) <= 1: # Empty track\n')]),
 ('id-shift', 'bug', [('Utilities/track.py', '        tvar.trackId = repr(t.trackId)\n', '        tvar.trackId = repr((n, len(tracks)))\n')]),
]
