D = "database/__init__.py"
F = "database/definitions.py"
Q = "database/queries.py"
CASES = [
    ("unchanged", "same", []),
    ("bytes in text columns", "bug", [(D, """    trackfile = os.path.basename(trackfile)
""", """    trackfile = os.path.basename(trackfile).encode()
""")]),
    ("wind and pressure swapped", "bug", [(D, "trackfile, float(maxwind), float(minslp),",
        "trackfile, float(minslp), float(maxwind),")]),
    ("attributes returned in another order", "bug", [(D, "return (trackfile, trackfiledate, tcrm_vers, minslp, maxwind)",
        "return (trackfile, trackfiledate, tcrm_vers, maxwind, minslp)")]),
    ("minimum of the range", "bug", [(D, "maxwind = getattr(vmaxobj, 'actual_range')[1]",
        "maxwind = getattr(vmaxobj, 'actual_range')[0]")]),
    ("components swapped in loader", "bug", [(D, "return (lon, lat, vmax, ua, va, pmin)",
        "return (lon, lat, vmax, va, ua, pmin)")]),
    ("row and column swapped", "bug", [(D, "locVm = vmax[j, i]", "locVm = vmax[i, j]")]),
    ("latitude index from longitude", "bug", [(D, """            j = find_index(lat, locLat)
            locVm""", """            j = find_index(lat, locLon)
            locVm""")]),
    ("indices of the previous location", "bug", [(D, """            i = find_index(lon, locLon)
            j = find_index(lat, locLat)
            locVm""", """            i = find_index(lon, locations[0][2])
            j = find_index(lat, locations[0][3])
            locVm""")]),
    ("upper and lower swapped", "bug", [(D, """float(locUpper),
                             float(locLower),""", """float(locLower),
                             float(locUpper),""")]),
    ("first return period", "bug", [(D, "locLower = wspdLower[k, j, i]", "locLower = wspdLower[0, j, i]")]),
    ("rank of the year", "bug", [(D, "locParams = (locId, int(year), float(locWspd)", "locParams = (locId, k, float(locWspd)")]),
    ("scale and shape", "bug", [(D, "scaleParam = ncobj.variables['scale'][:]", "scaleParam = ncobj.variables['shp'][:]")]),
    ("points with latitude first", "bug", [(D, "points = [Point(loc[2], loc[3]) for loc in locations]",
        "points = [Point(loc[3], loc[2]) for loc in locations]")]),
    ("distances of sorted locations", "bug", [(D, "for (loc, dist) in zip(locations, distances):",
        "for (loc, dist) in zip(locations, distances[::-1]):")]),
    ("event id format of tracks", "bug", [(D, '''"%03d-%05d"%(track.trackId)''', '''"%03d-%06d"%(track.trackId)''')]),
    ("event id reversed", "bug", [(D, '''(int(sim), int(num))''', '''(int(num), int(sim))''')]),
    ("a placeholder too few", "bug", [(F, '''INSTRACK = "INSERT INTO tblTracks VALUES (?,?,?,?,?,?,?)"''',
        '''INSTRACK = "INSERT INTO tblTracks VALUES (?,?,?,?,?,?)"''')]),
    ("named columns in another order", "bug", [(F, '''INSERT INTO tblWindSpeed "
                "VALUES''', '''INSERT INTO tblWindSpeed (locId, eventId, wspd, vmax, umax, pmin, Comments, dtCreated) "
                "VALUES''')]),
    ("table columns in another order", "bug", [(F, 'umax real, "\n                   "vmax real', 'vmax real, "\n                   "umax real')]),
    ("domain parameters", "bug", [(D, """(self.domain['xMin'],
                                             self.domain['xMax'],
                                             self.domain['yMin'],
""", """(self.domain['xMin'],
                                             self.domain['yMin'],
                                             self.domain['xMax'],
""")]),
    ("query parameters swapped", "bug", [(Q, "cur = hazard_db.execute(query, (windSpeed, locId,))",
        "cur = hazard_db.execute(query, (locId, windSpeed,))")]),
    ("result names swapped", "bug", [(Q, "names=('locId,locName,wspd,umax,vmax,eventId'))",
        "names=('locId,locName,wspd,vmax,umax,eventId'))")]),
    ("join without location", "bug", [(Q, '''"INNER JOIN tblLocations l "
             "ON w.locId = l.locId "
             "WHERE l.locId = ? ORDER''', '''"INNER JOIN tblLocations l "
             "WHERE l.locId = ? ORDER''')]),
    ("hazard position columns", "bug", [(D, """    locations = self.getLocations()
        hazardFile""", """    locations = [(a, b, d, c) for a, b, c, d in self.getLocations()]
        hazardFile""")]),
    ("nearest is farthest", "bug", [("Utilities/maputils.py", "idx = (abs(array - value)).argmin()",
        "idx = (array - value).argmin()"), ]),
    ("locations sent in reverse", "same", [(D, "comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log.debug(\"Processing {0} (",
        "comm.send((fileList[w], locations[::-1], w),\n                              dest=d, tag=work_tag)\n                    log.debug(\"Processing {0} (")]),
    ("return level is the location", "bug", [(Q, "return_level = row[0][1]", "return_level = row[0][0]")]),
    # same behaviour
    ("named columns", "same", [(F, '''INSERT INTO tblWindSpeed "
                "VALUES''', '''INSERT INTO tblWindSpeed (locId, eventId, wspd, umax, vmax, pmin, Comments, dtCreated) "
                "VALUES''')]),
    ("record from a helper", "same", [(D, """            locParams = (int(locId), eventId, float(locVm), float(locUa),
                         float(locVa), float(locPr), " ", datetime.now())
            wsparams.append(locParams)
""", """            wsparams.append(windRecord(locId, eventId, locVm, locUa, locVa, locPr))
"""), (D, "def loadWindfieldFile(ncobj):", '''def windRecord(locId, eventId, *values):
    """
    Record for _tblWindSpeed_
    """
    v, u, w, p = [float(x) for x in values]
    return (int(locId), eventId, v, u, w, p, " ", datetime.now())

def loadWindfieldFile(ncobj):''')]),
    ("indices from a helper", "same", [(D, """                i = find_index(lon, locLon)
                j = find_index(lat, locLat)
                locWspd = wspd[k, j, i]""", """                idx = (find_index(lat, locLat), find_index(lon, locLon))
                j, i = idx
                locWspd = wspd[k][j, i]""")]),
    ("comprehension", "same", [(D, """        for (loc, dist) in zip(locations, distances):
            locRecs = (loc[0], "%03d-%05d"%(track.trackId),
                       dist, None, None, "", datetime.now())

            records.append(locRecs)
""", """        eventId = "{0:03d}-{1:05d}".format(*track.trackId)
        records.extend([(loc[0], eventId, dist, None, None, "", datetime.now())
                        for (loc, dist) in zip(locations, distances)])
""")]),
    ("loop over locations outside", "same", [(D, """        for k, year in enumerate(years):
            for loc in locations:
                locId, locName, locLon, locLat = loc
""", """        for loc in locations:
            for k, year in enumerate(years):
                locId, locName, locLon, locLat = loc
""")]),
    ("extra column selected", "same", [(Q, '''"SELECT l.locId, l.locName, w.wspd, w.eventId "''',
        '''"SELECT l.locId, l.locName, w.wspd, w.eventId, w.pmin "'''), (Q, "names=('locId,locName,wspd,eventId'))",
        "names=('locId,locName,wspd,eventId,pmin'))")]),
    ("join condition reordered", "same", [(Q, '''"ON l.locId = t.locId "
             "JOIN tblWindSpeed w''', '''"ON t.locId = l.locId "
             "INNER JOIN tblWindSpeed AS w''')]),
    ("key in the where clause", "same", [(Q, '''"ON w.locId = l.locId "
             "WHERE l.locId = ? ORDER''', '''"WHERE w.locId = l.locId AND l.locId = ? ORDER''')]),
    ("insert statement in f-string", "same", [(F, '''INSTRACK = "INSERT INTO tblTracks VALUES (?,?,?,?,?,?,?)"''',
        '''INSTRACK = "INSERT INTO tblTracks VALUES ({0})".format(",".join(["?"] * 7))''')]),
]
CASES += [
 ('eventid-parse', 'bug', [('database/__init__.py', '        sim, num = pattern.findall(filename)\n', '        num, sim = pattern.findall(filename)\n')]),
 ('idx-flip', 'bug', [('database/__init__.py', '            j = find_index(lat, locLat)\n            locVm = vmax[j, i]', '            j = find_index(lat[::-1], locLat)\n            locVm = vmax[j, i]')]),
 ('abs', 'bug', [('database/__init__.py', 'float(locVm), float(locUa),\n                         float(locVa)', 'float(locVm), abs(float(locUa)),\n                         float(locVa)')]),
 ('round', 'bug', [('database/__init__.py', 'locParams = (locId, int(year), float(locWspd)', 'locParams = (locId, int(year), round(float(locWspd))')]),
 ('k1', 'bug', [('database/__init__.py', 'for k, year in enumerate(years):', 'for k, year in enumerate(years[1:]):')]),
 ('params-in-loop', 'bug', [('database/__init__.py', '        for k, year in enumerate(years):\n            for loc in locations:', '        for k, year in enumerate(years):\n            params = []\n            for loc in locations:')]),
 ('mins', 'bug', [('database/__init__.py', "minslp = getattr(slpobj, 'actual_range')[0]", "minslp = getattr(slpobj, 'actual_range')[1]")]),
 ('slpvar', 'bug', [('database/__init__.py', "pmin = ncobj.variables['slp'][:]", "pmin = ncobj.variables['vmax'][:]")]),
 ('trackdate', 'bug', [('database/__init__.py', '                       dtTrackFile, dtWindfieldFile, tcrm_version,\n                       "", datetime.now())\n', '                       dtWindfieldFile, dtTrackFile, tcrm_version,\n                       "", datetime.now())\n')]),
 ('join-e', 'bug', [('database/queries.py', '"JOIN tblEvents e ON e.eventId = w.eventId "\n             "JOIN tblTracks t ON w.locId = t.locId AND w.eventId = t.eventId "', '"JOIN tblEvents e ON e.eventId = w.eventId "\n             "JOIN tblTracks t ON w.locId = t.locId "')]),
 ('join-l', 'bug', [('database/queries.py', '"INNER JOIN tblLocations l "\n             "ON w.locId = l.locId "\n             "WHERE l.locId = ? ORDER BY w.wspd ASC"', '"INNER JOIN tblLocations l "\n             "WHERE l.locId = ? ORDER BY w.wspd ASC"')]),
 ('where', 'bug', [('database/queries.py', '"WHERE w.wspd > ? and l.locId = ? "', '"WHERE w.wspd > ? or l.locId = ? "')]),
 ('ge', 'bug', [('database/queries.py', '"WHERE w.wspd > ? and l.locId = ? "', '"WHERE w.wspd < ? and l.locId = ? "')]),
 ('zip', 'bug', [('database/__init__.py', 'for (loc, dist) in zip(locations, distances):', 'for (loc, dist) in zip(locations, sorted(distances)):')]),
 ('once', 'bug', [('database/__init__.py', '        distances = track.minimumDistance(points)\n', '        if track is tracks[0]:\n            distances = track.minimumDistance(points)\n')]),
 ('modelname', 'bug', [('database/definitions.py', '"(locId integer, eventId text, wspd real, umax real, "\n                   "vmax real, pmin real, Comments text, "', '"(locId integer, eventId text, wspd real, vmax real, "\n                   "umax real, pmin real, Comments text, "')]),
 ('ignore', 'same', [('database/definitions.py', 'INSEVENTS = "INSERT INTO', 'INSEVENTS = "INSERT OR IGNORE INTO')]),
 ('num', 'bug', [('database/__init__.py', 'eventparams = ("%06d"%eventNum,', 'eventparams = ("%06d"%int(num),')]),
 ('same1', 'same', [('database/__init__.py', '            locVm = vmax[j, i]\n            locUa = ua[j, i]', '            locUa = ua[j][i]\n            locVm = vmax[j][i]')]),
]
CASES += [
 ('mask-zero', 'bug', [('database/__init__.py', "    vmax = ncobj.variables['vmax'][:]\n    ua = ncobj.variables['ua'][:]\n", "    vmax = ncobj.variables['vmax'][::-1]\n    ua = ncobj.variables['ua'][:]\n")]),
]
CASES += [
 ('loc-dom', 'bug', [('database/__init__.py', "(self.domain['xMin'],\n                                             self.domain['xMax'],\n                                             self.domain['yMin'],", "(self.domain['xMin'],\n                                             self.domain['yMin'],\n                                             self.domain['xMax'],")]),
 ('year-k', 'bug', [('database/__init__.py', '        for k, year in enumerate(years):\n            for loc in locations:', '        for k, year in enumerate(sorted(years, reverse=True)):\n            for loc in locations:')]),
 ('ev-bytes', 'bug', [('database/__init__.py', 'sim, num = pattern.findall(filename)\n        eventId = "%03d-%05d" % (int(sim), int(num))\n        log.debug("Event', 'sim, num = pattern.findall(filename)\n        eventId = "%05d-%03d" % (int(num), int(sim))\n        log.debug("Event')]),
]
CASES += [
 ('haz-years', 'bug', [('database/__init__.py', '                locParams = (locId, int(year), float(locWspd), float(locUpper),\n                             float(locLower),', '                locParams = (locId, int(year), float(locWspd), float(locLower),\n                             float(locUpper),')]),
 ('haz-param0', 'bug', [('database/__init__.py', '                locLoc = locationParam[j, i]\n', '                locLoc = locationParam[i, j]\n')]),
 ('haz-findlat', 'bug', [('database/__init__.py', '                j = find_index(lat, locLat)\n                locWspd', '                j = find_index(lat, abs(locLat))\n                locWspd')]),
]
