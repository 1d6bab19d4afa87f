H = "hazard/__init__.py"
D = "database/__init__.py"
W = "wind/__init__.py"
T = "TrackGenerator/TrackGenerator.py"
CASES = [
 ("w-skips", "bug", [(H, "            terminated = 0\n            while(terminated < p):", "            terminated = 0\n            w += 1\n            while(terminated < p):")]),
 ("w-not-raised", "bug", [(D, "                              format(w, len(fileList)))\n                    w += 1\n                else:\n                    comm.send(None, dest=d, tag=work_tag)\n                    terminated += 1\n", "                              format(w, len(fileList)))\n                else:\n                    comm.send(None, dest=d, tag=work_tag)\n                    terminated += 1\n")]),
 ("again", "bug", [(D, "                    comm.send((trackfiles[w], locations),\n                              dest=d, tag=work_tag)\n                    log.info(\"Processing {0}\".format(trackfiles[w]))\n                    log.debug(\"Processing track {0:d} of {1:d}\".\\\n                              format(w, len(trackfiles)))\n                    w += 1\n                else:\n                    comm.send(None, dest=d, tag=work_tag)\n                    terminated", "                    comm.send((trackfiles[w - 1], locations),\n                              dest=d, tag=work_tag)\n                    log.info(\"Processing {0}\".format(trackfiles[w]))\n                    log.debug(\"Processing track {0:d} of {1:d}\".\\\n                              format(w, len(trackfiles)))\n                    w += 1\n                else:\n                    comm.send(None, dest=d, tag=work_tag)\n                    terminated")]),
 ("len-1", "bug", [(H, "                if w < len(tiles):\n                    comm.send(tiles[w], dest=d, tag=status.tag)", "                if w < len(tiles) - 1:\n                    comm.send(tiles[w], dest=d, tag=status.tag)")]),
 ("drop-result", "bug", [(D, "                self.insertEvents(eventparams)\n                self.insertWindSpeeds(wsparams)\n                log.debug(\"Done", "                self.insertEvents(eventparams)\n                log.debug(\"Done")]),
 ("swap-shape", "bug", [(H, "                self.loc[ymin:ymax, xmin:xmax] = loc\n                self.scale[ymin:ymax, xmin:xmax] = scale\n                self.shp[ymin:ymax, xmin:xmax] = shp\n                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]\n\n                if self.calcCI:\n                    self.RPupper[:, ymin:ymax, xmin:xmax] = RPupper[:, :, :]\n                    self.RPlower[:, ymin:ymax, xmin:xmax] = RPlower[:, :, :]\n\n                d =", "                self.loc[ymin:ymax, xmin:xmax] = loc\n                self.scale[ymin:ymax, xmin:xmax] = shp\n                self.shp[ymin:ymax, xmin:xmax] = scale\n                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]\n\n                if self.calcCI:\n                    self.RPupper[:, ymin:ymax, xmin:xmax] = RPupper[:, :, :]\n                    self.RPlower[:, ymin:ymax, xmin:xmax] = RPlower[:, :, :]\n\n                d =")]),
 ("event-number", "bug", [(D, "                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log.debug(\"Processing file", "                    comm.send((fileList[w], locations, w + 1),\n                              dest=d, tag=work_tag)\n                    log.debug(\"Processing file")]),
 ("serial-skip", "bug", [(H, "            for i, tile in enumerate(tiles):\n", "            for i, tile in enumerate(tiles[1:]):\n")]),
 ("islice-step", "bug", [(T, "    return itertools.islice(iterable, p, None, P)\n", "    return itertools.islice(iterable, p, None, P + 1)\n")]),
 ("islice-wind", "bug", [(W, "    return itertools.islice(iterable, p, None, P)\n", "    return itertools.islice(iterable, p + 1, None, P)\n")]),
 ("block", "bug", [(W, "        for f in balanced(trackfiles):\n", "        n = len(trackfiles) // MPI.COMM_WORLD.size\n        for f in trackfiles[MPI.COMM_WORLD.rank * n:(MPI.COMM_WORLD.rank + 1) * n]:\n")]),
 ("twice", "bug", [(W, "            for track in tracks:\n                yield track\n", "            for track in balanced(tracks):\n                yield track\n")]),
 ("single-all", "bug", [(W, "        for track in balanced(tracks):\n", "        for track in tracks:\n")]),
 ("two-files", "bug", [(W, "    if len(trackfiles) > 1:\n", "    if len(trackfiles) > 2:\n")]),
 ("unsorted", "bug", [(W, "loadTracksFromFiles(sorted(trackfiles), self", "loadTracksFromFiles(trackfiles, self")]),
 ("sims-short", "bug", [(T, "    nSimulations = config.getint('TrackGenerator', 'NumSimulations')\n", "    nSimulations = config.getint('TrackGenerator', 'NumSimulations') - 1\n")]),
 ("save-if", "bug", [(W, "            gust, bearing, Vx, Vy, P, lon, lat = result\n\n            plotfile", "            gust, bearing, Vx, Vy, P, lon, lat = result\n            if gust.max() < 17.:\n                continue\n\n            plotfile")]),
 ("break-on-complete", "bug", [(W, "                         .format(*track.trackId))\n                continue\n", "                         .format(*track.trackId))\n                break\n")]),
 ("tracks-filter", "bug", [(D, "for f in files if f.startswith('tracks')]", "for f in files if f.startswith('tracks.0000')]")]),
 ("gust-filter", "bug", [(D, "                    os.path.isfile(pjoin(self.windfieldPath, f))]\n\n        work", "                    f.endswith('.nc4')]\n\n        work")]),
 ("gust-ok-filter", "same", [(D, "                    os.path.isfile(pjoin(self.windfieldPath, f))]\n\n        work", "                    f.startswith('gust') and f.endswith('.nc')]\n\n        work")]),
 ("slice-form", "same", [(W, "        for f in balanced(trackfiles):\n", "        for f in trackfiles[MPI.COMM_WORLD.rank::MPI.COMM_WORLD.size]:\n")]),
 ("range-form", "same", [(W, "        for f in balanced(trackfiles):\n", "        for i in range(MPI.COMM_WORLD.rank, len(trackfiles), MPI.COMM_WORLD.size):\n            f = trackfiles[i]\n")]),
 ("mod-form", "same", [(W, "        for f in balanced(trackfiles):\n", "        for i, f in enumerate(trackfiles):\n            if i % MPI.COMM_WORLD.size != MPI.COMM_WORLD.rank:\n                continue\n")]),
 ("yield-from", "same", [(W, "            for track in tracks:\n                yield track\n", "            yield from tracks\n")]),
 ("sims-range", "same", [(T, "    for sim in balanced(sims):\n", "    for j in range(MPI.COMM_WORLD.rank, len(sims), MPI.COMM_WORLD.size):\n        sim = sims[j]\n")]),
 ("result-helper", "same", [(D, "                eventparams, wsparams = result\n                self.insertEvents(eventparams)\n                self.insertWindSpeeds(wsparams)\n                log.debug(\"Done", "                self.insertEvents(result[0])\n                self.insertWindSpeeds(result[1])\n                log.debug(\"Done")]),
 ("empty-check", "same", [(D, "                if result is not None:\n                    self.insertTracks(result)", "                if result:\n                    self.insertTracks(result)")]),
]
CASES += [
 ('hz-start1', 'bug', [('hazard/__init__.py', '            w = 0\n            p = comm.size - 1', '            w = 1\n            p = comm.size - 1')]),
 ('hz-resend', 'bug', [('hazard/__init__.py', '                    comm.send(tiles[w], dest=d, tag=status.tag)\n                    log.debug("Processing tile %d of %d" % (w, len(tiles)))\n                    w += 1', '                    w += 1\n                    comm.send(tiles[w - 1], dest=d, tag=status.tag)\n                    w -= 1\n                    log.debug("Processing tile %d of %d" % (w, len(tiles)))')]),
 ('db-last', 'bug', [('database/__init__.py', '                if w < len(fileList):\n                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log.debug("Processing file', '                if w < len(fileList) - 1:\n                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log.debug("Processing file')]),
 ('islice', 'bug', [('wind/__init__.py', 'itertools.islice(iterable, p, None, P)', 'itertools.islice(iterable, p, None, max(P - 1, 1))')]),
 ('contig', 'bug', [('wind/__init__.py', '    return itertools.islice(iterable, p, None, P)', '    items = list(iterable)\n    n = len(items) // P\n    return iter(items[p * n:(p + 1) * n])')]),
 ('contig-ok', 'same', [('wind/__init__.py', '    return itertools.islice(iterable, p, None, P)', '    items = list(iterable)\n    return iter(items[p::P])')]),
 ('tracks-skip', 'bug', [('database/__init__.py', '                if result:\n                    log.info(f"Inserting', '                if result and d > 1:\n                    log.info(f"Inserting')]),
 ('double', 'bug', [('database/__init__.py', '                result = self.processEvent(filename, locations, eventNum)\n                eventparams, wsparams = result\n                self.insertEvents(eventparams)\n', '                result = self.processEvent(filename, locations, eventNum)\n                eventparams, wsparams = result\n                self.insertEvents(eventparams)\n                self.insertEvents(eventparams)\n')]),
]
CASES += [
 ('set-files', 'bug', [('database/__init__.py', '                    self.insertTracks(result)\n\n                if w < len(trackfiles):', '                    self.insertTracks(result)\n                    w += 0 if len(result) else 1\n\n                if w < len(trackfiles):')]),
 ('result-falsy', 'bug', [('hazard/__init__.py', '                self.loc[ymin:ymax, xmin:xmax] = loc\n                self.scale[ymin:ymax, xmin:xmax] = scale\n                self.shp[ymin:ymax, xmin:xmax] = shp\n                self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]\n\n                if self.calcCI:', '                if terminated == 0:\n                    self.loc[ymin:ymax, xmin:xmax] = loc\n                    self.scale[ymin:ymax, xmin:xmax] = scale\n                    self.shp[ymin:ymax, xmin:xmax] = shp\n                    self.Rp[:, ymin:ymax, xmin:xmax] = Rp[:, :, :]\n\n                if self.calcCI:')]),
]
CASES += [
 ('balanced-first', 'bug', [('TrackGenerator/TrackGenerator.py', 'return itertools.islice(iterable, p, None, P)', 'return itertools.islice(iterable, p, len(iterable) - len(iterable) % P if P > 2 else None, P)')]),
 ('sims-n0', 'bug', [('TrackGenerator/TrackGenerator.py', '        sims.append(Simulation(i, trackSeed, jumpAhead[i], n,\n                               trackFilename % i))', '        if n > 0:\n            sims.append(Simulation(i, trackSeed, jumpAhead[i], n,\n                                   trackFilename % i))')]),
]
CASES += [
 ('skip-break3', 'bug', [('wind/__init__.py', '                         .format(*track.trackId))\n                continue', '                         .format(*track.trackId))\n                return')]),
 ('worker-return3', 'same', [('hazard/__init__.py', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    break', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    return')]),
 ('w-shift', 'bug', [('database/__init__.py', '                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log.debug("Processing file', '                    comm.send((fileList[w], locations, w + 1),\n                              dest=d, tag=work_tag)\n                    log.debug("Processing file')]),
]
CASES += [
 ('serial-off', 'bug', [('hazard/__init__.py', '                result = self.calculateHazard(tile)\n', '                result = self.calculateHazard(tiles[max(i - 1, 0)])\n')]),
 ('files-gust0', 'bug', [('database/__init__.py', "        fileList = [f for f in fileList if f.startswith('gust.') and\n                    os.path.isfile(pjoin(self.windfieldPath, f))]\n\n        work_tag", "        fileList = [f for f in fileList if f.startswith('gust.0') and\n                    os.path.isfile(pjoin(self.windfieldPath, f))]\n\n        work_tag")]),
 ('trk-res-last', 'bug', [('database/__init__.py', '                if result:\n                    log.info(f"Inserting results into tblTracks', '                if result and w < len(trackfiles):\n                    log.info(f"Inserting results into tblTracks')]),
]
