H = "hazard/__init__.py"
D = "database/__init__.py"
CASES = [
 ("p-not-set", "bug", [(H, "                    p = w\n", "                    pass\n")]),
 ("p-dec", "same", [(H, "                    p = w\n", "                    p -= 1\n")]),
 ("no-stop-initial", "bug", [(H, "                    comm.send(None, dest=d, tag=work_tag)\n                    p = w\n", "                    p = w\n")]),
 ("stop-tag", "bug", [(H, "                    comm.send(None, dest=d, tag=status.tag)\n", "                    comm.send(None, dest=d, tag=result_tag)\n")]),
 ("worker-tag", "bug", [(H, "                comm.send(results, dest=0, tag=status.tag)\n", "                comm.send(results, dest=0, tag=result_tag)\n")]),
 ("terminated-always", "bug", [(H, "                    comm.send(None, dest=d, tag=status.tag)\n                    terminated += 1\n", "                    comm.send(None, dest=d, tag=status.tag)\n                terminated += 1\n")]),
 ("range", "bug", [(H, "            for d in range(1, comm.size):\n", "            for d in range(1, comm.size - 1):\n")]),
 ("le", "bug", [(H, "            while(terminated < p):", "            while(terminated <= p):")]),
 ("stale-source", "bug", [(D, "                d = status.source\n                if result:\n                    log.info(f\"Ins", "                if result:\n                    log.info(f\"Ins")]),
 ("source-order", "bug", [(H, "                d = status.source\n", ""), (H, "                result = comm.recv(source=MPI.ANY_SOURCE, status=status, tag=MPI.ANY_TAG)\n", "                d = status.source\n                result = comm.recv(source=MPI.ANY_SOURCE, status=status, tag=MPI.ANY_TAG)\n")]),
 ("lt", "bug", [(D, "                if w < len(fileList):\n                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log", "                if w <= len(fileList):\n                    comm.send((fileList[w], locations, w),\n                              dest=d, tag=work_tag)\n                    log")]),
 ("skip-barrier", "bug", [(D, "    comm.barrier()\n    db.processTracks()\n", "    if comm.rank > 0:\n        comm.barrier()\n    db.processTracks()\n")]),
 ("no-barrier", "same", [(D, "    #db.close()\n    comm.barrier()\n", "    #db.close()\n")]),
 ("rank-guard", "bug", [(D, "    db.processEvents()\n", "    if comm.rank == 0:\n        db.processEvents()\n")]),
 ("early-return", "bug", [("wind/__init__.py", "    wfg.dumpGustsFromTrackfiles(trackfiles, windfieldPath, timestepCallback)\n", "    if comm.rank >= nfiles:\n        return\n    wfg.dumpGustsFromTrackfiles(trackfiles, windfieldPath, timestepCallback)\n")]),
 ("tg-return", "bug", [("TrackGenerator/TrackGenerator.py", "    N = sims[-1].index\n", "    N = sims[-1].index\n    if comm.rank > N:\n        return\n")]),
 ("main-gate", "bug", [("tcrm.py", "    if config.getboolean('Actions', 'ExecuteStat'):\n        doStatistics(configFile)\n\n    comm.barrier()\n", "    if config.getboolean('Actions', 'ExecuteStat'):\n        doStatistics(configFile)\n\n    if comm.rank == 0:\n        comm.barrier()\n")]),
 ("worker-break-late", "bug", [(D, "                if work_pack is None:\n                    break\n\n                results = processTrack", "                if not work_pack[0]:\n                    break\n\n                results = processTrack")]),
 ("helper", "same", [(H, "                    comm.send(tiles[w], dest=d, tag=work_tag)\n", "                    self._give(tiles[w], d, work_tag)\n"),
     (H, "    def dumpHazardFromTiles(self", "    def _give(self, what, to, tag):\n        comm.send(what, dest=to, tag=tag)\n\n    def dumpHazardFromTiles(self")]),
 ("while-form", "same", [(H, "            for d in range(1, comm.size):\n                if w < len(tiles):\n                    comm.send(tiles[w], dest=d, tag=work_tag)\n                    log.debug(\"Processing tile %d of %d\" % (w, len(tiles)))\n                    w += 1\n                else:\n                    comm.send(None, dest=d, tag=work_tag)\n                    p = w\n",
   "            d = 1\n            while d < comm.size:\n                if w >= len(tiles):\n                    comm.send(None, dest=d, tag=work_tag)\n                    p = w\n                else:\n                    comm.send(tiles[w], dest=d, tag=work_tag)\n                    w += 1\n                d += 1\n")]),
 ("outstanding", "same", [(H, "            while(terminated < p):\n", "            busy = p\n            while busy > 0:\n"), (H, "                    terminated += 1\n\n", "                    busy -= 1\n                    terminated += 1\n\n")]),
 ("next-item", "same", [(H, "                if w < len(tiles):\n                    comm.send(tiles[w], dest=d, tag=status.tag)\n                    log.debug(\"Processing tile %d of %d\" % (w, len(tiles)))\n                    w += 1\n                else:\n                    comm.send(None, dest=d, tag=status.tag)\n                    terminated += 1\n",
   "                work = tiles[w] if w < len(tiles) else None\n                comm.send(work, dest=d, tag=status.tag)\n                if work is None:\n                    terminated += 1\n                else:\n                    w += 1\n")]),
]
CASES += [
 ('hz-p-nofew', 'bug', [('hazard/__init__.py', '                    comm.send(None, dest=d, tag=work_tag)\n                    p = w\n', '                    comm.send(None, dest=d, tag=work_tag)\n')]),
 ('hz-notold', 'bug', [('hazard/__init__.py', '                else:\n                    comm.send(None, dest=d, tag=status.tag)\n                    terminated += 1', '                else:\n                    terminated += 1')]),
 ('hz-extra-stop', 'bug', [('hazard/__init__.py', '                    comm.send(None, dest=d, tag=work_tag)\n                    p = w\n', '                    comm.send(None, dest=d, tag=work_tag)\n                    p = w - 1\n')]),
 ('db-tag', 'bug', [('database/__init__.py', '                comm.send(results, dest=0, tag=result_tag)\n\n        elif comm.size == 1 and comm.rank == 0:\n            # Assume', '                comm.send(results, dest=0, tag=result_tag)\n                comm.recv(source=0, tag=result_tag)\n\n        elif comm.size == 1 and comm.rank == 0:\n            # Assume')]),
 ('trk-none-nosend', 'bug', [('database/__init__.py', '                results = processTrack(*work_pack)\n                comm.send(results, dest=0, tag=result_tag)', '                results = processTrack(*work_pack)\n                if results:\n                    comm.send(results, dest=0, tag=result_tag)')]),
 ('barrier-rank', 'bug', [('hazard/__init__.py', '    log.debug("Finished hazard calculations")\n    comm.barrier()', '    log.debug("Finished hazard calculations")\n    if hc.tilegrid.num_tiles > comm.rank:\n        comm.barrier()')]),
 ('range-size', 'bug', [('database/__init__.py', '            for d in range(1, comm.size):\n                if w < len(trackfiles):', '            for d in range(1, min(comm.size, len(trackfiles) + 1)):\n                if w < len(trackfiles):')]),
 ('worker-early', 'bug', [('database/__init__.py', '                if work_pack is None:\n                    break\n\n                results = processTrack', '                if work_pack is None or not work_pack[1]:\n                    break\n\n                results = processTrack')]),
 ('same-while', 'same', [('hazard/__init__.py', '            while(terminated < p):', '            while terminated != p:')]),
 ('same-helper', 'same', [('database/__init__.py', '            for d in range(1, comm.size):\n                if w < len(trackfiles):', '            workers = range(1, comm.size)\n            for d in workers:\n                if w < len(trackfiles):')]),
 ('same-notnone', 'same', [('database/__init__.py', '                results = processTrack(*work_pack)\n                comm.send(results, dest=0, tag=result_tag)', '                results = processTrack(*work_pack)\n                if results is not None:\n                    comm.send(results, dest=0, tag=result_tag)')]),
]
CASES += [
 ('worker-except', 'bug', [('database/__init__.py', '                results = processTrack(*work_pack)\n                comm.send(results, dest=0, tag=result_tag)\n', '                try:\n                    results = processTrack(*work_pack)\n                except IOError:\n                    log.exception("Cannot process track file")\n                    continue\n                comm.send(results, dest=0, tag=result_tag)\n')]),
 ('ack-twice', 'bug', [('hazard/__init__.py', '                results = self.calculateHazard(W)\n                comm.send(results, dest=0, tag=status.tag)\n', '                results = self.calculateHazard(W)\n                comm.send(results, dest=0, tag=status.tag)\n                if self.calcCI:\n                    comm.send(results, dest=0, tag=result_tag)\n')]),
 ('tag-result', 'bug', [('hazard/__init__.py', '                comm.send(results, dest=0, tag=status.tag)', '                comm.send(results, dest=0, tag=result_tag)')]),
]
CASES += [
 ('ev-any', 'bug', [('database/__init__.py', '                eventparams, wsparams = result\n                self.insertEvents(eventparams)\n                self.insertWindSpeeds(wsparams)\n                log.debug("Done', '                eventparams, wsparams = result\n                if not wsparams:\n                    continue\n                self.insertEvents(eventparams)\n                self.insertWindSpeeds(wsparams)\n                log.debug("Done')]),
 ('haz-none', 'bug', [('hazard/__init__.py', '                results = self.calculateHazard(W)\n                comm.send(results, dest=0, tag=status.tag)', '                results = self.calculateHazard(W)\n                if np.all(results[1] == self.nodata):\n                    continue\n                comm.send(results, dest=0, tag=status.tag)')]),
]
CASES += [
 ('worker-return', 'same', [('hazard/__init__.py', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    break', '                    log.debug("No work to be done on this processor: {0}".format(comm.rank))\n                    return')]),
]
CASES += [
 ('hz-tag-1', 'bug', [('hazard/__init__.py', '                comm.send(results, dest=0, tag=status.tag)\n', '                comm.send(results, dest=0, tag=result_tag)\n')]),
]
