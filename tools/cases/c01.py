TG = "TrackGenerator/TrackGenerator.py"
RND = "Utilities/tcrandom.py"
CASES = [
    ("seed-falsy", "bug", [(TG, "        if sim.seed is not None:", "        if sim.seed:")]),
    ("season-falsy", "bug", [(TG, "    if seasonSeed is not None:", "    if seasonSeed:")]),
    ("stream-rank", "bug", [(TG, "stream=sim.index)", "stream=comm.rank)")]),
    ("stream-const", "bug", [(TG, "stream=sim.index)", "stream=0)")]),
    ("no-rebuild", "bug", [(TG, "            PRNG = random.Random(seed=sim.seed, stream=sim.index)\n", "            if PRNG is None:\n                PRNG = random.Random(seed=sim.seed, stream=sim.index)\n"),
                           (TG, "PRNG = random.Random(seed=1234, stream=0)", "PRNG = None")]),
    ("hoisted", "bug", [(TG, "            global PRNG #TODO: explicitly-pass rather than mutate global state\n            PRNG = random.Random(seed=sim.seed, stream=sim.index)\n", "            pass\n"),
        (TG, "    log.info('Loading track generation settings')\n", "    log.info('Loading track generation settings')\n    global PRNG\n"),
        (TG, "    for sim in balanced(sims):\n", "    PRNG = random.Random(seed=trackSeed, stream=comm.rank)\n    for sim in balanced(sims):\n")]),
    ("global-normal", "bug", [(TG, "    return PRNG.normalvariate(mean, stddev)", "    return np.random.normal(mean, stddev)")]),
    ("product-key", "bug", [(RND, "key=seed + stream", "key=seed * stream")]),
    ("xor-key", "same", [(RND, "key=seed + stream", "key=stream + seed")]),
    ("wrap-key", "bug", [(RND, "key=seed + stream", "key=seed + stream % 10")]),
    ("half-key", "bug", [(RND, "key=seed + stream", "key=seed + stream // 2")]),
    ("time-key", "bug", [(RND, "import math\n", "import math\nimport time\n"), (RND, "key=seed + stream", "key=seed + stream + int(time.time())")]),
    ("no-season", "bug", [(TG, "        np.random.seed(seasonSeed)\n", "        pass\n")]),
    ("season-late", "bug", [(TG, "    if seasonSeed is not None:\n        np.random.seed(seasonSeed)\n", ""),
                            (TG, "    maxRvsPerTrack = 8 * (maxTimeSteps + 2)\n", "    if seasonSeed is not None:\n        np.random.seed(seasonSeed)\n    maxRvsPerTrack = 8 * (maxTimeSteps + 2)\n")]),
    ("season-rank", "bug", [(TG, "np.random.seed(seasonSeed)", "np.random.seed(seasonSeed + comm.rank)")]),
    ("np-uniform", "bug", [(TG, "genesisDay = ppf(uniform(), cdfInitDay)", "genesisDay = ppf(np.random.uniform(), cdfInitDay)")]),
    ("order", "same", [(TG, "        trackFile = pjoin(trackPath, sim.outfile)\n        tracks = tg.generateTracks(sim.ntracks, sim.index)\n        ncTrackFile = pjoin(trackPath, \"tracks.{0:05d}.nc\".format(sim.index))\n",
        "        ncTrackFile = pjoin(trackPath, \"tracks.{0:05d}.nc\".format(sim.index))\n        tracks = tg.generateTracks(sim.ntracks, sim.index)\n")]),
    ("helper", "same", [(TG, "            global PRNG #TODO: explicitly-pass rather than mutate global state\n            PRNG = random.Random(seed=sim.seed, stream=sim.index)\n", "            _reseed(sim)\n"),
                        (TG, "def run(configFile, callback=None):\n", "def _reseed(s):\n    global PRNG\n    PRNG = random.Random(seed=s.seed, stream=s.index)\n\n\ndef run(configFile, callback=None):\n")]),
    ("range-loop", "same", [(TG, "    for sim in balanced(sims):\n", "    for which in range(comm.rank, len(sims), comm.size):\n        sim = sims[which]\n")]),
    ("keep-prev", "bug", [(TG, "        tracks = tg.generateTracks(sim.ntracks, sim.index)\n", "        if not hasattr(tg, 'made'):\n            tg.made = 0\n        tracks = tg.generateTracks(sim.ntracks, tg.made)\n        tg.made += 1\n")]),
    ("file-rank", "bug", [(TG, "\"tracks.{0:05d}.nc\".format(sim.index))", "\"tracks.{0:05d}.nc\".format(sim.index + comm.rank))")]),
    ("keep-steps", "bug", [(TG, "        ncSaveTracks(ncTrackFile, tracks, calendar='julian')\n", "        ncSaveTracks(ncTrackFile, tracks, calendar='julian')\n        tg.maxTimeSteps = 10 + len(tracks)\n")]),
]
CASES += [
 ('year-cached', 'bug', [('TrackGenerator/TrackGenerator.py', '        genesisYear = int(uniform(1900, 9998))\n', "        if not hasattr(self, '_year'):\n            self._year = int(uniform(1900, 9998))\n        genesisYear = self._year\n")]),
 ('stream-jump', 'bug', [('TrackGenerator/TrackGenerator.py', 'random.Random(seed=sim.seed, stream=sim.index)', 'random.Random(seed=sim.seed, stream=int(sim.jumpahead))')]),
 ('pressure-memo', 'bug', [('TrackGenerator/TrackGenerator.py', '        self.data = spline_filter(data)\n', '        self.data = spline_filter(data)\n        self.memo = {}\n'), ('TrackGenerator/TrackGenerator.py', '        scale = [365., 180., 360.]\n        offset = [0., -90., 0.]\n        mslp = interp3d(self.data, coords, scale, offset, prefilter=False)\n', '        scale = [365., 180., 360.]\n        offset = [0., -90., 0.]\n        key = tuple(np.round(np.ravel(coords), 0))\n        if key not in self.memo:\n            self.memo[key] = interp3d(self.data, coords, scale, offset, prefilter=False)\n        mslp = self.memo[key]\n')]),
 ('landfall-tol', 'bug', [('TrackGenerator/TrackGenerator.py', '        tol = 0.0\n\n        # Generate', '        tol = self.landfall.tol\n\n        # Generate')]),
 ('poisson-per-proc', 'bug', [('TrackGenerator/TrackGenerator.py', '    nCyclones = np.random.poisson(yrsPerSim * meanFreq, nSimulations)', '    nCyclones = np.random.poisson(yrsPerSim * meanFreq, nSimulations)\n    np.random.shuffle(nCyclones[comm.rank:])')]),
 ('season-only-first', 'bug', [('TrackGenerator/TrackGenerator.py', '    if seasonSeed is not None:\n        np.random.seed(seasonSeed)', '    if seasonSeed is not None and comm.rank == 0:\n        np.random.seed(seasonSeed)')]),
 ('stream-mod', 'bug', [('TrackGenerator/TrackGenerator.py', 'stream=sim.index)', 'stream=sim.index % 1000)')]),
 ('chi-init-moved', 'bug', [('TrackGenerator/TrackGenerator.py', '        self.pChi = 0.0\n        self.sChi = 0.0\n        self.dpChi = 0.0\n', '        self.pChi = 0.0\n        self.sChi = 0.0\n'), ('TrackGenerator/TrackGenerator.py', '        self.gridSpace = gridSpace\n', '        self.gridSpace = gridSpace\n        self.dpChi = 0.0\n')]),
 ('seed-abs', 'bug', [('TrackGenerator/TrackGenerator.py', "        trackSeed = config.getint('TrackGenerator', 'TrackSeed')", "        trackSeed = config.getint('TrackGenerator', 'TrackSeed') or int(time.time())")]),
]
CASES += [
 ('class-chi', 'bug', [('TrackGenerator/TrackGenerator.py', '        self.dpChi = 0.0\n        self.dsChi = 0.0\n        self.dp = 0.0\n', '        self.dsChi = 0.0\n        self.dp = 0.0\n')]),
]
CASES += [
 ('hash-stream', 'bug', [('TrackGenerator/TrackGenerator.py', 'stream=sim.index)', 'stream=hash(sim.outfile) % 65536)')]),
 ('mod-stream', 'bug', [('TrackGenerator/TrackGenerator.py', 'stream=sim.index)', 'stream=sim.index % 256)')]),
 ('global-np', 'bug', [('TrackGenerator/TrackGenerator.py', '            genesisHour = int(uniform(0, 24))', '            genesisHour = int(np.random.uniform(0, 24))')]),
 ('year-now', 'bug', [('TrackGenerator/TrackGenerator.py', '        genesisYear = int(uniform(1900, 9998))', '        genesisYear = datetime.now().year')]),
 ('vchi-kept', 'bug', [('TrackGenerator/TrackGenerator.py', '        self.vChi = 0.0\n        self.bChi = 0.0\n        self.pChi', '        self.bChi = 0.0\n        self.pChi')]),
 ('key-mult', 'bug', [('Utilities/tcrandom.py', 'Philox(key=seed + stream)', 'Philox(key=seed * stream)')]),
 ('key-wrap', 'bug', [('Utilities/tcrandom.py', 'Philox(key=seed + stream)', 'Philox(key=(seed + stream) % 1000)')]),
 ('key-shift', 'same', [('Utilities/tcrandom.py', 'Philox(key=seed + stream)', 'Philox(key=stream + seed)')]),
]
CASES += [
 ('year-global', 'bug', [('TrackGenerator/TrackGenerator.py', 'genesisYear = int(uniform(1900, 9998))', 'genesisYear = int(np.random.uniform(1900, 9998))')]),
 ('year-first', 'bug', [('TrackGenerator/TrackGenerator.py', 'genesisYear = int(uniform(1900, 9998))', "if not hasattr(self, 'genesisYear'):\n            self.genesisYear = int(uniform(1900, 9998))\n        genesisYear = self.genesisYear")]),
 ('tol-decay', 'bug', [('TrackGenerator/TrackGenerator.py', '                tol += float(self.dt)\n', '                tol = float(self.landfall.tol)\n')]),
 ('skip-zero', 'same', [('TrackGenerator/TrackGenerator.py', '        tracks = tg.generateTracks(sim.ntracks, sim.index)', '        count = sim.ntracks\n        tracks = tg.generateTracks(count, sim.index)')]),
]
CASES += [
 ('lf-np', 'same', [('TrackGenerator/trackLandfall.py', '            self.tol = 0\n            return False', '            self.tol = 0.0\n            return False')]),
]
