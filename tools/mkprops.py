"""Writes /verif/properties.jsonl from the table below (kept so that the
file stays well-formed and can be edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Seeded track generation does not depend on process layout or run history",
  "With given season and track seeds, every variable in a simulation's track file is determined by the configuration, the input data, the seeds and the simulation's own number. The number of processes, the process that runs the simulation, the simulations run before it in the same process, the clock and any other random state have no influence. Different simulation numbers use different random streams, and any integer seed (including 0) is honoured.",
  ["schedules", "configurations", "histories"],
  "all process counts, all assignments of simulations to processes, all seeds and all earlier simulations in the process",
  "The suite generates no tracks from a seed and never runs two process layouts; one accidental draw from a global generator or one attribute carried between simulations only shows when two whole runs are compared.",
  ["TrackGenerator/TrackGenerator.py", "TrackGenerator/trackLandfall.py", "TrackGenerator/trackSize.py", "Utilities/tcrandom.py", "StatInterface/SamplingOrigin.py"],
  [("generator rebuilt from (seed, simulation index) before each simulation", "TrackGenerator.run"),
   ("season counts drawn from a seeded generator on every process", "TrackGenerator.run"),
   ("step state reset when a track starts", "TrackGenerator._singleTrack")],
  ["tracks.NNNNN.nc contents"],
  [("PRNG", "the generator all track sampling draws from", "TrackGenerator module global")])

p("C02", "Parallel stages never leave a process waiting",
  "In a parallel run every process reaches the same sequence of synchronisation points, whatever its rank and the configuration. In each master/worker phase every message sent is received by its addressee with the tag it was sent with, every worker is told to stop exactly once, and the master waits for exactly as many replies as it handed out work items, also when there are fewer items than workers or none at all.",
  ["schedules", "configurations", "inputs"],
  "all ranks, process counts, numbers of work items and configurations that reach a parallel stage",
  "Tests run one process with a stand-in communicator whose barrier, send and receive do nothing, so no unmatched call can ever block.",
  ["tcrm.py", "tcevent.py", "TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py", "Utilities/parallel.py"],
  [("barriers outside rank-dependent code", "tcrm.main, TrackGenerator.run, wind.run, hazard.run, database.run"),
   ("send/receive loops with a None stop message", "HazardCalculator.dumpHazardFromTiles, HazardDatabase.processEvents, HazardDatabase.processTracks"),
   ("master-only decorator", "Utilities.parallel.disableOnWorkers")],
  ["termination of a parallel run"])

p("C03", "Every work item is processed exactly once at any process count",
  "Each simulation, track file, hazard tile, wind-field file and track record set belonging to a run is processed exactly once over all processes: none is skipped and none is processed twice. This holds for any number of items and processes, including one process and more processes than items, and every collected result is stored where its own item belongs.",
  ["schedules", "inputs", "configurations"],
  "all numbers of items and processes and all arrival orders of replies",
  "The suite has no test of the distribution helpers or dispatch loops with more than one process; off-by-one losses show only for particular item/process counts.",
  ["TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py"],
  [("round-robin slice of the item list by rank", "TrackGenerator.balanced, wind.balanced"),
   ("dispatch counter", "HazardCalculator.dumpHazardFromTiles, HazardDatabase.processEvents, HazardDatabase.processTracks"),
   ("tile bounds", "hazard.TileGrid")],
  ["set of produced track, wind field, hazard and database records"])

p("C04", "No output file is written by two processes of one run",
  "When a run uses several processes, every output file is written either by the first process only or by the one process that owns the work item named in the file's name. Creation of the output folders, data processing, calibration, plotting, hazard output and all database changes happen on the first process only.",
  ["schedules", "configurations"],
  "all process counts and configurations",
  "Collisions need two processes and show as corrupted or truncated files only under particular timing; the suite is single process.",
  ["tcrm.py", "TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py", "Utilities/parallel.py", "Utilities/timeseries.py"],
  [("master-only decorator", "Utilities.parallel.disableOnWorkers"),
   ("file names built from the work item", "TrackGenerator.run, WindfieldGenerator.dumpGustsFromTracks"),
   ("rank tests", "HazardDatabase.processEvents, HazardDatabase.processTracks, tcrm.startup")],
  ["files under the output folder, log files"])

p("C05", "Stages run only when enabled, in dependency order, fully separated",
  "A run performs exactly the stages whose switch in the Actions section is on, each once, in the order download, data processing, calibration, track generation, wind fields, hazard, then the stages that read those results. All processes synchronise between one stage and the next, so no process starts a stage before every process has finished the one before it.",
  ["configurations", "schedules"],
  "all combinations of stage switches and all process counts",
  "No test calls the main programs; wrong switch, order or missing synchronisation shows only for particular switch combinations in parallel.",
  ["tcrm.py", "tcevent.py"],
  [("switch test in front of each stage call", "tcrm.main"), ("barrier after each stage", "tcrm.main")],
  ["stages executed and their order"])

p("C06", "Only physically valid tracks are written",
  "Every synthetic track that is kept is non-empty, lasts at least 12 hours, starts with a central pressure more than 1 hPa below the environment, has central pressure below environmental pressure at every step, has a radius to maximum winds between 5 and 500 km at every step and below 100 km at the first, and, when an inner domain is set, stays inside that domain. No position of a track lies outside the track domain, and a rejected track is replaced so that each simulation holds exactly the drawn number of tracks.",
  ["inputs", "histories"],
  "all sequences of random draws and all calibrated statistics",
  "Tracks depend on long random sequences and input grids the suite does not have; the filters are only exercised by generating whole catalogues.",
  ["TrackGenerator/TrackGenerator.py"],
  [("acceptance test before a track is appended", "TrackGenerator.generateTracks"),
   ("domain exit test at each step", "TrackGenerator._singleTrack")],
  ["tracks.NNNNN.nc contents"])

p("C07", "Genesis values: given ones are used, missing ones are drawn per track",
  "Each genesis value (position, speed, bearing, central pressure, environmental pressure, size, day) that the caller prescribes is used unchanged for every track, whatever its value including zero. Every genesis value that is not prescribed is drawn or derived afresh for each track from the distribution of that quantity in that track's own genesis cell, or from that track's own genesis date and position.",
  ["inputs", "histories"],
  "all combinations of prescribed values and all numbers of tracks per simulation",
  "The generator is never run in the suite; reuse of an earlier track's value only shows from the second track on.",
  ["TrackGenerator/TrackGenerator.py"],
  [("per-quantity choice between prescribed value and inverse-CDF sample", "TrackGenerator.generateTracks")],
  ["first record of each track"])

p("C08", "Land and sea statistics are never mixed, nor one quantity's with another's",
  "When a simulated cyclone is over land, the coefficients used to step pressure, bearing, speed and size are the land coefficients of that quantity for the current cell, and over sea the sea coefficients. Calibration computes land coefficients from observations over land (or, where the whole domain has too few of them, from those over sea, with a warning) and sea coefficients from observations over sea, and each coefficient is saved, re-loaded and used under the same name and for the same quantity.",
  ["inputs", "histories"],
  "all cells, all land/sea transitions along a track, and a save/load cycle of the statistics",
  "Tests check the statistics of a few cells against stored numbers but never drive the step functions over land or re-load saved coefficients into the generator.",
  ["TrackGenerator/TrackGenerator.py", "StatInterface/generateStats.py", "StatInterface/StatInterface.py"],
  [("choice of coefficient set by the land flag", "TrackGenerator._stepPressureChange, _stepBearing, _stepSpeed, _stepSizeChange"),
   ("land flag passed to the sample extraction", "GenerateStats.calculateStatistics"),
   ("variable names in saved statistics", "GenerateStats.save, GenerateStats.load")],
  ["stepped values", "*_stats.nc contents"])

p("C09", "All columns of a track describe the same instants and advance consistently",
  "In every generated track the columns have the same length and element k of each column refers to the same time, which is k time steps after genesis. Position k is position k-1 moved along the previous bearing by the previous speed for one time step, and the columns are handed on under their own names.",
  ["inputs", "histories"],
  "all tracks, all ways a track can end (leaves the domain, fills, dies on land, reaches the step limit)",
  "No test steps a track; a shifted or swapped column is numerically plausible and is only visible by following how each element is formed.",
  ["TrackGenerator/TrackGenerator.py", "Utilities/track.py"],
  [("step recurrence", "TrackGenerator._singleTrack"), ("column table", "Utilities.track")],
  ["track columns"])

p("C10", "Physical quantities reach each wind calculation in the unit it expects",
  "Every pressure, distance, speed and angle that enters a wind or pressure profile, a wind field or a distance calculation is in the unit that calculation expects, converted exactly once from the unit in which it is stored or configured. Wind outputs are in the unit recorded with them.",
  ["inputs", "configurations"],
  "all tracks and all combinations of wind profile and wind field",
  "The model classes are tested in isolation with hand-made arguments; the conversions sit in the code that connects configuration, tracks and models, which no test runs.",
  ["wind/__init__.py", "wind/windmodels.py", "PressureInterface/pressureProfile.py", "Utilities/maputils.py"],
  [("conversions before the models are called", "WindfieldAroundTrack.localWindField, wind.run")],
  ["vmax, ua, va and slp in wind field files"])

p("C11", "Unit conversion factors are mutually consistent",
  "Converting a value from one unit to another and back returns the original value, and converting through an intermediate unit gives the same result as converting directly, for every pair of units the converter supports, to within the precision of the tabulated factors (0.2 percent). A unit that can be converted from can be converted back to. A conversion between equal units changes nothing.",
  ["inputs"],
  "all supported pairs and chains of units and all values",
  "Tests convert a handful of values for some pairs; the table has many more pairs and chains.",
  ["Utilities/metutils.py"],
  [("conversion table", "Utilities.metutils.convert")],
  ["returned values"])

p("C12", "Wind models mirror between hemispheres",
  "Moving a cyclone to the same latitude in the other hemisphere, with its track mirrored, reverses the rotation and nothing else: the gradient wind and the vorticity change sign, the eastward surface wind is mirrored unchanged and the northward one changes sign. This holds for every wind profile and wind field that can be selected and at every radius.",
  ["inputs", "configurations"],
  "all latitudes, radii, intensities and all selectable profile/field combinations",
  "Tests compare stored arrays for single southern-hemisphere cases; the northern hemisphere is not exercised at all.",
  ["wind/windmodels.py", "wind/windmodels.f90", "PressureInterface/pressureProfile.py"],
  [("sign of the Coriolis parameter applied to every profile", "velocity and vorticity methods of all wind profile classes"),
   ("sign handling in the field models", "HubbertWindField, McConochieWindField, KepertWindField")],
  ["ua and va"])

p("C13", "Compiled and interpreted calculations agree",
  "Each wind, pressure and grid-geometry calculation that has a compiled version and an interpreted fallback gives the same result with either, for all inputs. Which one is installed changes speed only.",
  ["inputs", "configurations"],
  "all radii, angles, intensities and grids, with and without the compiled modules",
  "The suite runs with one installation only, so at most one of the two versions is ever exercised.",
  ["wind/windmodels.py", "wind/windmodels.f90", "PressureInterface/pressureProfile.py", "PressureInterface/pressureProfile.f90", "Utilities/maputils.py", "Utilities/maputils.f90"],
  [("import test choosing the version", "HollandWindProfile.velocity, HollandWindProfile.vorticity, KepertWindField.field, PrsProfile.holland, maputils.gridLatLonDist/Bear")],
  ["wind speed, vorticity, pressure, distance and bearing arrays"])

p("C14", "Peak gust, its direction and the lowest pressure are taken coherently",
  "At every grid point the reported gust is the largest gust over all time steps of the cyclone, the reported wind components and bearing are those of the time step at which that largest gust occurred, and the reported pressure is the lowest over all time steps. The same holds when the results of several tracks are combined into one field.",
  ["inputs", "histories"],
  "all tracks, time steps, window positions and merge orders",
  "Tests cover single-time fields; the accumulation over time steps and over tracks needs input grids and complete tracks.",
  ["wind/__init__.py"],
  [("running maximum with one mask for all fields", "WindfieldAroundTrack.regionalExtremes"),
   ("merge over tracks", "WindfieldGenerator.calculateExtremesFromTrackfile")],
  ["vmax, ua, va, slp"])

p("C15", "A re-run skips only wind fields that are complete",
  "When wind-field generation is restarted, a track is skipped only if its own output file can be opened and holds every quantity that later stages read, including the last one written; a missing, unreadable or partly written file is generated again. A skipped track is the one whose file was tested, and every track that is not skipped is computed and saved under the name that test looks at.",
  ["crash_points", "histories"],
  "all points at which an earlier run can have stopped, and all tracks",
  "Crash points inside file creation are not reproduced by any test.",
  ["wind/__init__.py", "Utilities/nctools.py"],
  [("completeness test before a track is processed", "WindfieldGenerator.dumpGustsFromTracks, gustFileComplete")],
  ["set of gust files after a restart"])

p("C16", "Every stage reads what earlier stages write",
  "Each file that a stage reads from the output folder is written by an earlier stage under the same folder and name pattern, and each named quantity it reads from that file is one the writer stores there. Folders that are written to are created before any stage runs.",
  ["configurations", "histories"],
  "all stage combinations of a run",
  "Stages are tested separately against fixture files, never against each other's output.",
  ["tcrm.py", "DataProcess/DataProcess.py", "StatInterface/StatInterface.py", "StatInterface/GenerateDistributions.py", "StatInterface/generateStats.py", "TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py", "PlotInterface/AutoPlotHazard.py"],
  [("file name literals and variable name literals in writers and readers", "all stage modules")],
  ["file names and netCDF variables"])

p("C17", "Tracks survive being saved and re-loaded",
  "A set of tracks written to a track file and read back yields the same tracks in the same order with the same identifiers, the same number of records and the same value in every column, with times decoded by the unit and calendar they were encoded with. Saving does not change the tracks held in memory.",
  ["inputs"],
  "all track sets, including empty tracks and any time unit or calendar",
  "Round-trip equality over all inputs is not reachable by examples; the existing tests read stored files.",
  ["Utilities/track.py"],
  [("encode/decode of times and identifiers", "ncSaveTracks, ncReadTrackData")],
  ["Track objects"])

p("C18", "Hazard values belong to the grid cell they are stored at",
  "The return levels, confidence limits and distribution parameters stored for a grid cell are computed from that cell's own wind speeds, are stored under their own names, and are the same whether tiles are processed by one process or many. The tiles cover the hazard grid completely without overlap, and every tile is placed back at the position it was read from.",
  ["inputs", "schedules", "configurations"],
  "all grid sizes, tile sizes, distributions and process counts",
  "Tests fit single samples; the tiling and reassembly code is never run.",
  ["hazard/__init__.py"],
  [("tile bounds and offsets", "TileGrid, HazardCalculator.dumpHazardFromTiles"),
   ("per-cell loops", "calculateGEV, calculateGPD, calculateEMP, calculatePower"),
   ("output mapping", "HazardCalculator.saveHazard")],
  ["hazard.nc"])

p("C19", "Where no valid fit exists every return level is missing",
  "When a grid cell has too few records, the fit fails or the fitted parameters are rejected, all return levels of that cell are the missing value; a return level is never computed from missing parameters, and missing and fitted parameters are never mixed. This holds for every extreme-value method that can be selected.",
  ["inputs"],
  "all samples, including empty, constant and short ones, for all methods",
  "Tests fit a few good samples; rejected fits and optimiser failures are not exercised.",
  ["hazard/evd.py", "hazard/GPD.py", "hazard/__init__.py"],
  [("missing defaults, rejection tests", "gevfit, gpdfit, powerfit, empfit")],
  ["return values", "hazard.nc"])

p("C20", "Missing observations never enter statistics or simulations",
  "A missing observation in the input is kept as missing through reading and unit conversion, and every rate or difference formed from a missing or out-of-range observation is itself missing. Missing values are removed before any mean, variance, distribution or other statistic is calculated.",
  ["inputs"],
  "all input records and all patterns of missing values",
  "Tests use complete fixture data; a missing marker treated as data only shifts statistics.",
  ["DataProcess/DataProcess.py", "Utilities/loadData.py", "StatInterface/generateStats.py", "StatInterface/GenerateDistributions.py", "StatInterface/KDEParameters.py"],
  [("masks applied to derived quantities", "DataProcess._pressureRate and siblings"),
   ("removal before statistics", "GenerateStats, GenerateDistributions, KDEParameters")],
  ["process/* files, *_stats.nc, CDF files"])

p("C21", "No rate of change is formed across two different cyclones",
  "The first record of a cyclone has no rate of change of pressure, bearing, speed or size, and quantities formed from two successive displacements (rates of bearing and speed) are also missing for the second record. Consecutive records are never combined over the boundary between two cyclones. A jump of more than 15 degrees of longitude or 5 degrees of latitude between two records, in either direction, is such a boundary.",
  ["inputs"],
  "all input catalogues and all positions of cyclone boundaries",
  "Fixture files hold stored results for one data set; a boundary leak changes a few extreme values only.",
  ["DataProcess/DataProcess.py", "Utilities/loadData.py"],
  [("masking with the first-record flag", "DataProcess._pressureRate, _bearingRate, _speedRate, _windSpeedRate/_rmaxRate")],
  ["pressure_rate, bearing_rate, speed_rate, rmax_rate"])

p("C22", "Every calibration sample is paired with its own position",
  "Wherever a list of values is combined with a list of positions during calibration, both lists hold the same observations in the same order: genesis values go with genesis positions, initial values with initial positions and all-record values with all-record positions.",
  ["inputs", "configurations"],
  "all input catalogues and all calibrated quantities",
  "Mispaired lists of equal length give plausible distributions; unequal lengths only fail for particular inputs.",
  ["DataProcess/DataProcess.py", "StatInterface/StatInterface.py"],
  [("subsets written to process files", "DataProcess"), ("file pairs read back", "StatInterface")],
  ["arguments of the calibration steps"])

p("C23", "Database records hold each value in its own column, from its own location",
  "Every record inserted into the hazard database has one value per column, in column order, and each value is the quantity the column is named after, taken from the grid cell of the record's own location, event and return period. Query results join wind speeds, events and locations on all the keys that identify a record.",
  ["inputs", "histories"],
  "all events, locations, grids and return periods",
  "No test populates the database; swapped values of the same type are accepted silently.",
  ["database/__init__.py", "database/definitions.py", "database/queries.py"],
  [("table definitions and insert statements", "database.definitions"), ("record tuples", "HazardDatabase.processEvent, processHazard, processTrack, generateEventTable"), ("queries", "database.queries")],
  ["table contents"])

p("C24", "The record of processed files is complete and read back as written",
  "A processed file is recorded with its folder, name, modification date and checksum, and a later run that reads the record finds exactly those values under the same folder and name. A file counts as already processed only if the value stored for it equals the one tested.",
  ["histories"],
  "all sequences of recorded files and later look-ups",
  "Tests use one stored record; field order is fixed in two separate places that only agree by convention.",
  ["Utilities/process.py", "Utilities/files.py"],
  [("field order of the written and the parsed line", "pWriteProcessedFile, pGetProcessedFiles, flGetStat"), ("look-up", "pAlreadyProcessed")],
  ["record file, look-up result"])

p("C25", "Each wind direction is scaled by the multiplier of its own sector",
  "Every wind bearing from 0 to 360 degrees falls in exactly one 45-degree sector centred on a compass direction and is scaled by the terrain multiplier computed for that direction. The mapping is the same in all code paths that apply multipliers.",
  ["inputs"],
  "all bearings, including sector limits and both ends of the range",
  "Tests cover a few bearings of one code path; a swapped band is plausible everywhere except for one direction.",
  ["ProcessMultipliers/processMultipliers.py"],
  [("sector table", "processMult, processMultiplierSegment"), ("band order of the combined multiplier raster", "ProcessMultipliers/processMultipliers")],
  ["local wind speed raster"])

p("C26", "Threaded multiplier processing covers the raster once and always ends",
  "When multipliers are applied with several threads, the segments handed out cover the raster exactly once, every segment is processed by exactly one thread, shared raster objects are only touched while their lock is held, every lock taken is released on all paths, and all threads end when the work runs out.",
  ["schedules", "inputs"],
  "all thread counts, interleavings and raster sizes",
  "Thread interleavings are not controlled by any test.",
  ["ProcessMultipliers/processMultipliers.py"],
  [("segment queue and locks", "processMultV2, processMultiplierSegment, call_process_multiplier_segment")],
  ["local wind speed raster", "termination"])

p("C27", "Configuration options have one name, one type and a defined fallback",
  "Every configuration option that a stage of a run reads is either given a default, or tested for before it is read, or documented as one the user must set. Options are read as the type their default has, and the same option is read as the same type everywhere.",
  ["configurations"],
  "all configuration files that set the mandatory options",
  "Tests use complete configuration files; an option without default fails only when it is left out.",
  ["Utilities/config.py", "tcrm.py", "tcevent.py", "TrackGenerator/TrackGenerator.py", "wind/__init__.py", "hazard/__init__.py", "database/__init__.py"],
  [("default table", "Utilities.config"), ("option reads", "all stage modules")],
  ["success of a run with a minimal configuration"])

p("C28", "Output files are complete when the function that wrote them returns",
  "Every data file a stage opens for writing is closed on all normal paths before the stage function returns, and not used after it is closed. Database changes are committed before the connection is closed or the stage ends.",
  ["inputs", "histories", "fault_sequences"],
  "all paths through the writing functions",
  "Unclosed files are usually flushed at interpreter exit, so tests see complete files.",
  ["Utilities/nctools.py", "Utilities/track.py", "Utilities/files.py", "Utilities/process.py", "wind/__init__.py", "wind/writer.py", "hazard/__init__.py", "database/__init__.py"],
  [("close calls and with blocks", "all writers"), ("commit calls", "HazardDatabase")],
  ["file contents after return"])

p("C29", "Station time series record each station's own grid point and its own extremes",
  "At every time step each station's record holds the station's own identifier and position together with speed, both wind components, bearing and pressure sampled at the grid point of that position, in the order of the file header. The maximum and minimum summaries hold, for each station with any wind, its complete record at the time of highest speed and of lowest pressure.",
  ["inputs", "histories"],
  "all stations, time steps and grids",
  "No test drives the extraction over a cyclone; swapped row/column or component order is plausible data.",
  ["Utilities/timeseries.py", "wind/__init__.py", "wind/writer.py"],
  [("sampling and record tuple", "Timeseries.sample, Timeseries.extract"), ("summaries", "Timeseries.shutdown"), ("callback arguments", "WindfieldAroundTrack.regionalExtremes")],
  ["ts.*.csv, maxima.csv, minima.csv"])

p("C30", "Grid cells are numbered and looked up consistently",
  "The cell number of a position, the limits of a numbered cell and the set of cells of a domain agree: the position lies inside the limits reported for its own cell number, all cell numbers of a domain lie between zero and the last cell, and calibration and simulation use the same numbering. Positions outside the domain are rejected.",
  ["inputs", "configurations"],
  "all positions, domains and cell sizes",
  "Tests look up a few positions of one domain.",
  ["Utilities/stats.py", "StatInterface/GenerateDistributions.py", "StatInterface/generateStats.py", "TrackGenerator/TrackGenerator.py"],
  [("row-major numbering from the north-west corner", "Utilities.stats.getCellNum, getCellLonLat, validCellNum, getMaxCellNum")],
  ["cell numbers"])

p("C31", "The synthetic catalogue is statistically faithful to the input climatology",
  "Over many simulated years, genesis density, track density, intensity, speed, bearing and landfall rates of synthetic tracks agree with the input catalogue within sampling uncertainty.",
  ["inputs"], "all input climatologies and long simulations",
  "A statistical statement about long runs.",
  ["TrackGenerator/TrackGenerator.py", "StatInterface/StatInterface.py"],
  [("autoregressive step model calibrated per cell", "TrackGenerator, StatInterface")], ["track catalogue statistics"])

p("C32", "Return levels and confidence limits are numerically accurate and ordered",
  "Fitted return levels increase with return period, approximate the return levels of the population the gusts are drawn from, and lie between their confidence limits.",
  ["inputs"], "all samples of gusts",
  "A numerical statement about fitted values over all samples.",
  ["hazard/evd.py", "hazard/__init__.py"],
  [("extreme-value fits and resampling", "gevfit, gpdfit, powerfit, empfit, calculateCI")], ["hazard.nc"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r) + "\n")
print(len(P))
