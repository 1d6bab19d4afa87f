# property -> (technique, level note)
TECHNIQUE["C05"] = (
    "interprocedural effect-trace analysis of tcrm.main/tcevent.main: path "
    "condition, order and barrier separation of every stage call",
    "All stage calls and barriers reachable from the two main programs, with "
    "the stage bodies themselves left opaque; conditions are compared as "
    "boolean normal forms over the Actions switches. Stage entry points are "
    "named in the rule.")
TECHNIQUE["C11"] = (
    "abstract evaluation of the converter for every pair of unit names; the "
    "extracted affine maps are composed and compared exactly",
    "All unit names occurring in the converter; every ordered pair, round "
    "trip and three-unit chain, as maps over all values (floating-point "
    "rounding aside).")
TECHNIQUE["C14"] = (
    "value-flow analysis of the loop-carried fields of regionalExtremes and "
    "calculateExtremesFromTrackfile; update conditions and new values are "
    "compared as normal forms; stored variables are traced to them",
    "All paths of the accumulation loops and of the saving code, for any "
    "number of time steps and tracks. The wind field of one time step is an "
    "opaque value here (see C10, C12, C13).")
TECHNIQUE["C13"] = (
    "translation of the Fortran routines and value-flow extraction of both "
    "versions; the result terms are compared as normal forms over all inputs",
    "The three Fortran files and every Python call site choosing between "
    "them and the fallback; element-wise, real arithmetic (rounding and "
    "single-precision literals aside). Akima interpolation is outside.")
TECHNIQUE["C12"] = (
    "value-flow extraction of every profile and field method (interpreted and "
    "compiled); symmetry of the result terms under reflection decided as "
    "equality of normal forms",
    "Every concrete wind profile, wind field and pressure profile method, "
    "inside and outside the radius of maximum wind, for all latitudes, radii "
    "and intensities. Fields are taken with an arbitrary odd gradient wind "
    "and vorticity, so profile and field obligations compose.")
TECHNIQUE["C20"] = (
    "value-flow extraction of every file written by DataProcess.processData, "
    "written out element by element; interval analysis with case splitting "
    "over missing and present observations",
    "All saved files in the dated and undated variants of the input and with "
    "and without restriction to the wind field domain; an observation is "
    "either the missing code, out of physical range, or in range. Samples "
    "drawn by the calibration steps are traced to the missing-value filter.")
TECHNIQUE["C21"] = (
    "value-flow extraction of every rate, speed and bearing saved by "
    "processData, element by element; interval analysis under 'this record "
    "starts a cyclone'",
    "Every saved rate at the first records of a cyclone, and the flag that "
    "marks first records for each way of recognising them. Observations are "
    "arbitrary otherwise.")
TECHNIQUE["C22"] = (
    "value-flow extraction of saved samples and positions down to the input "
    "record each element refers to; record positions compared as terms",
    "All pairs of sample and position files read by the calibration steps, "
    "for dated and undated input, with and without domain restriction. A "
    "difference of positions is confirmed on three patterns of first records "
    "before it is reported.")
TECHNIQUE["C07"] = (
    "value-flow extraction of the arguments each synthetic track is started "
    "with, under 'this value was prescribed' and 'it was left out'; loop-"
    "carried dependence of draws on earlier tracks; the inverse-transform "
    "lookup compared with its definition by interval analysis",
    "All eight genesis values, prescribed (including zero) or left out, for "
    "every track of a simulation; the files the distributions are read from; "
    "the shared inverse lookup for any distribution.")
TECHNIQUE["C09"] = (
    "value-flow extraction of the arrays every way a track ends returns and "
    "of one time step of each; induction over the step; term equality for "
    "the great circle formula",
    "Every column and every return of the track simulation for any number of "
    "steps, any statistics and any random draws.")
TECHNIQUE["C01"] = (
    "value-flow extraction of the whole track generation stage (about seventy "
    "functions inlined from the stage's entry); taint of process number, "
    "turn, clock and loop-carried state into the written variables; effect "
    "ordering of seeding and draws; generator keys as terms",
    "Every draw of a simulation and every variable written to a track file, "
    "for any number of processes and simulations and any seeds including "
    "zero; random number generators and netCDF are taken at their contract.")
TECHNIQUE["C06"] = (
    "value-flow extraction of the condition under which a finished track is "
    "kept and of the ways a track ends; interval analysis of the condition "
    "over families of invalid tracks; refutation by concrete tracks",
    "Every requirement (duration, deficit, filled, radius, inner domain) at "
    "the first, an early, a middle and the last position, with and without "
    "an inner domain; the number of kept tracks; every boundary of the "
    "domain.")
TECHNIQUE["C08"] = (
    "value-flow extraction of which observations each coefficient is "
    "computed from and which coefficient each change uses, specialised to "
    "'over land' and 'over sea'; pointwise index terms",
    "All five quantities and all eight coefficients of each, for any cell "
    "and any position on land or sea.")
TECHNIQUE["C02"] = (
    "extraction of each process's communication typestate (sends, receives, "
    "synchronisation points, loops and their exits as terms of process "
    "number, process count and item count) from the call graph of each "
    "stage; compatibility of the extracted protocols decided by enumerating "
    "their joint states; rank-dependence of every synchronisation point",
    "Hazard, database, track, wind and top-level stages; joint states for 1 "
    "to 4 processes and 0 to 6 items with every order of arrival; sends are "
    "taken as rendezvous, the strictest reading of the contract.")
TECHNIQUE["C03"] = (
    "work-item flow over the extracted communication protocol of each stage "
    "(joint states enumerated, every item's work call counted); slices of "
    "item lists by process number solved for every small process and item "
    "count; value-flow equality of one-process and several-process branches; "
    "filters of file lists evaluated on the names the earlier stage writes",
    "Hazard tiles, wind field files and track files into the database, track "
    "files into wind fields, simulations into track files; 1 to 4 (dispatch) "
    "or 5 (slices) processes, up to 8 items.")
TECHNIQUE["C04"] = (
    "effect analysis: every call that writes a file, folder or table below "
    "each stage's entry, with its path condition through the call graph and "
    "the name it writes to as a term; the condition is specialised to each "
    "process, names are traced to the work item a process owns",
    "All write sites reachable from the top level and from the track, wind, "
    "hazard, database and evaluation stages, four processes; libraries are "
    "taken to write only what their calls say.")
TECHNIQUE["C10"] = (
    "unit-of-measure analysis of resolved data flow: every argument of the "
    "wind profile, wind field and pressure profile is a term of one track "
    "column or configuration option and its factor is compared with the unit "
    "of the parameter; scale relations and published formulas decide the "
    "units inside the models; unit attributes of stored variables",
    "Terms of the whole wind stage and of each profile and field class "
    "(interpreted and compiled form); formulas and scale relations are "
    "compared at sample storms, so an agreement there is not a proof")
TECHNIQUE["C15"] = (
    "value-flow graph of the wind stage: the path condition of creating a "
    "track's file is evaluated for every state an interrupted run can leave "
    "(absent, empty, unreadable, and after each creation or assignment of a "
    "variable in the order of the write effects)",
    "All crash points between the writes the source makes; what the netCDF "
    "library leaves on disk inside one call is not modelled")
TECHNIQUE["C16"] = (
    "effect analysis of the whole run (tcrm.main and tcevent.main with the "
    "stages spliced in at their call sites): every name read below the output "
    "folder, including listings, globs and filters, is matched with the "
    "patterns of the names written before it, and every variable and "
    "attribute read by name with the ones created in the matching files",
    "Names with more than one varying part are compared on four instances of "
    "the pattern; column order of text files is not covered here")
TECHNIQUE["C17"] = (
    "value-flow analysis of writer and reader: what ncSaveTracks stores in "
    "groups, variables and attributes is put in place of the reads of "
    "ncReadTrackData, inverse pairs (date2num/num2date, repr/eval, "
    "strftime/strptime) cancel only with equal units, calendars and formats, "
    "and each column, the record count, the track order and the identifier "
    "must come out as the term that went in; alias analysis of the storage "
    "changed while saving",
    "Round trip of the netCDF track format; the other input formats (csv, "
    "JTWC, ...) are read only and have no writer")
TECHNIQUE["C18"] = (
    "value-flow analysis from the wind field file to the saved variable: "
    "index terms of reading, fitting and placing are compared, the tile "
    "limits are evaluated on the value-flow graph for small grids, and "
    "arrays carried from cell to cell must be overwritten on every path",
    "All four extreme-value methods, one and several processes, all cells "
    "and tiles; tile arithmetic for 49 combinations of grid position, extent "
    "and tile size. The fits themselves are opaque functions of the data "
    "they are given.")
TECHNIQUE["C19"] = (
    "case analysis of the gated result terms of every fit: under 'too few "
    "records', 'the library routine failed' and each rejection criterion all "
    "outcomes must be the missing value, and in every outcome parameters are "
    "all fitted or all missing; value flow of the missing value and the "
    "minimum from the configuration to the fits",
    "All outcomes of the four selectable methods and of the confidence "
    "limits; the library estimators (lmoments, genpareto.fit, curve_fit) are "
    "opaque, with the exceptions they document")

TECHNIQUE["C23"] = (
    "value-flow analysis of the database update (serial and master/worker "
    "paths, with the values sent put in place of those received) matched "
    "against the column lists of the CREATE statements; analysis of the SQL "
    "texts for join keys, parameters and result names",
    "Records are compared column by column with the quantity the column is "
    "named after, the grid cell and the keys. Comments and the fields taken "
    "from the station list are matched by record, not by meaning.")
TECHNIQUE["C24"] = (
    "composition of the writer's and the reader's value flow on the text of "
    "one line, and case analysis of the ledger update over the states of "
    "the nested dictionary (folder, file and attribute known or not)",
    "The text of a record is tracked as pieces (values and separators); "
    "aliases of inner dictionaries made by method calls are left "
    "undecided.")
TECHNIQUE["C25"] = (
    "value-flow analysis of the local wind at one point as a piecewise "
    "function of the bearing, evaluated at every threshold of its conditions "
    "and between them (a complete set of cases), compared with the eight "
    "sectors; the file names and band numbers of every path are followed "
    "from writer to reader",
    "All three paths (whole raster, segmented, low resolution), separate "
    "and combined multiplier files. Resampling and reprojection are library "
    "calls.")
TECHNIQUE["C26"] = (
    "lockset analysis of every function handed to a thread (locks held at "
    "each touch of a shared raster object, lock order, release on all "
    "paths of the control flow), analysis of what a thread does on an empty "
    "queue, and evaluation of the segment list of the value-flow graph at "
    "120 combinations of raster and segment size",
    "Any number of threads and any interleaving: the lockset, lock-order "
    "and queue rules do not depend on the schedule. Reads of plain "
    "attributes of raster objects are not treated as touches.")
TECHNIQUE["C27"] = (
    "interprocedural effect analysis: every configuration read reached from "
    "tcrm.py and tcevent.py with the path condition it is read under, matched "
    "against the table of defaults, the tests on the path, exception "
    "handlers and fallbacks; the type of the accessor against the type of "
    "the default",
    "All reads whose option name is a constant after inlining helpers. "
    "Sections named by another option are checked for the default value of "
    "that option. Three options are taken as documented mandatory ones.")
TECHNIQUE["C28"] = (
    "typestate analysis over all paths of every function that opens a file "
    "(open, closed, returned, kept by an object), with aliases, exception "
    "edges, correlated tests and helpers that close their argument; "
    "transaction state of database connections with method summaries",
    "Calls are resolved by name; a file kept by an object is followed from "
    "the constructor to the function that closes it. Raster datasets of the "
    "GDAL library, which close when released, are not tracked.")
TECHNIQUE["C29"] = (
    "value-flow analysis of sampling, record keeping and writing composed "
    "into one program (sixteen stations, twelve steps), the terms written to "
    "each file evaluated column by column on a small grid with distinct "
    "values; comparison of the values handed over at a time step with the "
    "terms stored in the field; argument flow of the extraction through "
    "every function between",
    "Grid of 3 x 4 points, stations inside, on the edge, outside and without "
    "wind, enough records for the record array to grow. Formats of numbers "
    "in the files are not compared.")
TECHNIQUE["C30"] = (
    "value-flow analysis of the four numbering functions and of every "
    "selection, loop and stored grid that uses a cell number; the resulting "
    "terms and rejection conditions evaluated exactly over an enumerated "
    "family of domains, positions and cell numbers; argument flow of limits "
    "and spacing from the configuration to each call",
    "14 domains (either hemisphere, across the equator and the meridian, "
    "fractional limits and spacings, extents that are not a multiple of the "
    "spacing), positions inside and on the edges of each cell. Exact "
    "arithmetic: rounding of floating point spacings is not modelled.")
