C = "Utilities/config.py"
H = "hazard/__init__.py"
W = "wind/__init__.py"
T = "TrackGenerator/TrackGenerator.py"
D = "database/__init__.py"
CASES = [
    ("default removed", "bug", [(C, "YearsPerSimulation=1\n", "")]),
    ("default of the sample size removed", "bug", [(C, "SampleSize=50\n", "")]),
    ("section in other case", "bug", [(H, "config.getint('TrackGenerator', 'NumSimulations')", "config.getint('Trackgenerator', 'NumSimulations')")]),
    ("test of another option", "bug", [(W, "if config.has_option('WindfieldInterface', 'gridLimit'):", "if config.has_option('Region', 'gridLimit'):")]),
    ("test dropped", "bug", [(W, "    if config.has_option('Input', 'Multipliers'):\n        multipliers =", "    if True:\n        multipliers =")]),
    ("boolean as text", "bug", [(H, "config.getboolean('Hazard', 'CalculateCI')", "config.get('Hazard', 'CalculateCI')")]),
    ("number as whole number", "bug", [(T, "config.getfloat('TrackGenerator', 'TimeStep')", "config.getint('TrackGenerator', 'TimeStep')")]),
    ("margin read as int in one place", "bug", [(W, "margin = config.getfloat('WindfieldInterface', 'Margin')", "margin = config.getint('WindfieldInterface', 'Margin')")]),
    ("new option without default", "bug", [(T, "    fmt = config.get('TrackGenerator', 'Format')\n", "    fmt = config.get('TrackGenerator', 'Format')\n    decay = config.getfloat('TrackGenerator', 'DecayRate')\n")]),
    ("wrong test direction", "bug", [(T, "if config.has_option('TrackGenerator', 'Frequency'):", "if not config.has_option('TrackGenerator', 'Frequency'):")]),
    ("fallback as third argument", "bug", [(W, "config.getboolean('Timeseries', 'Extract', fallback=False)", "config.getboolean('Timeseries', 'Extract', False)")]),
    ("handler for another error", "bug", [("PlotInterface/AutoPlotHazard.py", "        except Exception:\n            self.localityID", "        except ValueError:\n            self.localityID")]),
    ("parser never found", "bug", [(C, "'Hazard_calculateci': parseBool", "'Hazard_CalculateCI': parseBool")]),
    ("parser of another type", "bug", [(C, "'Hazard_minimumrecords': int", "'Hazard_minimumrecords': parseBool")]),
    ("dict default as text", "bug", [(T, "config.geteval('Region', 'GridSpace')", "config.get('Region', 'GridSpace')")]),
    ("default written as float", "bug", [(C, "MinimumRecords=50", "MinimumRecords=50.0")]),
    ("name misspelt in one place", "bug", [(H, "config.getint('Hazard', 'MinimumRecords')", "config.getint('Hazard', 'MinRecords')")]),
    ("helper reads", "same", [(H, "    yrsPerSim = config.getint('TrackGenerator', 'YearsPerSimulation')\n", "    yrsPerSim = readInt(config, 'TrackGenerator', 'YearsPerSimulation')\n"), (H, "def run(configFile", "def readInt(config, section, option):\n    return config.getint(section, option)\n\ndef run(configFile")]),
    ("option in lower case", "same", [(H, "'YearsPerSimulation'", "'yearspersimulation'")]),
    ("int of text", "same", [(H, "config.getint('TrackGenerator', 'YearsPerSimulation')", "int(config.get('TrackGenerator', 'YearsPerSimulation'))")]),
    ("fallback instead of test", "same", [(T, """    if config.has_option('TrackGenerator', 'YearsPerSimulation'):
        yrsPerSim = config.getint('TrackGenerator', 'YearsPerSimulation')
    else:
        yrsPerSim = 1
""", "    yrsPerSim = config.getint('TrackGenerator', 'YearsPerSimulation', fallback=1)\n")]),
    ("test turned round", "same", [(T, """    if config.has_option('TrackGenerator', 'gridLimit'):
        gridLimit = config.geteval('TrackGenerator', 'gridLimit')
    else:
        CalcTD = CalcTrackDomain(configFile)
        gridLimit = CalcTD.calcDomainFromFile()
""", """    if not config.has_option('TrackGenerator', 'gridLimit'):
        CalcTD = CalcTrackDomain(configFile)
        gridLimit = CalcTD.calcDomainFromFile()
    else:
        gridLimit = config.geteval('TrackGenerator', 'gridLimit')
""")]),
    ("conditional expression", "same", [(W, """    multipliers = None
    if config.has_option('Input', 'Multipliers'):
        multipliers = config.get('Input', 'Multipliers')
""", """    multipliers = config.get('Input', 'Multipliers') \\
        if config.has_option('Input', 'Multipliers') else None
""")]),
    ("sections as names", "same", [(D, "        self.datfile = config.get('Process', 'DatFile')\n", "        section = 'Process'\n        self.datfile = config.get(section, 'DatFile')\n")]),
    ("test kept in a variable", "same", [(W, "    if config.has_option('Input', 'Multipliers'):\n        multipliers =", "    given = config.has_option('Input', 'Multipliers')\n    if given:\n        multipliers =")]),
    ("defaults reordered", "same", [(C, "NumSimulations=500\nYearsPerSimulation=1\n", "YearsPerSimulation=1\nNumSimulations=500\n")]),
    ("boolean compared as text", "same", [(H, "    calculate_confidence = config.getboolean('Hazard', 'CalculateCI')\n", "    calculate_confidence = config.get('Hazard', 'CalculateCI') == 'True'\n")]),
]
CASES += [
 ('cap', 'bug', [('TrackGenerator/TrackGenerator.py', "config.getint('TrackGenerator', 'NumTimeSteps')", "config.getint('TrackGenerator', 'MaxTimeSteps')")]),
 ('sect', 'bug', [('TrackGenerator/TrackGenerator.py', "config.get('Input', 'MSLPVariableName')", "config.get('TrackGenerator', 'MSLPVariableName')")]),
 ('seedfloat', 'bug', [('TrackGenerator/TrackGenerator.py', "seasonSeed = config.getint('TrackGenerator', 'SeasonSeed')", "seasonSeed = config.getfloat('TrackGenerator', 'SeasonSeed')")]),
 ('boolstr', 'bug', [('wind/__init__.py', "if config.getboolean('Timeseries', 'Extract', fallback=False)", "if config.get('Timeseries', 'Extract', fallback=False)")]),
 ('has-other', 'bug', [('wind/__init__.py', "    if config.has_option('WindfieldInterface', 'gridLimit'):", "    if config.has_option('Region', 'gridLimit'):")]),
 ('mult', 'bug', [('wind/__init__.py', "    if config.has_option('Input', 'Multipliers'):\n", "    if config.has_section('Input'):\n")]),
 ('domain', 'bug', [('hazard/__init__.py', "gridLimit = config.geteval('Region', 'gridLimit')\n    nums", "gridLimit = config.get('Region', 'gridLimit')\n    nums")]),
 ('ci', 'bug', [('hazard/__init__.py', "config.getboolean('Hazard', 'CalculateCI')", "config.get('Hazard', 'CalculateCI')")]),
 ('default-del', 'bug', [('Utilities/config.py', 'Domain=bounded\n', '')]),
 ('default-ren', 'bug', [('Utilities/config.py', 'MinimumRecords=50', 'MinRecords=50')]),
 ('default-val', 'bug', [('Utilities/config.py', 'SampleSize=50', 'SampleSize=50.0')]),
 ('loglevel', 'bug', [('tcrm.py', "config.getboolean('Logging', 'Datestamp')", "config.getboolean('Logging', 'DateStamps')")]),
 ('kde', 'bug', [('StatInterface/StatInterface.py', "minSamplesCell = config.getint('StatInterface', 'minSamplesCell')", "minSamplesCell = config.getint('StatInterface', 'minSamples')")]),
 ('gridinc', 'bug', [('StatInterface/StatInterface.py', "config.geteval('Region', 'gridInc')", "config.geteval('Region', 'gridIncrement')")]),
]
