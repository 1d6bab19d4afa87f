"""Edits for C05."""
CASES = []
CASES += [
 ('swap', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteWindfield'):\n        doWindfieldCalculations(configFile)", "    if config.getboolean('Actions', 'ExecuteHazard'):\n        doWindfieldCalculations(configFile)")]),
 ('nobar', 'bug', [('tcrm.py', '        doTrackGeneration(configFile)\n\n    comm.barrier()\n', '        doTrackGeneration(configFile)\n')]),
 ('order', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteHazard'):\n        doHazard(configFile)\n\n    comm.barrier()\n\n", ''), ('tcrm.py', "    log.info('Completed TCRM')", "    if config.getboolean('Actions', 'ExecuteHazard'):\n        doHazard(configFile)\n\n    comm.barrier()\n    log.info('Completed TCRM')")]),
 ('and', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'CreateDatabase'):", "    if config.getboolean('Actions', 'CreateDatabase') and config.getboolean('Actions', 'ExecuteHazard'):")]),
 ('elif', 'bug', [('tcrm.py', "    comm.barrier()\n\n    if config.getboolean('Actions', 'ExecuteStat'):", "    elif config.getboolean('Actions', 'ExecuteStat'):")]),
 ('twice', 'bug', [('tcrm.py', "    comm.barrier()\n    if config.getboolean('Actions', 'ExecuteEvaluate'):\n        doEvaluation(configFile)", "    comm.barrier()\n    if config.getboolean('Actions', 'ExecuteEvaluate'):\n        doEvaluation(configFile)\n        doHazardPlotting(configFile)")]),
 ('same-tbl', 'same', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteHazard'):\n        doHazard(configFile)\n", "    runHazard = config.getboolean('Actions', 'ExecuteHazard')\n    if runHazard:\n        doHazard(configFile)\n")]),
]
CASES += [
 ('get-str', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteHazard'):", "    if config.get('Actions', 'ExecuteHazard'):")]),
 ('big-barrier', 'bug', [('tcrm.py', '        doWindfieldCalculations(configFile)\n\n    comm.barrier()', '        doWindfieldCalculations(configFile)\n\n    if comm.size > 2:\n        comm.barrier()')]),
 ('early', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'PlotData'):", "    if not config.getboolean('Actions', 'ExecuteHazard'):\n        return\n\n    if config.getboolean('Actions', 'PlotData'):")]),
 ('own-barrier', 'bug', [('tcrm.py', '        doHazard(configFile)\n\n    comm.barrier()\n', '        doHazard(configFile)\n        comm.barrier()\n')]),
 ('nested', 'bug', [('tcrm.py', "        doWindfieldCalculations(configFile)\n\n    comm.barrier()\n\n    if config.getboolean('Actions', 'ExecuteHazard'):\n        doHazard(configFile)\n", "        doWindfieldCalculations(configFile)\n        comm.barrier()\n        if config.getboolean('Actions', 'ExecuteHazard'):\n            doHazard(configFile)\n")]),
 ('rank-only', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteTrackGenerator'):\n", "    if config.getboolean('Actions', 'ExecuteTrackGenerator') and \\\n            comm.rank == 0:\n")]),
 ('plot-hazard', 'bug', [('tcrm.py', '    from PlotInterface.AutoPlotHazard import AutoPlotHazard\n', '    doHazard(configFile)\n    from PlotInterface.AutoPlotHazard import AutoPlotHazard\n')]),
 ('loop-same', 'same', [('tcrm.py', "    if config.getboolean('Actions', 'DownloadData'):\n        doDataDownload(configFile)\n\n    comm.barrier()\n\n    if config.getboolean('Actions', 'DataProcess'):\n        doDataProcessing(configFile)\n\n    comm.barrier()\n", "    for option, stage in (('DownloadData', doDataDownload),\n                          ('DataProcess', doDataProcessing)):\n        if config.getboolean('Actions', option):\n            stage(configFile)\n        comm.barrier()\n")]),
 ('loop-order', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'DownloadData'):\n        doDataDownload(configFile)\n\n    comm.barrier()\n\n    if config.getboolean('Actions', 'DataProcess'):\n        doDataProcessing(configFile)\n\n    comm.barrier()\n", "    for option, stage in (('DataProcess', doDataProcessing),\n                          ('DownloadData', doDataDownload)):\n        if config.getboolean('Actions', option):\n            stage(configFile)\n        comm.barrier()\n")]),
 ('loop-pairs', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteWindfield'):\n        doWindfieldCalculations(configFile)\n\n    comm.barrier()\n\n    if config.getboolean('Actions', 'ExecuteHazard'):\n        doHazard(configFile)\n\n    comm.barrier()\n", "    for option, stage in (('ExecuteWindfield', doWindfieldCalculations),\n                          ('ExecuteHazard', doHazard)):\n        if config.getboolean('Actions', option):\n            stage(configFile)\n    comm.barrier()\n")]),
 ('switch-cache', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'CreateDatabase'):", "    if config.getboolean('Actions', 'PlotHazard'):")]),
]
CASES += [
 ('haz-plot', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'PlotHazard'):", "    if config.getboolean('Actions', 'ExecuteHazard'):")]),
]
CASES += [
 ('stat-order', 'bug', [('tcrm.py', "    if config.getboolean('Actions', 'ExecuteStat'):", "    if config.getboolean('Actions', 'DataProcess'):")]),
]
