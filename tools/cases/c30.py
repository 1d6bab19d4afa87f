ST = "Utilities/stats.py"
GD = "StatInterface/GenerateDistributions.py"
GS = "StatInterface/generateStats.py"
TG = "TrackGenerator/TrackGenerator.py"
CASES = [
    ("columns and rows swapped", "bug", [
        (ST, "return int(i * lonCells + j)", "return int(j * lonCells + i)")]),
    ("truncated toward zero", "bug", [
        (ST, "j = (lon - gridLimit['xMin']) // gridSpace['x']",
         "j = int(lon / gridSpace['x']) - int(gridLimit['xMin'] / gridSpace['x'])")]),
    ("spacing of the other axis", "bug", [
        (ST, "i = (gridLimit['yMax'] - lat) // gridSpace['y']",
         "i = (gridLimit['yMax'] - lat) // gridSpace['x']")]),
    ("counted from the south", "bug", [
        (ST, "i = (gridLimit['yMax'] - lat) // gridSpace['y']",
         "i = (lat - gridLimit['yMin']) // gridSpace['y']")]),
    ("north edge rejected", "bug", [
        (ST, "lat > gridLimit['yMax']):", "lat >= gridLimit['yMax']):")]),
    ("east of the domain accepted", "bug", [
        (ST, "lon >= gridLimit['xMax'] or", "lon > gridLimit['xMax'] + gridSpace['x'] or")]),
    ("south not checked", "bug", [
        (ST, "            lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):",
         "            lat > gridLimit['yMax']):")]),
    ("corner by rows", "bug", [
        (ST, "indLat = cellNum // lon.size", "indLat = cellNum // lat.size"),
        (ST, "indLon = cellNum % lon.size", "indLon = cellNum % lat.size")]),
    ("corner by columns", "bug", [
        (ST, "indLat = cellNum // lon.size", "indLat = cellNum % lat.size"),
        (ST, "indLon = cellNum % lon.size", "indLon = cellNum // lat.size")]),
    ("valid one too many", "bug", [
        (ST, "numCells = latCells * lonCells - 1", "numCells = latCells * lonCells")]),
    ("last cell by area", "bug", [
        (ST, "    return latCells * lonCells - 1\n",
         "    return int((gridLimit['xMax'] - gridLimit['xMin']) / gridSpace['x']) * latCells - 1\n")]),
    ("cell number in one statement", "same", [
        (ST, "    return int(i * lonCells + j)",
         "    row = int(i)\n    col = int(j)\n    number = col + row * lonCells\n    return number")]),
    ("floor instead of division", "same", [
        (ST, "j = (lon - gridLimit['xMin']) // gridSpace['x']",
         "j = np.floor((lon - gridLimit['xMin']) / gridSpace['x'])")]),
    ("divmod corner", "same", [
        (ST, "    indLat = cellNum // lon.size\n    indLon = cellNum % lon.size\n",
         "    indLat, indLon = divmod(cellNum, lon.size)\n")]),
    ("valid in one expression", "same", [
        (ST, "    if cellNum > numCells:\n        return False\n    else:\n        return True\n",
         "    return cellNum <= numCells\n")]),
    ("valid through last", "same", [
        (ST, "    if cellNum > numCells:\n        return False\n    else:\n        return True\n",
         "    return bool(cellNum <= maxCellNum(gridLimit, gridSpace))\n")]),
    ("guard inverted", "same", [
        (ST, "    if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or\n            lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):",
         "    if not (gridLimit['xMin'] <= lon < gridLimit['xMax'] and\n            gridLimit['yMin'] < lat <= gridLimit['yMax']):")]),
    ("east limit from latitude spacing", "bug", [
        (GD, "eLon = cellLon + self.gridSpace['x']", "eLon = cellLon + self.gridSpace['y']")]),
    ("cell north of its corner", "bug", [
        (GS, "        nLat = cellLat\n        sLat = cellLat - self.gridSpace['y']\n\n        lon",
         "        nLat = cellLat + self.gridSpace['y']\n        sLat = cellLat\n\n        lon")]),
    ("spacing is the increment", "bug", [
        (GD, "        eLon = cellLon + self.gridSpace['x']\n",
         "        eLon = cellLon + self.gridInc['x']\n")]),
    ("land mask of the other flag", "bug", [
        (GS, "            ij = np.where(((lat >= sLat) & (lat < nLat)) &\n                       (lon >= wLon) & (lon < eLon) & (lsflag>0))\n        else:",
         "            ij = np.where(((lat >= sLat) & (lat < nLat)) &\n                       (lon >= wLon) & (lon < nLat) & (lsflag>0))\n        else:")]),
    ("loop leaves out the last cell", "bug", [
        (GD, "range(0, maxCellNum + 1)", "range(0, maxCellNum)")]),
    ("loop starts at one", "bug", [
        (GS, "for i in range(self.maxCell + 1):", "for i in range(1, self.maxCell + 1):")]),
    ("room for one less", "bug", [
        (GS, "parameters(self.maxCell+1)", "parameters(self.maxCell)")]),
    ("grid stored from the south", "bug", [
        (GS, "lat = np.arange(self.gridLimit['yMax'],self.gridLimit['yMin'],-1*self.gridSpace['y'])",
         "lat = np.arange(self.gridLimit['yMin'],\n                        self.gridLimit['yMax'],\n                        self.gridSpace['y'])")]),
    ("grid stored by columns", "bug", [
        (GS, "'values':self.coeffs.sig.reshape((ny,nx))", "'values':self.coeffs.sig.reshape((nx,ny)).T")]),
    ("cell asked with position swapped", "bug", [
        (TG, "cellNum = stats.getCellNum(lon[i], lat[i],", "cellNum = stats.getCellNum(lat[i], lon[i],")]),
    ("cell of the inner domain", "bug", [
        (TG, "            initCellNum = stats.getCellNum(genesisLon, genesisLat,\n                                           self.gridLimit,",
         "            initCellNum = stats.getCellNum(genesisLon, genesisLat,\n                                           self.innerGridLimit,")]),
    ("cell by increment", "bug", [
        (TG, "                                       self.gridLimit, self.gridSpace)",
         "                                       self.gridLimit, self.gridInc)")]),
    ("spacing from another option", "bug", [
        (TG, "gridSpace = config.geteval('Region', 'GridSpace')", "gridSpace = config.geteval('Region', 'GridInc')")]),
]
CASES += [
 ('guard-lat', 'bug', [('Utilities/stats.py', "lat <= gridLimit['yMin'] or lat > gridLimit['yMax']", "lat < gridLimit['yMin'] or lat > gridLimit['yMax']")]),
 ('ceil', 'bug', [('Utilities/stats.py', "    i = (gridLimit['yMax'] - lat) // gridSpace['y']", "    i = np.ceil((gridLimit['yMax'] - lat) / gridSpace['y'])")]),
 ('lonCells', 'bug', [('Utilities/stats.py', "    lonCells = np.size(\n        np.arange(gridLimit['xMin'], gridLimit['xMax'], gridSpace['x']))\n    j", "    lonCells = np.size(\n        np.arange(gridLimit['xMin'], gridLimit['xMax'] + gridSpace['x'], gridSpace['x']))\n    j")]),
 ('latarr', 'bug', [('Utilities/stats.py', "    lat = np.arange(gridLimit['yMax'], gridLimit['yMin'], -gridSpace['y'])\n    lon", "    lat = np.arange(gridLimit['yMin'], gridLimit['yMax'], gridSpace['y'])\n    lon")]),
 ('guard-xmax', 'bug', [('Utilities/stats.py', "lon >= gridLimit['xMax'] or\n", "lon >= gridLimit['xMax'] + gridSpace['x'] or\n")]),
 ('neg', 'bug', [('Utilities/stats.py', '    if cellNum < 0:\n        return False\n', '')]),
 ('max1', 'bug', [('Utilities/stats.py', '    return latCells * lonCells - 1', '    return latCells * lonCells')]),
]
CASES += [
 ('spacing', 'bug', [('Utilities/stats.py', "    if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or\n            lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):\n        raise ValueError", "    if (lon < gridLimit['xMin'] or lon > gridLimit['xMax'] or\n            lat < gridLimit['yMin'] or lat > gridLimit['yMax']):\n        raise ValueError")]),
]
CASES += [
 ('gs-nlat', 'bug', [('StatInterface/generateStats.py', "        nLat = cellLat\n        sLat = cellLat - self.gridSpace['y']", "        nLat = cellLat + self.gridSpace['y']\n        sLat = cellLat")]),
 ('gs-save', 'bug', [('StatInterface/generateStats.py', "        lat = np.arange(self.gridLimit['yMax'],self.gridLimit['yMin'],-1*self.gridSpace['y'])\n\n        nx", "        lat = np.arange(self.gridLimit['yMin'],self.gridLimit['yMax'],self.gridSpace['y'])\n\n        nx")]),
 ('gs-order', 'bug', [('StatInterface/generateStats.py', '            setattr(self.coeffs, var, ncdf.variables[var][:].flatten())', '            setattr(self.coeffs, var, ncdf.variables[var][:].T.flatten())')]),
 ('gs-order2', 'bug', [('StatInterface/generateStats.py', '            setattr(self.coeffs, var, ncdf.variables[var][:].flatten())', '            setattr(self.coeffs, var, ncdf.variables[var][::-1].flatten())')]),
]
CASES += [
 ('gd-maxcell', 'bug', [('StatInterface/GenerateDistributions.py', 'for cellNum in range(0, maxCellNum + 1):', 'for cellNum in range(0, maxCellNum):')]),
 ('gd-nlat', 'bug', [('StatInterface/GenerateDistributions.py', "        nLat = cellLat\n        sLat = cellLat - self.gridSpace['y']\n", "        sLat = cellLat\n        nLat = cellLat + self.gridSpace['y']\n")]),
]
