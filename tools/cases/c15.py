W = "wind/__init__.py"
EXP = "expected = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp', 'crs')"
CASES = [
 ("no slp", "bug", [(W, EXP, "expected = ('lat', 'lon', 'vmax', 'ua', 'va')")]),
 ("any", "bug", [(W, "return all(name in ncobj", "return any(name in ncobj")]),
 ("unreadable kept", "bug", [(W, '                        filename)\n            return False', '                        filename)\n            return True')]),
 ("narrow", "bug", [(W, "        except Exception:\n            log.warning(\"Existing gust", "        except KeyError:\n            log.warning(\"Existing gust")]),
 ("exists only", "bug", [(W, "            if self.gustFileComplete(dumpfile):", "            if os.path.exists(dumpfile):")]),
 ("size only", "bug", [(W, "            if self.gustFileComplete(dumpfile):", "            if os.path.isfile(dumpfile) and os.path.getsize(dumpfile) > 0:")]),
 ("other name", "bug", [(W, "                                 np.flipud(P)),\n                                dumpfile)", "                                 np.flipud(P)),\n                                pjoin(windfieldPath, 'gust.{1:03d}-{0:05d}.nc'.format(*track.trackId)))")]),
 ("order changed", "bug", [("Utilities/nctools.py", "    for v in variables.values():\n", "    for v in reversed(list(variables.values())):\n")]),
 ("create all first", "bug", [("Utilities/nctools.py", "    for v in variables.values():\n        missingkeys", "    for v in variables.values():\n        ncobj.createVariable(v['name'], v['dtype'], v['dims'])\n    for v in variables.values():\n        missingkeys"), ("Utilities/nctools.py", "        var = ncobj.createVariable(v['name'], v['dtype'],\n                                   v['dims'],\n                                   zlib=zlib,\n                                   complevel=complevel,\n                                   least_significant_digit=varlsd,\n                                   fill_value=nodata)\n", "        var = ncobj.variables[v['name']]\n")]),
 ("missing is complete", "bug", [(W, "        if not os.path.isfile(filename) or os.path.getsize(filename) == 0:\n            return False\n", "        if not os.path.isfile(filename) or os.path.getsize(filename) == 0:\n            return True\n")]),
 ("loop", "same", [(W, "                return all(name in ncobj.variables for name in expected)\n", "                for name in expected:\n                    if name not in ncobj.variables:\n                        return False\n                return True\n")]),
 ("inverted", "same", [(W, "            if self.gustFileComplete(dumpfile):", "            done = self.gustFileComplete(dumpfile)\n            if done:")]),
 ("no size", "same", [(W, "        if not os.path.isfile(filename) or os.path.getsize(filename) == 0:\n", "        if not os.path.isfile(filename):\n")]),
 ("subset", "same", [(W, "return all(name in ncobj.variables for name in expected)", "return set(expected).issubset(ncobj.variables)")]),
 ("never skip", "same", [(W, "            if self.gustFileComplete(dumpfile):", "            if False:")]),
 ("try finally", "same", [(W, "            with Dataset(filename, mode='r') as ncobj:\n", "            if True:\n                ncobj = Dataset(filename, mode='r')\n")]),
 ("helper", "same", [(W, "            if self.gustFileComplete(dumpfile):", "            if self._skip(dumpfile):"), (W, "    @staticmethod\n    def gustFileComplete", "    def _skip(self, name):\n        return self.gustFileComplete(name)\n\n    @staticmethod\n    def gustFileComplete")]),
]
CASES += [
 ('nolast', 'bug', [('wind/__init__.py', "'slp', 'crs')", "'slp')")]),
 ('size-only', 'bug', [('wind/__init__.py', '            log.warning("Existing gust file is incomplete or unreadable: %s",\n                        filename)\n            return False', '            log.warning("Existing gust file is incomplete or unreadable: %s",\n                        filename)\n            return os.path.getsize(filename) > 0')]),
 ('track0', 'bug', [('wind/__init__.py', "'gust.{0:03d}-{1:05d}.nc'.format(*track.trackId))", "'gust.{0:03d}-{0:05d}.nc'.format(*track.trackId))")]),
 ('break', 'bug', [('wind/__init__.py', '                         .format(*track.trackId))\n                continue', '                         .format(*track.trackId))\n                break')]),
 ('otherpath', 'bug', [('wind/__init__.py', 'dumpfile = self.gustFilename(windfieldPath, track)\n', "dumpfile = self.gustFilename(self.windfieldPath or '', track)\n"), ('wind/__init__.py', '                                 np.flipud(P)),\n                                dumpfile)', '                                 np.flipud(P)),\n                                self.gustFilename(windfieldPath, track))')]),
 ('saveonly', 'bug', [('wind/__init__.py', '                                 np.flipud(P)),\n                                dumpfile)', '                                 np.flipud(P)),\n                                plotfile)')]),
 ('crs-first', 'bug', [('Utilities/nctools.py', 'for v in variables.values():', 'for v in list(variables.values())[::-1]:')]),
]
CASES += [
 ('stale-dumpfile', 'bug', [('wind/__init__.py', '            dumpfile = self.gustFilename(windfieldPath, track)\n            if self.gustFileComplete(dumpfile):', "            dumpfile = self.gustFilename(windfieldPath, track)\n            if self.gustFileComplete(dumpfile.replace('.nc', '.png')) or \\\n                    self.gustFileComplete(dumpfile):")]),
 ('saved-else', 'bug', [('wind/__init__.py', '                                 np.flipud(P)),\n                                dumpfile)', "                                 np.flipud(P)),\n                                dumpfile if timeStepCallback is None else\n                                dumpfile.replace('gust', 'evolution'))")]),
]
CASES += [
 ('skip-break', 'bug', [('wind/__init__.py', '                         .format(*track.trackId))\n                continue', '                         .format(*track.trackId))\n                return')]),
]
CASES += [
 ('other-folder', 'same', [('wind/__init__.py', '            dumpfile = self.gustFilename(windfieldPath, track)\n', '            dumpfile = self.gustFilename(self.windfieldPath, track)\n')]),
]
