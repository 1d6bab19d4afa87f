"""Edits for C11."""
CASES = []
CASES += [
 ('inhg', 'bug', [('Utilities/metutils.py', 'hPa = {"kPa":0.1, "Pa":100., "inHg":0.02953,', 'hPa = {"kPa":0.1, "Pa":100., "inHg":0.02963,')]),
 ('pre', 'bug', [('Utilities/metutils.py', 'convert_pre = {"F":{"C":-32.}}', 'convert_pre = {"F":{"C":-30.}}')]),
 ('kelvin', 'bug', [('Utilities/metutils.py', '"K":{"C":-273.}}', '"K":{"C":-273.15}}')]),
 ('alias', 'bug', [('Utilities/metutils.py', "    if outunits == 'kmh':\n        outunits = 'kph'\n", '')]),
 ('alias-in', 'bug', [('Utilities/metutils.py', '    if inunits == "m/s":\n        inunits = "mps"\n', '    if inunits == "m/s":\n        inunits = "mph"\n')]),
 ('order', 'bug', [('Utilities/metutils.py', '            value = value + convert_pre[inunits][outunits]\n\n    if inunits in convert:\n        if outunits in convert[inunits]:\n            value = value * convert[inunits][outunits]\n', '            value = value * convert[inunits][outunits]\n            value = value + convert_pre[inunits][outunits]\n\n    elif inunits in convert:\n        if outunits in convert[inunits]:\n            value = value * convert[inunits][outunits]\n')]),
 ('table', 'bug', [('Utilities/metutils.py', '"Pascals":pascals,', '"Pascals":kPa,')]),
 ('missing-back', 'bug', [('Utilities/metutils.py', 'mi = {"km":1.60934, "m":1609.34, "deg":0.014482}', 'mi = {"km":1.60934, "m":1609.34}')]),
 ('lookup', 'same', [('Utilities/metutils.py', 'value = value * convert[inunits][outunits]', 'value = value / convert[outunits][inunits] if outunits in convert[inunits] and inunits != "kts" else value * convert[inunits][outunits]')]),
 ('inplace', 'bug', [('Utilities/metutils.py', '    value = ma.array(value, dtype=float)', '    value = ma.array(value, dtype=int)')]),
 ('equal-first', 'bug', [('Utilities/metutils.py', '    if inunits == outunits:\n        # Do nothing:\n        return value\n', '    if inunits == outunits:\n        # Do nothing:\n        return value * 1.0 if inunits in ("mps", "kph", "kts") else value - 0.5\n')]),
 ('div', 'same', [('Utilities/metutils.py', 'value = value * convert[inunits][outunits]', 'factor = convert[inunits][outunits]\n            value = factor * value')]),
 ('get', 'same', [('Utilities/metutils.py', '    if inunits in convert_pre:\n        if outunits in convert_pre[inunits]:\n            value = value + convert_pre[inunits][outunits]\n', '    value = value + convert_pre.get(inunits, {}).get(outunits, 0.)\n')]),
 ('aliases-dict', 'same', [('Utilities/metutils.py', '    if inunits == \'kmh\':\n        inunits = \'kph\'\n    if inunits == "m/s":\n        inunits = "mps"\n    if outunits == \'kmh\':\n        outunits = \'kph\'\n    if outunits == "m/s":\n        outunits = "mps"\n', '    names = {"kmh": "kph", "m/s": "mps"}\n    inunits = names.get(inunits, inunits)\n    outunits = names.get(outunits, outunits)\n')]),
]
