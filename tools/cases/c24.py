P = "Utilities/process.py"
F = "Utilities/files.py"
W = "fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')"
SETBODY = """    global GLOBAL_PROCFILES
    if directory in GLOBAL_PROCFILES:
        if filename in GLOBAL_PROCFILES[directory]:
            if attribute in GLOBAL_PROCFILES[directory][filename]:
                GLOBAL_PROCFILES[directory][filename][attribute] = value
            else:
                GLOBAL_PROCFILES[directory][filename].update({attribute:value})
        else:
            GLOBAL_PROCFILES[directory].update({filename:{attribute:value}})
    else:
        GLOBAL_PROCFILES.update({directory:{filename:{attribute:value}}})
"""
CASES = [
    ("unchanged", "same", []),
    ("date and checksum swapped in the line", "bug", [(P, W, "fh.write('|'.join([directory, fname, md5sum, moddate]) + '\\n')")]),
    ("date and checksum swapped from flGetStat", "bug", [(P, "directory, fname, md5sum, moddate = flGetStat(filename)",
        "directory, fname, moddate, md5sum = flGetStat(filename)")]),
    ("read in another order", "bug", [(P, "directory, filename, moddate, md5sum = line.split('|')",
        "directory, filename, md5sum, moddate = line.split('|')")]),
    ("checksum keeps the line end", "bug", [(P, "md5sum.rstrip('\\n'))", "md5sum)")]),
    ("another separator", "bug", [(P, W, W.replace("'|'", "','"))]),
    ("no line end", "bug", [(P, W, "fh.write('|'.join([directory, fname, moddate, md5sum]))")]),
    ("ledger overwritten", "bug", [(P, "open(GLOBAL_DATFILE, 'a')", "open(GLOBAL_DATFILE, 'w')")]),
    ("whole path as name", "bug", [(P, W, "fh.write('|'.join([directory, directory, moddate, md5sum]) + '\\n')")]),
    ("time of change of the inode", "bug", [(F, "moddate = ctime(si.st_mtime)", "moddate = ctime(si.st_ctime)")]),
    ("folder replaced by a new file", "bug", [(P, "            GLOBAL_PROCFILES[directory].update({filename:{attribute:value}})",
        "            GLOBAL_PROCFILES.update({directory:{filename:{attribute:value}}})")]),
    ("file replaced by a new attribute", "bug", [(P, "GLOBAL_PROCFILES[directory][filename].update({attribute:value})",
        "GLOBAL_PROCFILES[directory].update({filename:{attribute:value}})")]),
    ("attribute not replaced", "bug", [(P, "                GLOBAL_PROCFILES[directory][filename][attribute] = value\n", "                pass\n")]),
    ("processed if any value", "bug", [(P, "if pGetProcessedEntry(directory, filename, attribute) == value:",
        "if pGetProcessedEntry(directory, filename, attribute):")]),
    ("processed unless different", "bug", [(P, "if pGetProcessedEntry(directory, filename, attribute) == value:",
        "if pGetProcessedEntry(directory, filename, attribute) in (0, value):")]),
    ("only the first part is summed", "bug", [(F, """    while 1:
        chunk = f.read(CHUNK)
        if not chunk:
            break
        m.update(chunk)
""", """    m.update(f.read(CHUNK))
""")]),
    ("only the last part is summed", "bug", [(F, """            break
        m.update(chunk)
""", """            break
        m = hashlib.md5()
        m.update(chunk)
""")]),
    ("name of the ledger not kept", "bug", [(P, "        GLOBAL_DATFILE = datFileName\n", "")]),
    ("memory holds another attribute", "bug", [(P, "pSetProcessedEntry(directory, fname, 'moddate', moddate)",
        "pSetProcessedEntry(directory, fname, 'moddate', md5sum)")]),
    # same
    ("f-string", "same", [(P, W, "fh.write(f'{directory}|{fname}|{moddate}|{md5sum}\\n')")]),
    ("with", "same", [(P, """            fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')
            fh.close()
""", """            with fh:
                fields = [directory, fname]
                fields.append(moddate)
                fields.append(md5sum)
                fh.write('|'.join(fields) + '\\n')
""")]),
    ("line stripped first", "same", [(P, """                line.rstrip('\\n')
                directory, filename, moddate, md5sum = line.split('|')
                pSetProcessedEntry(directory, filename, 'moddate',
                                   moddate.rstrip('\\n'))
                pSetProcessedEntry(directory, filename, 'md5sum',
                                   md5sum.rstrip('\\n'))
""", """                fields = line.rstrip('\\n').split('|')
                directory, filename = fields[:2]
                pSetProcessedEntry(directory, filename, 'moddate', fields[2])
                pSetProcessedEntry(directory, filename, 'md5sum', fields[-1])
""")]),
    ("setdefault", "same", [(P, SETBODY, """    global GLOBAL_PROCFILES
    entry = GLOBAL_PROCFILES.setdefault(directory, {})
    entry = entry.setdefault(filename, {})
    entry[attribute] = value
""")]),
    ("early returns", "same", [(P, SETBODY, """    global GLOBAL_PROCFILES
    if directory not in GLOBAL_PROCFILES:
        GLOBAL_PROCFILES[directory] = {}
    if filename not in GLOBAL_PROCFILES[directory]:
        GLOBAL_PROCFILES[directory][filename] = {}
    GLOBAL_PROCFILES[directory][filename][attribute] = value
""")]),
    ("get with default", "same", [(P, """    try:
        value = GLOBAL_PROCFILES[directory][filename][attribute]
        rc = value
    except KeyError:
        rc = 0
    return rc
""", """    files = GLOBAL_PROCFILES.get(directory, {})
    return files.get(filename, {}).get(attribute, 0)
""")]),
    ("helper for the line", "same", [(P, W, "fh.write(_line(directory, fname, moddate, md5sum))"),
        (P, "def pDeleteDatFile():", "def _line(*fields):\n    return '|'.join(fields) + '\\n'\n\ndef pDeleteDatFile():")]),
    ("iter with sentinel", "same", [(F, """    while 1:
        chunk = f.read(CHUNK)
        if not chunk:
            break
        m.update(chunk)
""", """    for chunk in iter(lambda: f.read(CHUNK), b''):
        m.update(chunk)
""")]),
    ("returns equality", "same", [(P, """    rc = False
    if pGetProcessedEntry(directory, filename, attribute) == value:
        rc = True
    else:
        rc = False
    return rc
""", """    return value == pGetProcessedEntry(directory, filename, attribute)
""")]),
]
CASES += [
 ('folder-case', 'bug', [('Utilities/process.py', "fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')", "fh.write('|'.join([directory.lower(), fname, moddate, md5sum]) + '\\n')")]),
 ('datefmt', 'bug', [('Utilities/process.py', "                pSetProcessedEntry(directory, filename, 'moddate',\n                                   moddate.rstrip('\\n'))", "                pSetProcessedEntry(directory, filename, 'moddate',\n                                   moddate.split(' ')[0])")]),
 ('default', 'same', [('Utilities/process.py', '    except KeyError:\n        rc = 0', '    except KeyError:\n        rc = None')]),
 ('startswith', 'bug', [('Utilities/process.py', 'if pGetProcessedEntry(directory, filename, attribute) == value:', 'if str(value).startswith(str(pGetProcessedEntry(directory, filename, attribute))):')]),
 ('first-only', 'bug', [('Utilities/process.py', '            for line in fh:\n                line.rstrip', "            for line in fh:\n                if line.startswith('#'):\n                    continue\n                line.rstrip")]),
 ('skip-known', 'bug', [('Utilities/process.py', "                directory, filename, moddate, md5sum = line.split('|')\n", "                directory, filename, moddate, md5sum = line.split('|')\n                if pGetProcessedEntry(directory, filename, 'md5sum'):\n                    continue\n")]),
 ('strip-sum', 'bug', [('Utilities/process.py', "md5sum.rstrip('\\n'))\n            rc", "md5sum.rstrip('\\n0'))\n            rc")]),
 ('rc', 'bug', [('Utilities/process.py', "        else:\n            pSetProcessedEntry(directory, fname, 'md5sum', md5sum)", "        else:\n            if pAlreadyProcessed(directory, fname, 'moddate', moddate):\n                fh.close()\n                return 1\n            pSetProcessedEntry(directory, fname, 'md5sum', md5sum)")]),
 ('same', 'same', [('Utilities/process.py', '    if pGetProcessedEntry(directory, filename, attribute) == value:\n        rc = True\n    else:\n        rc = False\n', '    rc = pGetProcessedEntry(directory, filename, attribute) == value\n')]),
]
CASES += [
 ('lower', 'bug', [('Utilities/process.py', '    global GLOBAL_PROCFILES\n    if directory in GLOBAL_PROCFILES:\n        if filename in GLOBAL_PROCFILES[directory]:\n            if attribute in', '    global GLOBAL_PROCFILES\n    filename = filename.lower()\n    if directory in GLOBAL_PROCFILES:\n        if filename in GLOBAL_PROCFILES[directory]:\n            if attribute in')]),
]
CASES += [
 ('md5-mod', 'bug', [('Utilities/process.py', "fh.write('|'.join([directory, fname, moddate, md5sum]) + '\\n')", "fh.write('|'.join([directory, fname, md5sum, moddate]) + '\\n')")]),
 ('mode-w', 'bug', [('Utilities/process.py', "fh = open(GLOBAL_DATFILE, 'a')", "fh = open(GLOBAL_DATFILE, 'w')")]),
 ('in-value', 'bug', [('Utilities/process.py', '    if pGetProcessedEntry(directory, filename, attribute) == value:\n', '    if pGetProcessedEntry(directory, filename, attribute) >= value:\n')]),
 ('skip-blank', 'bug', [('Utilities/process.py', "            for line in fh:\n                line.rstrip('\\n')\n", "            for line in fh.readlines()[1:]:\n                line.rstrip('\\n')\n")]),
]
