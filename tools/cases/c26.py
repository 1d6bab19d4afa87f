F = "ProcessMultipliers/processMultipliers.py"
GET = """    while True:
        try:
            segment = segment_queue.get_nowait()
        except queue.Empty:
            # Another thread may have taken the last segment
            break
        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
"""
WR = """    with threadLock_out:
        dst_band.WriteArray(local, x_offset, y_offset)
        dst_band.FlushCache()
"""
WG = """    with threadLock_gust:
        wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
"""
LOOP = """        for y_offset in range(0, rows, processing_segment_size):
            height = rows - y_offset if y_offset + processing_segment_size > rows else processing_segment_size
            for x_offset in range(0, cols, processing_segment_size):
                segment_count = segment_count + 1
                width = cols - x_offset if x_offset + processing_segment_size > cols else processing_segment_size
                segment_queue.put([x_offset, y_offset, width, height, segment_count, total_segments])
"""
SUB = """            future_requests.append(e.submit(call_process_multiplier_segment, segment_queue, source_dir_bands, wind_prj, bear_prj, dst_band))
"""
WAIT = """        futures.wait(future_requests, return_when='FIRST_EXCEPTION')
        for task in future_requests:
            task.result()  # Called to obtain exception information if any
"""
CASES = [
    ("test then wait", "bug", [(F, GET, """    while not segment_queue.empty():
        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
""")]),
    ("wait forever", "bug", [(F, "segment_queue.get_nowait()",
                              "segment_queue.get()")]),
    ("empty not caught", "bug", [(F, GET, """    while not segment_queue.empty():
        segment = segment_queue.get_nowait()
        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
""")]),
    ("goes on when empty", "bug", [(F, """            # Another thread may have taken the last segment
            break
""", "            continue\n")]),
    ("drops one segment", "bug", [(F, "            segment = segment_queue.get_nowait()\n", """            segment = segment_queue.get_nowait()
            if segment[4] % 10 == 0:
                segment = segment_queue.get_nowait()
""")]),
    ("flush outside the lock", "bug", [(F, "        dst_band.FlushCache()\n",
                                        "    dst_band.FlushCache()\n")]),
    ("write without lock", "bug", [(F, WR, """    dst_band.WriteArray(local, x_offset, y_offset)
    dst_band.FlushCache()
""")]),
    ("nodata outside the lock", "bug", [(F, "    data_array = []\n    with threadLock_m4:\n        for band in band_sources:\n", """    data_array = []
    missing = [band.GetNoDataValue() for band in band_sources]
    with threadLock_m4:
        for band in band_sources:
""")]),
    ("bands without lock", "bug", [(F, "    with threadLock_m4:\n        for band in band_sources:\n", "    if True:\n        for band in band_sources:\n")]),
    ("lock made in the thread", "bug", [(F, WG, """    with threading.Lock():
        wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
""")]),
    ("two locks for one band", "bug", [(F, WR, """    with threadLock_out:
        dst_band.WriteArray(local, x_offset, y_offset)
    with threadLock_gust:
        dst_band.FlushCache()
""")]),
    ("not released after an error", "bug", [(F, WG, """    threadLock_gust.acquire()
    wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
    threadLock_gust.release()
""")]),
    ("not released on return", "bug", [(F, WG, """    threadLock_gust.acquire()
    try:
        wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
    except RuntimeError:
        return
    threadLock_gust.release()
""")]),
    ("same lock twice", "bug", [(F, "    m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)\n", """    with threadLock_m4:
        m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)
""")]),
    ("locks in two orders", "bug", [(F, "    with threadLock_bear:\n        bear_data = ", "    with threadLock_bear, threadLock_out:\n        bear_data = "),
                                    (F, WR, """    with threadLock_out:
        with threadLock_bear:
            dst_band.WriteArray(local, x_offset, y_offset)
            dst_band.FlushCache()
""")]),
    ("match raster without lock", "bug", [(F, "    with threadLock_match:\n", "    if True:\n")]),
    ("last row dropped", "bug", [(F, "range(0, rows, processing_segment_size)",
                                  "range(0, rows - 1, processing_segment_size)")]),
    ("height clipped by columns", "bug", [(F, "y_offset + processing_segment_size > rows", "y_offset + processing_segment_size > cols")]),
    ("overlap by one", "bug", [(F, "width = cols - x_offset if", "width = cols - x_offset + 1 if")]),
    ("queue too small", "bug", [(F, "total_segments = int(math.ceil(1.0 * cols / processing_segment_size)", "total_segments = int(math.floor(1.0 * cols / processing_segment_size)")]),
    ("full segments only", "bug", [(F, "                segment_queue.put([", """                if width < processing_segment_size and height < processing_segment_size:
                    continue
                segment_queue.put([""")]),
    ("written at swapped place", "bug", [(F, "dst_band.WriteArray(local, x_offset, y_offset)", "dst_band.WriteArray(local, y_offset, x_offset)")]),
    ("multipliers of another window", "bug", [(F, "band.ReadAsArray(segment_info[0], segment_info[1], segment_info[2], segment_info[3])", "band.ReadAsArray(segment_info[0], segment_info[1], segment_info[3], segment_info[2])")]),
    ("whole bearing raster", "bug", [(F, "bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)", "bear_data = bear_prj.ReadAsArray()")]),
    ("last segment skipped", "bug", [(F, "    with threadLock_out:\n        dst_band.Write", "    if segment_id >= total_segments and total_segments > 1:\n        return\n    with threadLock_out:\n        dst_band.Write")]),
    ("threads started first", "bug", [(F, "        for _ in range(max_working_threads):\n" + SUB, ""), (F, LOOP, "        for _ in range(max_working_threads):\n" + SUB + LOOP)]),
    ("no waiting", "bug", [(F, "    with futures.ThreadPoolExecutor(max_workers=max_working_threads) as e:\n", "    e = futures.ThreadPoolExecutor(max_workers=max_working_threads)\n    if True:\n"), (F, WAIT, "")]),
    ("flush before waiting", "bug", [(F, WAIT, "        dst_ds.FlushCache()\n" + WAIT)]),
    ("acquire and finally", "same", [(F, WG, """    threadLock_gust.acquire()
    try:
        wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
    finally:
        threadLock_gust.release()
""")]),
    ("helper reads a band", "same", [(F, WG, """    wind_data = readWindow(wind_prj, threadLock_gust, x_offset, y_offset, width, height)
"""), (F, "def processMultiplierSegment(", """def readWindow(band, lock, x_offset, y_offset, width, height):
    with lock:
        return band.ReadAsArray(x_offset, y_offset, width, height)


def processMultiplierSegment(""")]),
    ("one lock for all", "same", [(F, "    with threadLock_bear:\n", "    with threadLock_gust:\n")]),
    ("atomic test", "same", [(F, GET, """    while True:
        with threadLock_match:
            if segment_queue.empty():
                break
            segment = segment_queue.get()
        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
""")]),
    ("get without block", "same", [(F, "segment_queue.get_nowait()", "segment_queue.get(block=False)")]),
    ("return when empty", "same", [(F, """            # Another thread may have taken the last segment
            break
""", "            return\n")]),
    ("min for the widths", "same", [(F, "height = rows - y_offset if y_offset + processing_segment_size > rows else processing_segment_size", "height = min(processing_segment_size, rows - y_offset)")]),
    ("columns first", "same", [(F, LOOP, """        for x_offset in range(0, cols, processing_segment_size):
            width = cols - x_offset if x_offset + processing_segment_size > cols else processing_segment_size
            for y_offset in range(0, rows, processing_segment_size):
                height = rows - y_offset if y_offset + processing_segment_size > rows else processing_segment_size
                segment_count = segment_count + 1
                segment_queue.put([x_offset, y_offset, width, height, segment_count, total_segments])
""")]),
    ("segments from a helper", "same", [(F, LOOP, """        for segment in makeSegments(cols, rows, processing_segment_size, total_segments):
            segment_queue.put(segment)
"""), (F, "def call_process_multiplier_segment(", """def makeSegments(cols, rows, size, total):
    segments = []
    for y in range(0, rows, size):
        for x in range(0, cols, size):
            segments.append([x, y, min(size, cols - x), min(size, rows - y), len(segments) + 1, total])
    return segments


def call_process_multiplier_segment(""")]),
    ("while loop over rows", "same", [(F, LOOP, """        y_offset = 0
        while y_offset < rows:
            height = min(processing_segment_size, rows - y_offset)
            x_offset = 0
            while x_offset < cols:
                width = min(processing_segment_size, cols - x_offset)
                segment_count = segment_count + 1
                segment_queue.put([x_offset, y_offset, width, height, segment_count, total_segments])
                x_offset += processing_segment_size
            y_offset += processing_segment_size
""")]),
    ("unbounded queue", "same", [(F, "queue.Queue(total_segments)", "queue.Queue()")]),
    ("wait for all", "same", [(F, "futures.wait(future_requests, return_when='FIRST_EXCEPTION')", "futures.wait(future_requests)")]),
    ("results only", "same", [(F, "        futures.wait(future_requests, return_when='FIRST_EXCEPTION')\n", "")]),
    ("segment unpacked later", "same", [(F, "    m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)\n", "    m4_all = loadAllBandArrayData(source_dir_band, segment_info=[x_offset, y_offset, width, height])\n")]),
]
CASES += [
 ('seg-h', 'bug', [('ProcessMultipliers/processMultipliers.py', 'rows - y_offset if y_offset + processing_segment_size > rows else', 'rows - y_offset if y_offset + processing_segment_size > cols else')]),
 ('submit1', 'bug', [('ProcessMultipliers/processMultipliers.py', 'for _ in range(max_working_threads):\n            future', 'for _ in range(max_working_threads - 1):\n            future')]),
 ('sleep', 'bug', [('ProcessMultipliers/processMultipliers.py', '        except queue.Empty:\n', '        except queue.Empty:\n            if segment_queue.empty():\n                continue\n')]),
 ('global-read', 'bug', [('ProcessMultipliers/processMultipliers.py', "    local = np.zeros([height, width], dtype='float32')", "    global LOCAL\n    LOCAL = np.zeros([height, width], dtype='float32')"), ('ProcessMultipliers/processMultipliers.py', '        local[idx] = wind_data[idx] * m4[idx]\n    with threadLock_out:\n        dst_band.WriteArray(local,', '        LOCAL[idx] = wind_data[idx] * m4[idx]\n    with threadLock_out:\n        dst_band.WriteArray(LOCAL,')]),
 ('buf', 'bug', [('ProcessMultipliers/processMultipliers.py', "    local = np.zeros([height, width], dtype='float32')", '    local = BUFFER[:height, :width]\n    local[:] = 0.'), ('ProcessMultipliers/processMultipliers.py', 'def processMultiplierSegment(', "BUFFER = np.zeros((4096, 4096), dtype='float32')\n\n\ndef processMultiplierSegment(")]),
 ('outlock', 'same', [('ProcessMultipliers/processMultipliers.py', '    with threadLock_out:\n        dst_band.WriteArray', '    with threadLock_gust:\n        dst_band.WriteArray')]),
 ('nowaitexc', 'bug', [('ProcessMultipliers/processMultipliers.py', '        for task in future_requests:\n            task.result()  # Called to obtain exception information if any\n', '')]),
 ('seg-first', 'bug', [('ProcessMultipliers/processMultipliers.py', '                segment_count = segment_count + 1\n', '                segment_count = segment_count + 1\n                if segment_count == 1:\n                    continue\n')]),
 ('put-back', 'bug', [('ProcessMultipliers/processMultipliers.py', '        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)\n', '        try:\n            processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)\n        except RuntimeError:\n            segment_queue.put(segment)\n')]),
 ('wh', 'bug', [('ProcessMultipliers/processMultipliers.py', '[x_offset, y_offset, width, height, segment_id, total_segments] = segment', '[x_offset, y_offset, height, width, segment_id, total_segments] = segment')]),
 ('global-seg', 'same', [('ProcessMultipliers/processMultipliers.py', "    local = np.zeros([height, width], dtype='float32')", "    global LOCAL\n    LOCAL = local = np.zeros([height, width], dtype='float32')")]),
 ('lock-mlt', 'bug', [('ProcessMultipliers/processMultipliers.py', '    m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)', '    with threadLock_m4:\n        m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)')]),
]
CASES += [
 ('thread-lock-bear', 'bug', [('ProcessMultipliers/processMultipliers.py', '    with threadLock_bear:\n        bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)\n', '    bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)\n')]),
 ('lock-twin', 'bug', [('ProcessMultipliers/processMultipliers.py', '    with threadLock_out:\n        dst_band.WriteArray(local, x_offset, y_offset)\n        dst_band.FlushCache()\n', '    with threadLock_out:\n        dst_band.WriteArray(local, x_offset, y_offset)\n    dst_band.FlushCache()\n')]),
 ('h-swap', 'bug', [('ProcessMultipliers/processMultipliers.py', 'height = rows - y_offset if y_offset + processing_segment_size > rows', 'height = rows - y_offset if y_offset + processing_segment_size > cols')]),
 ('get-block', 'bug', [('ProcessMultipliers/processMultipliers.py', '            segment = segment_queue.get_nowait()\n', '            segment = segment_queue.get()\n')]),
 ('write-xy', 'bug', [('ProcessMultipliers/processMultipliers.py', 'dst_band.WriteArray(local, x_offset, y_offset)', 'dst_band.WriteArray(local, y_offset, x_offset)')]),
]
