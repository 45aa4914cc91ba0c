F = 'static_stream.py'
BUGS = {
    'cr_end': [(F, '{offset}-{end-1}/{clen}', '{offset}-{end}/{clen}')],
    'clen_off': [(F, 'headers["Content-Length"] = str(end - offset)', 'headers["Content-Length"] = str(end - offset + 1)')],
    'clen_full': [(F, '        headers["Content-Length"] = str(end - offset)\n', '')],
    'min_clip': [(F, 'min(int(end) + 1, maxlen)', 'int(end) + 1')],
    'min_clip2': [(F, 'min(int(end) + 1, maxlen)', 'min(int(end), maxlen) + 1'), (F, 'end <= maxlen', 'end <= maxlen + 1')],
    'end_incl': [(F, 'min(int(end) + 1, maxlen)', 'min(int(end), maxlen)')],
    'suffix_max': [(F, 'max(0, maxlen - int(end))', 'maxlen - int(end)')],
    'suffix_one': [(F, 'max(0, maxlen - int(end)), maxlen', 'max(0, maxlen - int(end) - 1), maxlen')],
    'open_len': [(F, 'start, end = int(start), maxlen', 'start, end = int(start), maxlen - 1')],
    'guard_le': [(F, '0 <= start < end <= maxlen', '0 <= start <= end <= maxlen')],
    'guard_last': [(F, '0 <= start < end <= maxlen', '0 <= start < end < maxlen')],
    'guard_one': [(F, '0 <= start < end <= maxlen', '0 < start < end <= maxlen')],
    'nodecr': [(F, 'bytes_len -= len(part)', 'bytes_len -= 1')],
    'unbounded': [(F, 'yield part\n        part = fp.read(min(bytes_len, maxread))', 'yield part\n        part = fp.read(maxread)')],
    'chunkall': [(F, 'part = fp.read(min(bytes_len, maxread))\n    while', 'part = fp.read(bytes_len)\n    while')],
    'noseek': [(F, '    fp.seek(offset)\n', '')],
    'order': [(F, '        bytes_len -= len(part)\n        yield part\n        part = fp.read(min(bytes_len, maxread))', '        yield part\n        part = fp.read(min(bytes_len, maxread))\n        bytes_len -= len(part)')],
    'drop_last': [(F, 'while bytes_len > 0 and part', 'while bytes_len > 1 and part')],
    'iter_len': [(F, '_file_iter_range(body, offset, end - offset)', '_file_iter_range(body, offset, end)')],
    'iter_len2': [(F, '_file_iter_range(body, offset, end - offset)', '_file_iter_range(body, offset, end - offset - 1)')],
    'ims_gt': [(F, 'ims >= int(stats.st_mtime)', 'ims > int(stats.st_mtime)')],
    'ims_sub': [(F, 'ims >= int(stats.st_mtime)', 'ims >= stats.st_mtime')],
    'ims_inv': [(F, 'ims >= int(stats.st_mtime)', 'ims <= int(stats.st_mtime)')],
    'ims_eq': [(F, 'ims >= int(stats.st_mtime)', 'ims == int(stats.st_mtime)')],
    'ims_ctime': [(F, 'ims >= int(stats.st_mtime)', 'ims >= int(stats.st_ctime)')],
    'ims_tz_sign': [('common_helpers.py', '- (ts[9] or 0)', '+ (ts[9] or 0)')],
    'ims_tz_none': [('common_helpers.py', '- (ts[9] or 0)', '')],
    'head_len': [(F, "        if body:\n            body = _file", "        if not body:\n            headers['Content-Length'] = 0\n        else:\n            body = _file")],
    'head_range': [(F, "    if range_header:\n        first", "    if range_header and body:\n        first")],
    'empty_file': [(F, "    if range_header:\n        first", "    if range_header and clen:\n        first")],
    'second': [(F, "ranges_str.split(',', 1)[0]", "ranges_str.split(',')[-1]")],
    'notbytes': [(F, "open(filename, 'rb')", "open(filename, 'r')")],
    'r416': [(F, '        if not first_range:\n            return HTTPError(416, "Requested Range Not Satisfiable")\n', '        if not first_range:\n            return HTTPResponse(body, **headers)\n')],
    'status206': [(F, 'return HTTPResponse(body, status=206, **headers)', 'return HTTPResponse(body, status=200, **headers)')],
    'truthy_start': [(F, "        if not start:  # bytes", "        if not start or not int(start):  # bytes")],
}
REFS = {
    'partition': [(F, "first_range = ranges_str.split(',', 1)[0]", "first_range = ranges_str.partition(',')[0]"),
                  (F, "        start, end = first_range.split('-')\n", "        lo, hi = first_range.split('-')\n        start, end = lo, hi\n")],
    'partition2': [(F, "    try:\n        ranges_str = header.split('bytes=', 1)[1]\n    except IndexError:\n        # no-perix/unsupported-units\n        return\n", "    ranges_str = header.partition('bytes=')[2]\n    if not ranges_str:\n        return None\n")],
    'invert': [(F, "    if not first_range:\n            return HTTPError(416, \"Requested Range Not Satisfiable\")\n        offset, end = first_range\n", "    if first_range is None:\n            return HTTPError(416, \"Requested Range Not Satisfiable\")\n        offset = first_range[0]\n        end = first_range[1]\n")],
    'guards': [(F, "        if 0 <= start < end <= maxlen:\n            return start, end\n", "        if start < 0 or start >= end or end > maxlen:\n            return None\n        return start, end\n")],
    'whiletrue': [(F, "    part = fp.read(min(bytes_len, maxread))\n    while bytes_len > 0 and part:\n        bytes_len -= len(part)\n        yield part\n        part = fp.read(min(bytes_len, maxread))\n",
                   "    while bytes_len > 0:\n        part = fp.read(min(bytes_len, maxread))\n        if not part:\n            break\n        bytes_len -= len(part)\n        yield part\n")],
    'walrus': [(F, "    part = fp.read(min(bytes_len, maxread))\n    while bytes_len > 0 and part:\n        bytes_len -= len(part)\n        yield part\n        part = fp.read(min(bytes_len, maxread))\n",
                "    left = bytes_len\n    while left > 0 and (part := fp.read(min(left, maxread))):\n        left = left - len(part)\n        yield part\n")],
    'upcount': [(F, "    part = fp.read(min(bytes_len, maxread))\n    while bytes_len > 0 and part:\n        bytes_len -= len(part)\n        yield part\n        part = fp.read(min(bytes_len, maxread))\n",
                 "    sent = 0\n    while True:\n        want = min(bytes_len - sent, maxread)\n        if want <= 0:\n            return\n        part = fp.read(want)\n        if not part:\n            return\n        sent += len(part)\n        yield part\n")],
    'helper': [(F, "    ims = env_get('HTTP_IF_MODIFIED_SINCE')\n    ims = parse_date(ims.split(\";\")[0].strip()) if ims else None\n    if ims is not None and ims >= int(stats.st_mtime):\n", "    if _not_modified(env_get, stats):\n"),
               (F, "def static_file(", "def _not_modified(env_get, stats):\n    value = env_get('HTTP_IF_MODIFIED_SINCE')\n    if not value:\n        return False\n    when = parse_date(value.split(';', 1)[0].strip())\n    if when is None:\n        return False\n    return int(stats.st_mtime) <= when\n\n\ndef static_file(")],
    'helper2': [(F, "        offset, end = first_range\n        headers[\"Content-Range\"] = f\"bytes {offset}-{end-1}/{clen}\"\n        headers[\"Content-Length\"] = str(end - offset)\n", "        offset, end = first_range\n        length = end - offset\n        headers.update({'Content-Range': 'bytes %d-%d/%d' % (offset, offset + length - 1, clen), 'Content-Length': str(length)})\n")],
    'branches': [(F, "        if not start:  # bytes=-100    -> last 100 bytes\n            start, end = max(0, maxlen - int(end)), maxlen\n        elif not end:  # bytes=100-    -> all but the first 99 bytes\n            start, end = int(start), maxlen\n        else:          # bytes=100-200 -> bytes 100-200 (inclusive)\n            start, end = int(start), min(int(end) + 1, maxlen)\n",
                  "        if start:\n            lo = int(start)\n            hi = maxlen\n            if end:\n                hi = min(int(end) + 1, maxlen)\n        else:\n            lo = maxlen - int(end)\n            if lo < 0:\n                lo = 0\n            hi = maxlen\n        start, end = lo, hi\n")],
    'format': [(F, 'f"bytes {offset}-{end-1}/{clen}"', "'bytes {}-{}/{}'.format(offset, end - 1, clen)")],
    'size_helper': [(F, "clen = stats.st_size", "clen = os_path.getsize(filename)")],
    'dict': [(F, 'headers = dict()', 'headers = {}'), (F, "    if range_header:\n        first_range = get_first_range(range_header, clen)\n", "    if not range_header:\n        return HTTPResponse(body, **headers)\n    else:\n        first_range = get_first_range(range_header, clen)\n"), (F, "        return HTTPResponse(body, status=206, **headers)\n    return HTTPResponse(body, **headers)", "        return HTTPResponse(body, status=206, **headers)")],
    'mtime': [(F, "ims >= int(stats.st_mtime)", "not ims < int(stats.st_mtime)")],
    'tz': [('common_helpers.py', "        return calendar.timegm(ts[:8] + (0,)) - (ts[9] or 0)", "        offset = ts[9]\n        stamp = calendar.timegm(ts[:8] + (0,))\n        if offset:\n            stamp -= offset\n        return stamp")],
}
