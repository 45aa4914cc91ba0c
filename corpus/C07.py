M = 'request_pkg/multipart.py'
B = 'request_pkg/body_mixin.py'
H = 'request_pkg/helpers.py'
P = "    _patt = re.compile(r'(.+?)(=(\"[^\"]*\"\\s*|.+?))?(;|$)')\n"
BUGS = {
    'patt_old': [(M, P, "    _patt = re.compile(r'(.+?)(=(.+?))?(;|$)')\n")],
    'patt_greedy': [(M, P, "    _patt = re.compile(r'(.+?)(=(\".*\"|.+?))?(;|$)')\n")],
    'unescape': [(M, "                v = v.strip().strip('\"')\n", "                v = v.strip().strip('\"').replace('\\\\', '')\n")],
    'strip2': [(M, "                v = v.strip().strip('\"')\n", "                v = v.strip().strip('\"').strip()\n")],
    'basename': [(M, "            self.file = BytesIOProxy(src, *data_section)\n", "            self.filename = self.filename.replace('\\\\', '/').split('/')[-1]\n            self.file = BytesIOProxy(src, *data_section)\n")],
    'fname_empty': [(M, "        if self.filename is not None:\n", "        if self.filename:\n")],
    'fname_empty2': [(B, "            if item.filename is not None:\n", "            if item.filename:\n")],
    'ascii': [(M, "self.value = src.read(sz).decode()", "self.value = src.read(sz).decode('utf-8-sig')")],
    'latin': [(M, "headers_raw = src.read(sz).decode()", "headers_raw = src.read(sz).decode('latin1')")],
    'valstrip': [(M, "self.value = src.read(sz).decode()", "self.value = src.read(sz).decode().strip('\\r\\n')")],
    'seek_once': [(M, "        self._src.seek(self._pos)\n        self._pos += sz\n", "        if self._pos == self._st:\n            self._src.seek(self._pos)\n        self._pos += sz\n")],
    'read_all': [(M, "        max_sz = self._end - self._pos\n", "        max_sz = self._end - self._st\n")],
    'read0': [(M, "        if sz is not None and sz >= 0:\n", "        if sz and sz > 0:\n")],
    'readneg': [(M, "        if sz is not None and sz >= 0:\n", "        if sz is not None:\n")],
    'tell_abs': [(M, "        return self._pos - self._st\n", "        return self._pos\n")],
    'seek_cur': [(M, "            self.seek(self.tell() + pos)\n", "            self.seek(self._pos + pos)\n")],
    'seek_end': [(M, "            self.seek(self._end + pos - self._st)\n", "            self.seek(self._end - self._st - pos)\n")],
    'seek_set': [(M, "            self._pos = min(self._st + pos, self._end)\n", "            self._pos = min(self._st + pos, self._end - 1)\n")],
    'listify': [(B, "                    if (id(d), key) not in listified:\n                        el = d[key] = [el]\n                        listified.add((id(d), key))\n", "                    if not isinstance(el, list):\n                        el = d[key] = [el]\n                    elif key not in listified:\n                        listified.add(key)\n                        el = d[key] = el[:1]\n")],
    'listify_id': [(B, "                    if (id(d), key) not in listified:\n                        el = d[key] = [el]\n                        listified.add((id(d), key))\n", "                    if key not in listified:\n                        el = d[key] = [el]\n                        listified.add(key)\n")],
    'listify_share': [(B, "            for d in (post, dct):\n                if key in d:\n", "            for d in (post, dct):\n                if d is dct and len(post[key]) > 2 and isinstance(post[key], list):\n                    d[key] = post[key]\n                    continue\n                if key in d:\n")],
    'insert': [(B, "                    el.append(it)\n", "                    el.insert(1, it)\n")],
    'dup': [(B, "                    el.append(it)\n", "                    if it not in el:\n                        el.append(it)\n")],
    'order': [(B, "            for d in (post, dct):\n", "            for d in (post, dct) if item.filename is None else (dct, post):\n                if d is post and key in forms:\n                    continue\n")],
    'ctype_low': [(B, "{name: h.raw for name, h in item.headers.items()}", "{name: h.value for name, h in item.headers.items()}")],
    'ctype_boundary': [(B, "MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))", "MULTIPART_BOUNDARY_PATT.match(self.content_type)")],
    'bpatt': [(B, "boundary=(.+?)(;|$)", "boundary=([^=]+?)(;|$)")],
    'bpatt2': [(B, "boundary=(.+?)(;|$)", "boundary=(.+)(;|$)")],
    'bstrip': [(B, "mp.group(1).strip().strip('\"')", "mp.group(1).strip().strip('\"-')")],
    'title': [(M, "name=htype.strip().title()", "name=htype.strip()")],
    'savepos': [(H, "        self.file.seek(offset)\n", "        self.file.seek(0)\n")],
    'savechunk': [(H, "            if not buf:\n                break\n            write(buf)\n", "            write(buf)\n            if len(buf) < chunk_size or not buf:\n                break\n            read(0)\n            chunk_size *= 2\n            buf = read(1)\n")],
    'colon': [(M, "        htype, rest = s.split(':', 1)\n", "        htype, rest = s.split(':')[:2]\n")],
    'hdrs_last': [(M, "            if header.name == 'Content-Disposition':\n", "            if 'name' in header.options:\n")],
    'empty_val': [(M, "            if sz:\n                has_read += sz\n", "            if sz > 1:\n                has_read += sz\n")],
    'noname': [(M, "        if self.name is None:\n", "        if not self.name:\n")],
}
REFS = {
    'setdefault': [(B, "            for d in (post, dct):\n                if key in d:\n                    el = d[key]\n                    if (id(d), key) not in listified:\n                        el = d[key] = [el]\n                        listified.add((id(d), key))\n                    el.append(it)\n                else:\n                    d[key] = it\n", "            for d in (post, dct):\n                self._collect(d, key, it, listified)\n"), (B, "    def _iter_multipart(self):\n", "    @staticmethod\n    def _collect(d, key, it, listified):\n        if key not in d:\n            d[key] = it\n            return\n        mark = (id(d), key)\n        if mark in listified:\n            d[key].append(it)\n        else:\n            listified.add(mark)\n            d[key] = [d[key], it]\n\n    def _iter_multipart(self):\n")],
    'groups': [(B, "        listified = set()\n", "        counts = {}\n"), (B, "            for d in (post, dct):\n                if key in d:\n                    el = d[key]\n                    if (id(d), key) not in listified:\n                        el = d[key] = [el]\n                        listified.add((id(d), key))\n                    el.append(it)\n                else:\n                    d[key] = it\n", "            for n, d in enumerate((post, files, forms)):\n                if d is not post and d is not dct:\n                    continue\n                seen = counts.get((n, key), 0)\n                counts[n, key] = seen + 1\n                if not seen:\n                    d[key] = it\n                elif seen == 1:\n                    d[key] = [d[key], it]\n                else:\n                    d[key].append(it)\n")],
    'readmin': [(M, "        max_sz = self._end - self._pos\n        if max_sz <= 0:\n            return b''\n        if sz is not None and sz >= 0:\n            sz = min(sz, max_sz)\n        else:\n            sz = max_sz\n        self._src.seek(self._pos)\n        self._pos += sz\n        return self._src.read(sz)\n", "        left = max(self._end - self._pos, 0)\n        if sz is None or sz < 0 or sz > left:\n            sz = left\n        self._src.seek(self._pos)\n        data = self._src.read(sz)\n        self._pos += len(data)\n        return data\n")],
    'partition': [(M, "        htype, rest = s.split(':', 1)\n", "        htype, sep, rest = s.partition(':')\n        if not sep:\n            raise ValueError('no colon')\n")],
    'read_always': [(M, "            if sz:\n                has_read += sz\n                if has_read > max_read:\n                    raise BodySizeError('Max in-memory read limit exceed')\n                src.seek(start)\n                self.value = src.read(sz).decode()\n            else:\n                self.value = ''\n", "            has_read += sz\n            if has_read > max_read:\n                raise BodySizeError('Max in-memory read limit exceed')\n            src.seek(start)\n            self.value = src.read(sz).decode('utf-8')\n")],
    'savewhile': [(H, "        while True:\n            buf = read(chunk_size)\n            if not buf:\n                break\n            write(buf)\n", "        buf = read(chunk_size)\n        while buf:\n            write(buf)\n            buf = read(chunk_size)\n")],
    'hdrloop': [(M, "            elif header.name == 'Content-Type':\n                self.ctype = header.value\n", ""), (M, "        if self.name is None:\n", "        if 'Content-Type' in self.headers:\n            self.ctype = self.headers['Content-Type'].value\n        if self.name is None:\n")],
}
