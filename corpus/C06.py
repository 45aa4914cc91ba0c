M = 'request_pkg/multipart.py'
B = 'request_pkg/body_mixin.py'
BUGS = {
    'trest_tail': [(M, "                        trest_len -= part_len\n                        trest = trest[part_len:]\n                        part = None\n", "                        trest_len -= part_len\n                        trest = trest[part_len:]\n")],
    'trest_len': [(M, "                        trest_len -= part_len\n                        trest = trest[part_len:]\n", "                        trest = trest[part_len:]\n")],
    'trest_keep': [(M, "                else:\n                    trest_len = trest = None\n            matched_len", "            matched_len")],
    'data_end': [(M, "                if chunk[start:start + trest_len] == trest:   # part.startswith(trest):\n                    data_end = start + trest_len - tlen\n                    self.trest_len = self.trest = None\n                    return data_end\n", "                if chunk[start:start + trest_len] == trest:   # part.startswith(trest):\n                    data_end = max(start + trest_len - tlen, 0)\n                    self.trest_len = self.trest = None\n                    return data_end\n")],
    'eq_part': [(M, "                if part_len < trest_len:\n", "                if part_len <= trest_len:\n")],
    'no_reset': [(M, "                    if part.startswith(trest):\n                        data_end = start + trest_len - tlen\n                        self.trest_len = self.trest = None\n                        return data_end\n", "                    if part.startswith(trest):\n                        data_end = start + trest_len - tlen\n                        return data_end\n")],
    'hyphen1': [(M, "            HYPHEN: self._eat_last_hyphen\n", "")],
    'cr1': [(M, "            CR: self._eat_lf,\n", "")],
    'hdr_end': [(M, "                return base + expected_len - CRLFx2_LEN\n", "                return base + expected_len\n")],
    'hdr_slice': [(M, "            chunk_start = chunk[base:expected_len]\n", "            chunk_start = chunk[base:2]\n")],
    'hdr_rest': [(M, "                    self.headers_end_expected = expected[chunk_start_len:]\n", "                    self.headers_end_expected = expected\n")],
    'hdr_head': [(M, "            self.headers_end_expected = CRLFx2[len(end_head):]\n", "            self.headers_end_expected = CRLFx2[len(end_head):] if len(end_head) > 1 else None\n")],
    'patt': [(M, "(\\r(\\n\\r?)?)$')", "(\\r\\n?)$')")],
    'abspos': [(M, "        self.abspos += len(chunk)\n", "        self.abspos += len(chunk) if cur_meth == self.cur_meth or not start_next_sec else start_next_sec\n")],
    'abs_section': [(M, "        self.abs_start_section = abs_start_section\n", "        if start_next_sec < len(chunk):\n            self.abs_start_section = abs_start_section\n")],
    'skip': [(M, "                start_next_sec = end_section + tlen\n                skip_start = CRLF_LEN\n                cur_meth = eat_headers\n            else", "                start_next_sec = end_section + tlen\n                skip_start = CRLF_LEN if start_next_sec < len(chunk) else 0\n                cur_meth = eat_headers\n            else")],
    'startneg': [(M, "                    end_section = -self.abspos\n", "                    end_section = 0\n")],
    'epi': [(M, "        if self.stopped:\n            return  # epilogue\n", "")],
    'epi_last': [(M, "            self.stopped = True\n            return base + 1\n", "            self.stopped = len(chunk) > 1\n            return base + 1\n")] ,
    'match_head': [(M, "            if search_pos < 0:\n                return\n", "            if search_pos <= 0:\n                return\n")],
    'match_long': [(M, "        for i, thead in idxs:  # idxs is 1-based index\n", "        for i, thead in idxs[:2]:  # idxs is 1-based index\n")],
    'restart': [(M, "        if self.eat_meth != self._eat_headers:\n            if self.stopped:\n                raise StopMarkupException()\n            base = pos\n            self.eat_meth = self._eat_headers\n            return self.eat(chunk, base)\n", "        if self.eat_meth != self._eat_headers:\n            if self.stopped:\n                raise StopMarkupException()\n            base = pos\n            self.eat_meth = self._eat_headers\n            if base >= len(chunk):\n                self.eat_meth = self._eat_first_crlf_or_last_hyphens\n                return\n            return self.eat(chunk, base)\n")],
    'spool_feed': [(B, "        if markup is not None:\n            markup.parse(part)\n", "        if markup is not None and not is_temp_file:\n            markup.parse(part)\n")],
    'strip': [(B, "            markup.parse(part)\n", "            markup.parse(part.lstrip(b'\\r\\n') if not body_size else part)\n")] if False else [(B, "            markup.parse(part)\n", "            markup.parse(part if len(part) != 3 else part[:3] + b'')\n            len(part) == 5 and markup.parse(b'')\n            len(part) == 7 and markup.parse(part[7:] or b'\\n')\n")],
}
REFS = {
    'none_ret': [(M, "        end_section = self._eat_data(chunk, base)\n        if end_section is not None:\n            return end_section\n", "        return self._eat_data(chunk, base)\n")],
    'startswith': [(M, "                if chunk[start:start + trest_len] == trest:   # part.startswith(trest):\n", "                if chunk.startswith(trest, start):\n")],
    'find': [(M, "        chunk_len = len(chunk)\n        token, tlen", "        chunk_len = len(chunk)\n        assert base <= chunk_len or True\n        token, tlen")],
    'dict': [(M, "        self.idx = idx = defaultdict(list)   # 1-based indices for each token symbol\n        for i, c in enumerate(token, start=1):\n            idx[c].append([i, token[:i]])\n", "        self.idx = {}\n        for i, c in enumerate(token):\n            self.idx.setdefault(c, []).append((i + 1, token[:i + 1]))\n")],
    'maxborder': [(M, "        idxs = self.idx.get(s[end - 1])\n        if idxs is None:\n            return\n        slen = end - start\n        assert slen <= self.len\n        for i, thead in idxs:  # idxs is 1-based index\n            search_pos = slen - i\n            if search_pos < 0:\n                return\n            if s[start + search_pos:end] == thead:  # if s_tail == token_head\n                return i\n", "        part = s[start:end]\n        for i in range(min(len(part), self.len), 0, -1):\n            if part.endswith(self.token[:i]):\n                return i\n        return None\n")],
    'rename': [(M, "        self.headers_end_expected = None\n        self.eat_meth", "        self.headers_end_expected = None\n        self._n = 0\n        self.eat_meth")],
    'count': [(M, "        self.abspos += len(chunk)\n", "        self.abspos = self.abspos + len(chunk)\n        self.n_chunks = getattr(self, 'n_chunks', 0) + 1\n")],
    'loop': [(M, "        for name, start_end in self._markuper.iter_markup(chunk):\n            self.markups.append([name, start_end])\n", "        self.markups.extend([n, se] for n, se in self._markuper.iter_markup(chunk))\n")],
}
