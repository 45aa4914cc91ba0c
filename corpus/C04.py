B = 'request_pkg/body_mixin.py'
L = "        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break\n"
BUGS = {
    'ask_buf': [(B, L, L.replace('min(rest_len, buff_size)', 'buff_size'))],
    'short_stop': [(B, "        yield part\n        rest_len -= len(part)\n\n\ndef _iter_chunked", "        yield part\n        rest_len -= len(part)\n        if len(part) < part_size:\n            break\n\n\ndef _iter_chunked")],
    'dec_asked': [(B, "        yield part\n        rest_len -= len(part)\n\n\ndef", "        yield part\n        rest_len -= part_size\n\n\ndef")],
    'ge0': [(B, "    while rest_len > 0:\n        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break", "    while rest_len >= 0:\n        part_size = min(rest_len, buff_size) or 1\n        part = read(part_size)\n        if not part:\n            break")],
    'gt1': [(B, "    while rest_len > 0:\n        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break", "    while rest_len > 1 or rest_len == content_length == 1:\n        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break")],
    'spill_lost': [(B, "            body.write(tmp.getvalue())\n", "            body.write(tmp.getvalue()[:buff_size])\n")],
    'spill_tail': [(B, "            body.write(tmp.getvalue())\n", "            body.write(part)\n")],
    'spill_read': [(B, "            body.write(tmp.getvalue())\n", "            body.write(tmp.read())\n")],
    'spill_again': [(B, "            is_temp_file = True\n", "            is_temp_file = body_size > 2 * buff_size\n")],
    'spill_noseek': [(B, "            body.write(tmp.getvalue())\n", "            body.write(tmp.getvalue())\n            body.seek(0)\n")],
    'neg_all': [(B, "    rest_len = content_length\n", "    rest_len = content_length if content_length >= 0 else buff_size\n")],
    'no_rewind': [(B, "        ret = self._body\n        ret.seek(0)\n        return ret\n", "        ret = self._body\n        return ret\n")],
    'no_input': [(B, "        self.environ['wsgi.input'] = body\n        body.seek(0)\n", "        body.seek(0)\n")],
    'strip_first': [(B, "        body.write(part)\n", "        body.write(part if body_size else part.lstrip(b'\\n'))\n")],
    'eof_raise': [(B, L, L.replace('            break', '            raise BodyParsingError()'))],
    'uncached': [(B, "    @cache_in('environ[ ombott.request.body ]', read_only=True)\n    def _body", "    @property\n    def _body")],
    'multi_part': [(B, "        if markup is not None:\n            markup.parse(part)\n", "        if markup is not None:\n            markup.parse(part)\n            if markup._markuper.stopped:\n                break\n")],
}
REFS = {
    'while_true': [(B, "    rest_len = content_length\n    while rest_len > 0:\n        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break\n        yield part\n        rest_len -= len(part)\n", "    got = 0\n    while True:\n        if got >= content_length:\n            return\n        part = read(buff_size if content_length - got > buff_size else content_length - got)\n        if part == b'':\n            return\n        got += len(part)\n        yield part\n")],
    'copy': [(B, "            body.write(tmp.getvalue())\n", "            tmp.seek(0)\n            body.write(tmp.read())\n")],
    'size_tell': [(B, "        body_size += len(part)\n", "        body_size = body.tell()\n")],
    'helper': [(B, "            body, tmp = TemporaryFile(mode='w+b'), body\n            body.write(tmp.getvalue())\n            del tmp\n", "            body = _spill(body)\n"), (B, "def _body_read(", "def _spill(mem):\n    disk = TemporaryFile(mode='w+b')\n    disk.write(mem.getvalue())\n    return disk\n\n\ndef _body_read(")],
    'isinstance': [(B, "not is_temp_file and body_size > buff_size", "isinstance(body, BytesIO) and body_size > buff_size")],
}
