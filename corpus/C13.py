B = 'request_pkg/body_mixin.py'
M = 'request_pkg/multipart.py'
OM = 'ombott.py'
LIM = "        body_size += len(part)\n        if max_body_size is not None and body_size > max_body_size:\n            raise BodySizeError()\n"
WR = "        body.write(part)\n        if markup is not None:\n            markup.parse(part)\n\n"
SP = "        if not is_temp_file and body_size > buff_size:\n"
CL = "        if content_length > max_content_length:\n            raise self._raise(BodySizeError(), RequestError)\n"
BUGS = {
    'ge': [(B, LIM, LIM.replace('> max_body_size', '>= max_body_size'))],
    'plus_buf': [(B, LIM, LIM.replace('> max_body_size', '> max_body_size + buff_size'))],
    'before_add': [(B, LIM, "        if max_body_size is not None and body_size > max_body_size:\n            raise BodySizeError()\n        body_size += len(part)\n")],
    'falsy': [(B, LIM, LIM.replace('max_body_size is not None and', 'not is_temp_file and max_body_size is not None and'))],
    'zero': [(B, LIM, LIM.replace('max_body_size is not None and', 'max_body_size and'))],
    'not_chunked': [(B, LIM, LIM.replace('max_body_size is not None and', 'max_body_size is not None and not chunked and'))],
    'chunked_only': [(B, LIM, LIM.replace('max_body_size is not None and', 'max_body_size is not None and chunked and'))],
    'cl_only': [(B, LIM, "        body_size += len(part)\n        if max_body_size is not None and (content_length or 0) > max_body_size:\n            raise BodySizeError()\n")],
    'at_end': [(B, LIM, "        body_size += len(part)\n"), (B, "            is_temp_file = True\n    return body\n", "            is_temp_file = True\n    if max_body_size is not None and body_size > max_body_size:\n        raise BodySizeError()\n    return body\n")],
    'part_size': [(B, "            part_size = min(rest_len, buff_size)\n            part = read(part_size)\n            if not part:\n                raise", "            part_size = rest_len\n            part = read(part_size)\n            if not part:\n                raise")],
    'spill_never': [(B, SP, SP.replace('> buff_size', '> 16 * buff_size'))],
    'spill_part': [(B, SP, SP.replace('body_size > buff_size', 'len(part) > buff_size'))],
    'spill_chunked': [(B, SP, SP.replace('not is_temp_file and', 'not is_temp_file and not chunked and'))],
    'spill_sticky': [(B, "            body, tmp = TemporaryFile(mode='w+b'), body\n            body.write(tmp.getvalue())\n", "            body, tmp = BytesIO(), body\n            body.write(tmp.getvalue())\n")],
    'spill_late': [(B, "    return body\n\n\nclass", "    if body_size > buff_size:\n        body, tmp = TemporaryFile(mode='w+b'), body\n        body.write(tmp.getvalue())\n    return body\n\n\nclass"), (B, "        if not is_temp_file and body_size > buff_size:\n            body, tmp = TemporaryFile(mode='w+b'), body\n            body.write(tmp.getvalue())\n            del tmp\n            is_temp_file = True\n", "")],
    'text_chunked': [(B, "            content_length = max_content_length + 1\n", "            content_length = max_content_length\n")],
    'text_ge': [(B, CL, CL.replace('>', '>='))],
    'text_body': [(B, CL, CL.replace('> max_content_length', '> (self.config.max_body_size or content_length)'))],
    'text_none': [(B, CL, ""), (B, "        if len(data) > max_content_length:  # Fail fast\n            raise self._raise(BodySizeError(), RequestError)\n", "")],
    'max_read': [(M, "            max_read -= has_read\n", "")],
    'field_file': [(M, "            max_read -= has_read\n", "            if not field.file:\n                max_read = max_read\n            else:\n                max_read -= has_read\n")],
    'field_size': [(M, "                has_read += sz\n                if has_read > max_read:\n", "                if sz > max_read:\n")] if False else [(M, "                has_read += sz\n                if has_read > max_read:\n", "                if sz > max_read:\n")],
    'field_raw': [(M, "                if has_read > max_read:\n                    raise BodySizeError('Max in-memory read limit exceed')\n                src", "                src")],
    'map': [(OM, "request_errors.BodySizeError: HTTPError(413", "request_errors.BodySizeError: HTTPError(400")],
    'map_del': [(OM, "        request_errors.BodySizeError: HTTPError(413, 'Request entity too large'),\n", "")],
    'wrong_cls': [(M, "                if has_read > max_read:\n                    raise BodySizeError('Max in-memory read limit exceed')\n                src", "                if has_read > max_read:\n                    raise BodyParsingError('Max in-memory read limit exceed')\n                src")],
    'cfg': [(B, "                max_body_size=self.config.max_body_size,\n", "                max_body_size=self.config.max_body_size and max(self.config.max_body_size, self.config.max_memfile_size),\n")],
    'file_counts': [(M, "            self.file = BytesIOProxy(src, *data_section)\n", "            self.file = BytesIOProxy(src, *data_section)\n            has_read += data_section[1] - data_section[0]\n            if has_read > max_read:\n                raise BodySizeError('')\n")],
}
REFS = {
    'limit_first': [(B, WR + LIM, "        body_size += len(part)\n        if max_body_size is not None and body_size > max_body_size:\n            raise BodySizeError()\n" + WR)],
    'inf': [(B, "    for part in body_iter(read, buff_size):\n", "    limit = float('inf') if max_body_size is None else max_body_size\n    for part in body_iter(read, buff_size):\n"), (B, "max_body_size is not None and body_size > max_body_size", "body_size > limit")],
    'rest': [(M, "            max_read -= has_read\n", "            max_read = max_read - has_read\n")],
    'early': [(B, "    body, body_size, is_temp_file = BytesIO(), 0, False\n", "    if not chunked and max_body_size is not None and content_length > max_body_size:\n        raise BodySizeError()\n    body, body_size, is_temp_file = BytesIO(), 0, False\n")],
    'spill_before': [(B, WR + LIM, "        body_size += len(part)\n        if max_body_size is not None and body_size > max_body_size:\n            raise BodySizeError()\n        if markup is not None:\n            markup.parse(part)\n        if not is_temp_file and body_size > buff_size:\n            tmp = body\n            body = TemporaryFile(mode='w+b')\n            body.write(tmp.getvalue())\n            is_temp_file = True\n        body.write(part)\n"), (B, "\n        if not is_temp_file and body_size > buff_size:\n            body, tmp = TemporaryFile(mode='w+b'), body\n            body.write(tmp.getvalue())\n            del tmp\n            is_temp_file = True\n", "\n")] if False else [(B, LIM, "        body_size += len(part)\n        _check_limit(body_size, max_body_size)\n"), (B, "def _body_read(", "def _check_limit(size, limit):\n    if limit is None:\n        return\n    if size > limit:\n        raise BodySizeError()\n\n\ndef _body_read(")],
    'limit_text': [(B, "        if content_length < 0:\n            content_length = max_content_length + 1\n        data = read(content_length)\n", "        data = read(content_length if content_length >= 0 else max_content_length + 1)\n")],
    'field_helper': [(M, "                has_read += sz\n                if has_read > max_read:\n                    raise BodySizeError('Max in-memory read limit exceed')\n                src", "                has_read = self._account(has_read, sz, max_read)\n                src"), (M, "    @classmethod\n    def parse_header", "    @staticmethod\n    def _account(used, more, limit):\n        used += more\n        if used > limit:\n            raise BodySizeError('Max in-memory read limit exceed')\n        return used\n\n    @classmethod\n    def parse_header")],
}
