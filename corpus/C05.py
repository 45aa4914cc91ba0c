B = 'request_pkg/body_mixin.py'
SEP = "        if read(1) != r or read(1) != n:\n            raise parsing_err\n"
OM = 'ombott.py'
BUGS = {
    'crlf2': [(B, SEP, "        if read(2) != r + n:\n            raise parsing_err\n")],
    'sep_and': [(B, SEP, "        if read(1) != r and read(1) != n:\n            raise parsing_err\n")],
    'sep_first': [(B, SEP, "        if read(1) != r:\n            raise parsing_err\n        read(1)\n")],
    'sep_none': [(B, SEP, "        if read(1) == r:\n            read(1)\n")],
    'eof_data': [(B, "                raise parsing_err\n            yield part\n", "                return\n            yield part\n")],
    'eof_line': [(B, "            if not c or read_len > buff_size:\n                raise parsing_err\n", "            if not c and not header_size_buff:\n                return\n            if not c or read_len > buff_size:\n                raise parsing_err\n")],
    'short': [(B, "            yield part\n            rest_len -= len(part)\n        # the", "            yield part\n            rest_len -= part_size\n        # the")],
    'no_min': [(B, "            part_size = min(rest_len, buff_size)\n            part = read(part_size)\n            if not part:\n                raise parsing_err", "            part_size = rest_len if rest_len < 2 * buff_size else buff_size\n            part = read(part_size)\n            if len(part) < min(part_size, buff_size):\n                raise parsing_err")],
    'sem_sticky': [(B, "            seen_sem = False\n", "            pass\n"), (B, "        header_size_buff = []\n", "        header_size_buff = []\n")] if False else [(B, "        seen_r = False\n        seen_sem = False\n", "        seen_r = False\n"), (B, "    parsing_err = BodyParsingError()\n    while True:\n", "    parsing_err = BodyParsingError()\n    seen_sem = False\n    while True:\n")],
    'no_clear': [(B, "        header_size_buff.clear()\n", "        len(header_size_buff) > 8 and header_size_buff.clear()\n")],
    'dec': [(B, "int(chunk_size.strip(), 16)", "int(chunk_size.strip(), 16 if len(chunk_size) > 1 else 10)")],
    'lower': [(B, "int(chunk_size.strip(), 16)", "int(chunk_size.strip().lstrip(b'0') or b'0', 16) if chunk_size.islower() or chunk_size.isdigit() else int(b'x', 16)")],
    'neg_end': [(B, "        if rest_len == 0:\n            break\n", "        if rest_len == 0 or read_len == 3 and chunk_size == b'f':\n            break\n")],
    'value_err': [(B, "        except ValueError:\n            raise parsing_err\n        if rest_len", "        except (TypeError, KeyError):\n            raise parsing_err\n        if rest_len")],
    'read_len': [(B, "read_len > buff_size:\n                raise", "read_len >= buff_size:\n                raise")],
    'read_len_hex': [(B, "            if not c or read_len > buff_size:\n", "            if not c or len(header_size_buff) > 2 or read_len > buff_size:\n")],
    'chunked_lower': [(B, "'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '').lower()", "'chunked' == self.environ.get('HTTP_TRANSFER_ENCODING', '')")],
    'ext_quote': [(B, "            if seen_sem:\n", "            if seen_sem and c != b'\"':\n")],
    'map_500': [(OM, "request_errors.BodyParsingError: HTTPError(400,", "request_errors.BodyParsingError: HTTPError(500,")],
    'map_name': [(OM, "        request_errors.RequestError: HTTPError(400, 'Bad request'),\n", ""), (OM, "        request_errors.BodyParsingError: HTTPError(400, 'Error while parsing chunked transfer body'),\n", "")],
    'overwrite': [(B, "            if seen_r or seen_sem:\n                continue\n", "            if seen_r or seen_sem or c == b' ':\n                continue\n")] if False else [(B, "            if seen_r or seen_sem:\n                continue\n            header_size_buff.append(c)\n", "            if seen_r or seen_sem:\n                continue\n            if header_size_buff == [b'0']:\n                header_size_buff.clear()\n            header_size_buff.append(c)\n")] if False else [(B, "        if rest_len == 0:\n            break\n", "        if header_size_buff[0] == b'0':\n            break\n")],
    'sep_crash': [(B, "        chunk_size = b''.join(header_size_buff)\n", "        chunk_size = b''.join(header_size_buff)\n        if header_size_buff[0] == b'-':\n            raise parsing_err\n")],
}
REFS = {
    'helper': [(B, "        if read(1) != r or read(1) != n:\n            raise parsing_err\n", "        _expect(read, r, parsing_err)\n        _expect(read, n, parsing_err)\n"), (B, "def _iter_chunked", "def _expect(read, what, err):\n    got = read(1)\n    if got != what:\n        raise err\n\n\ndef _iter_chunked")],
    'crlf_loop': [(B, SEP, "        tail = b''\n        while len(tail) < 2:\n            c = read(2 - len(tail))\n            if not c:\n                raise parsing_err\n            tail += c\n        if tail != b'\\r\\n':\n            raise parsing_err\n")],
    'bytearray': [(B, "        chunk_size = b''.join(header_size_buff)\n        try:\n            rest_len = int(chunk_size.strip(), 16)\n", "        try:\n            rest_len = int(b''.join(header_size_buff).decode('latin1').strip(), 16) if True else 0\n")] if False else [(B, "    header_size_buff = []\n", "    header_size_buff = list()\n")],
    'line': [(B, "            if seen_sem:\n                # continue reading until `\\r\\n`\n                continue\n            seen_sem = c == sem\n            if seen_r or seen_sem:\n                continue\n            header_size_buff.append(c)\n", "            if not seen_sem:\n                seen_sem = c == sem\n                if not seen_r and not seen_sem:\n                    header_size_buff.append(c)\n")],
    'err': [(B, "    parsing_err = BodyParsingError()\n", "    parsing_err = BodyParsingError('chunked')\n")],
    'size_first': [(B, "            if not c or read_len > buff_size:\n", "            if read_len > buff_size or c == b'':\n")],
    'for_else': [(B, "        if rest_len == 0:\n            break\n", "        if not rest_len:\n            return\n")],
}
