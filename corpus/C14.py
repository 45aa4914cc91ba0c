H = 'common_helpers.py'
R = 'response.py'
HV = "    value = str(value)\n    if '\\n' in value or '\\r' in value or '\\0' in value:\n"
SET = "        self._ts.dict[key] = _hval(value)"
APP = "        value = _hval(value)\n        v = d.get(key)"
LIST = """        out = [
            (name, val.encode('utf8').decode('latin1'))
            for (name, vals) in headers
            for val in (vals if isinstance(vals, list) else [vals])
        ]"""
BUGS = {
    'no_nul': [(H, " or '\\0' in value:", ":")],
    'no_cr': [(H, " or '\\r' in value", "")],
    'no_lf': [(H, "'\\n' in value or ", "")],
    'and': [(H, "'\\n' in value or '\\r' in value or", "'\\n' in value and '\\r' in value or")],
    'crlf': [(H, "'\\n' in value or '\\r' in value", "'\\r\\n' in value")],
    'strip_first': [(H, HV, "    value = str(value)\n    s = value.strip()\n    if '\\n' in s or '\\r' in s or '\\0' in s:\n")],
    'endswith': [(H, HV, "    value = str(value)\n    if value.endswith('\\n') or '\\r' in value or '\\0' in value:\n")],
    'only_str': [(H, HV, "    if not isinstance(value, str):\n        return str(value)\n" + HV), (H, "    if not (value is None or isinstance(value, (str, int, float, bool))):\n        raise TypeError(f\"Header value must be type of (str, int, float, bool, None), got: {type(value)}\")\n", "")],
    'setdefault_raw': [(H, 'setdefault(key, _hval(value) if not isinstance(value, list) else value)', 'setdefault(key, value)')],
    'setdefault_key': [(H, 'setdefault(key, _hval(value) if not isinstance(value, list) else value)', 'setdefault(key, str(value) if not isinstance(value, list) else value)')],
    'append_later': [(H, APP, "        v = d.get(key)"), (H, "            d[key] = value\n", "            d[key] = _hval(value)\n")],
    'append_two': [(H, APP, "        v = d.get(key)"), (H, "            d[key] = value\n", "            d[key] = _hval(value)\n"), (H, "v.append(value)", "v.append(_hval(value))")],
    'store_first': [(H, SET, "        self._ts.dict[key] = str(value)\n        self._ts.dict[key] = _hval(value)")],
    'append_order': [(H, "d[key] = [v, value]", "d[key] = [value, v]")],
    'append_insert': [(H, "v.append(value)", "v.insert(0, value)")],
    'append_drop': [(H, "            v.append(value)\n", "            if value not in v:\n                v.append(value)\n")],
    'append_set': [(H, "            d[key] = [v, value]\n", "            d[key] = [v, value] if v != value else v\n")],
    'prop_raw': [(H, "obj.headers[self.name] = self.writer(value) if self.writer else value", "obj.headers.dict[self.name] = self.writer(value) if self.writer else value")],
    'ctor_raw': [(R, "            for name, value in headers:\n                self.headers.append(name, value)", "            for name, value in headers:\n                self._headers[name] = value")],
    'ctor_kw_raw': [(R, "            for name, value in more_headers.items():\n                self.headers.append(name, value)", "            self.headers.update(more_headers)")],
    'ctor_dict_raw': [(R, "                headers = headers.items()\n", "                self.headers.update(headers)\n                headers = ()\n")],
    'noenc': [(R, "(name, val.encode('utf8').decode('latin1'))", "(name, val)")],
    'enc_latin': [(R, "(name, val.encode('utf8').decode('latin1'))", "(name, val.encode('latin1', 'replace').decode('latin1'))")],
    'enc_utf8': [(R, "(name, val.encode('utf8').decode('latin1'))", "(name, val.encode('utf8').decode('utf8'))")],
    'enc_ignore': [(R, "(name, val.encode('utf8').decode('latin1'))", "(name, val.encode('ascii', 'ignore').decode('latin1'))")],
    'first_only': [(R, "for val in (vals if isinstance(vals, list) else [vals])", "for val in (vals[:1] if isinstance(vals, list) else [vals])")],
    'joined': [(R, LIST, "        out = [\n            (name, (', '.join(vals) if isinstance(vals, list) else vals).encode('utf8').decode('latin1'))\n            for (name, vals) in headers\n        ]")],
    'reversed': [(R, "(vals if isinstance(vals, list) else [vals])", "(sorted(vals) if isinstance(vals, list) else [vals])")],
    'no_title': [(R, "h[0].title() not in bad_headers", "h[0] not in bad_headers")],
    'lower': [(R, "h[0].title() not in bad_headers", "h[0].lower() not in bad_headers")],
    'md5': [(R, "'Content-Md5'", "'Content-MD5'")],
    'no_last': [(R, "'Content-Md5', 'Last-Modified'", "'Content-Md5'")],
    'no_204': [(R, "        204: {'Content-Type'},\n", "")],
    'need_ct': [(R, "            need_ctype = False\n        else:\n            need_ctype = 'Content-Type' not in self._headers\n", "        need_ctype = 'Content-Type' not in self._headers\n")],
    'invert': [(R, "h[0].title() not in bad_headers", "h[0].title() in bad_headers")],
    'cookie_raw': [(R, "c.OutputString().encode('utf8').decode('latin1')", "c.OutputString()")],
    'etag': [(R, "{'Allow',", "{'Etag', 'Allow',")],
    'status_line': [(R, "self.bad_headers.get(self._status_code)", "self.bad_headers.get(self._status_line)")],
    'apply_share': [(R, "            response._headers[name] = value[:] if isinstance(value, list) else value\n        if self._cookies", "            response._headers[name] = value[-1] if isinstance(value, list) else value\n        if self._cookies")],
}
REFS = {
    'any': [(H, HV, "    value = str(value)\n    if any(c in value for c in '\\r\\n\\0'):\n")],
    'loop': [(H, HV, "    value = str(value)\n    bad = False\n    for c in '\\r\\n\\0':\n        if c in value:\n            bad = True\n    if bad:\n")],
    'regex': [(H, HV, "    import re\n    value = str(value)\n    if re.search('[\\r\\n\\0]', value):\n")],
    'regex2': [(H, "def _hval(value):", "import re\n_ctl = re.compile(r'[\\r\\n\\x00]')\n\n\ndef _hval(value):"), (H, HV, "    value = str(value)\n    if _ctl.search(value) is not None:\n")],
    'find': [(H, HV, "    value = str(value)\n    if value.find('\\n') >= 0 or value.find('\\r') >= 0 or value.find('\\0') != -1:\n")],
    'helper': [(H, "def _hval(value):", "def _has_ctl(value):\n    for c in ('\\n', '\\r', '\\0'):\n        if c in value:\n            return True\n    return False\n\n\ndef _hval(value):"), (H, HV, "    value = str(value)\n    if _has_ctl(value):\n")],
    'set': [(H, HV, "    value = str(value)\n    if set(value) & set('\\n\\r\\0'):\n")],
    'count': [(H, HV, "    value = str(value)\n    if value.count('\\n') or value.count('\\r') or value.count('\\0'):\n")],
    'translate': [(H, HV, "    value = str(value)\n    if value.translate({10: None, 13: None, 0: None}) != value:\n")],
    'append_list': [(H, "            d[key] = [v, value]\n", "            v = [v]\n            v.append(value)\n            d[key] = v\n")],
    'append_iadd': [(H, "            v.append(value)\n", "            d[key] = v + [value]\n")],
    'prop_append': [(H, "obj.headers[self.name] = self.writer(value) if self.writer else value", "if self.writer:\n            value = self.writer(value)\n        obj.headers[self.name] = value")],
    'list_loop': [(R, LIST, "        out = []\n        for name, vals in headers:\n            if not isinstance(vals, list):\n                vals = [vals]\n            for val in vals:\n                out.append((name, val.encode('utf8').decode('latin1')))")],
    'list_ext': [(R, LIST, "        out = []\n        for name, vals in headers:\n            if isinstance(vals, list):\n                out.extend((name, v.encode('utf8').decode('latin1')) for v in vals)\n            else:\n                out.append((name, vals.encode('utf8').decode('latin1')))")],
    'wire_helper': [(R, "class BaseResponse:", "def _wire(s):\n    return s.encode('utf-8').decode('iso-8859-1')\n\n\nclass BaseResponse:"), (R, "(name, val.encode('utf8').decode('latin1'))", "(name, _wire(val))"), (R, "c.OutputString().encode('utf8').decode('latin1')", "_wire(c.OutputString())")],
    'bad_lower': [(R, "h[0].title() not in bad_headers", "h[0].lower() not in {b.lower() for b in bad_headers}")],
    'bad_list': [(R, "headers = (h for h in headers if h[0].title() not in bad_headers)", "headers = [(n, v) for n, v in headers if n.title() not in bad_headers]")],
    'ctor': [(R, "        if more_headers:\n            for name, value in more_headers.items():", "        for name, value in more_headers.items():\n            if 1:")],
    'ctor_set': [(R, "            for name, value in headers:\n                self.headers.append(name, value)", "            append = self.headers.append\n            for pair in headers:\n                append(*pair)")],
    'isinst_split': [(H, "value is None or isinstance(value, (str, int, float, bool))", "value is None or isinstance(value, str) or isinstance(value, (int, float))")],
}
