H = 'request_pkg/helpers.py'
B = 'request_pkg/body_mixin.py'
P = 'request_pkg/props_mixin.py'
PARSE = open('/repo/ombott/request_pkg/helpers.py').read().split("    L = len(qs)\n")[1].split("    return container\n")[0]
PARSE = "    L = len(qs)\n" + PARSE
ADD = "            vlist = _lists.get(k)\n            if vlist:\n                vlist.append(v)\n            elif k in _seen:\n                tmp = _lists[k] = [_seen[k], v]\n                setitem(k, tmp)\n            else:\n                setitem(k, _seen.setdefault(k, v))\n"
KEYDEC = "key = urlunquote(key.replace('+', ' '))"
VALDEC = "value = urlunquote(qs[i:j].replace('+', ' '))"
AMP = "        if c == '&':\n            value = ''\n        else:\n"
BUGS = {
    'else_drop_v': [(H, "                    break\n            else:\n                idx += 1\n            j = i + idx\n            value", "                    break\n            j = i + idx\n            value")],
    'key_noplus': [(H, KEYDEC, "key = urlunquote(key)")],
    'key_nodec': [(H, KEYDEC, "key = key.replace('+', ' ')")],
    'val_noplus': [(H, VALDEC, "value = urlunquote(qs[i:j])")],
    'val_order': [(H, VALDEC, "value = urlunquote(qs[i:j]).replace('+', ' ')")],
    'key_order': [(H, KEYDEC, "key = urlunquote(key).replace('+', ' ')")],
    'val_latin': [(H, VALDEC, "value = urlunquote(qs[i:j].replace('+', ' '), 'latin1')")],
    'val_strict': [(H, VALDEC, "value = urlunquote(qs[i:j].replace('+', ' '), errors='strict')")],
    'prev_order': [(H, "tmp = _lists[k] = [_seen[k], v]", "tmp = _lists[k] = [v, _seen[k]]")],
    'third_lost': [(H, "                tmp = _lists[k] = [_seen[k], v]\n                setitem(k, tmp)\n", "                setitem(k, [_seen[k], v])\n")],
    'seen_truthy': [(H, "            elif k in _seen:\n", "            elif _seen.get(k):\n")],
    'insert0': [(H, "                vlist.append(v)\n", "                vlist.insert(0, v)\n")],
    'dedupe': [(H, "            if vlist:\n                vlist.append(v)\n", "            if vlist:\n                if v not in vlist:\n                    vlist.append(v)\n")],
    'dedupe2': [(H, "            elif k in _seen:\n", "            elif k in _seen and _seen[k] != v:\n")],
    'empty_val_skip': [(H, "        add(key, value)\n    return container", "        if value:\n            add(key, value)\n    return container")],
    'no_progress': [(H, "        i = j + 1  # skip '=' or '&'\n        if not key:\n            continue\n", "        if not key:\n            continue\n        i = j + 1  # skip '=' or '&'\n")],
    'else_drop_v': [(H, "                    break\n            else:\n                idx += 1\n            j = i + idx\n            value", "                    break\n            j = i + idx\n            value")],
    'raise_empty': [(H, "        if not key:\n            continue\n", "        if not key:\n            raise ValueError(qs)\n")],
    'idx_peek': [(H, "        if c == '&':\n            value = ''\n", "        if qs[j] == '&':\n            value = ''\n")],
    'first_only': [(H, "                setitem(k, tmp)\n", "                setitem(k, _seen[k])\n")],
    'query_nolist': [(B, "parse_qsl(qs, setitem=ret.__setitem__)", "ret.update(parse_qsl(qs))")],
    'form_nolist': [(B, "                parse_qsl(\n                    touni(self._get_body_string(), 'latin1'),\n                    setitem=post.__setitem__\n                )", "                post.update(parse_qsl(touni(self._get_body_string(), 'latin1')))")],
    'query_setdefault': [(B, "parse_qsl(qs, setitem=ret.__setitem__)", "parse_qsl(qs, setitem=ret.setdefault)")],
    'params_query': [(P, "self._forms_factory(self.query, **self.forms)", "self._forms_factory(self.query)")],
    'params_forms': [(P, "self._forms_factory(self.query, **self.forms)", "self._forms_factory(self.forms)")],
    'val_strip': [(H, VALDEC, "value = urlunquote(qs[i:j].replace('+', ' ')).strip()")],
    'key_lower': [(H, KEYDEC, "key = urlunquote(key.replace('+', ' ')).lower()")],
    'plus_pct': [(H, VALDEC, "value = urlunquote(qs[i:j].replace('+', '%2B'))")],
    'query_strip': [(B, "        if qs:\n            parse_qsl(qs,", "        if qs:\n            qs = urlunquote_(qs)\n            parse_qsl(qs,"), (B, "import re\n\nfrom ..common", "import re\nfrom urllib.parse import unquote as urlunquote_\n\nfrom ..common")],
    'max_pairs': [(H, "    while i < L:\n        key = None\n", "    n = 0\n    while i < L and n < 3:\n        n += 1\n        key = None\n")],
}
SPLIT = """    for pair in qs.split('&'):
        key, _, value = pair.partition('=')
        if not key:
            continue
        add(urlunquote(key.replace('+', ' ')), urlunquote(value.replace('+', ' ')))
"""
FIND = """    L = len(qs)
    i = 0
    while i < L:
        end = qs.find('&', i)
        if end < 0:
            end = L
        eq = qs.find('=', i, end)
        if eq < 0:
            eq = end
        key, value = qs[i:eq], qs[eq + 1:end]
        i = end + 1
        if key:
            add(urlunquote(key.replace('+', ' ')), urlunquote(value.replace('+', ' ')))
"""
REFS = {
    'split': [(H, PARSE, SPLIT)],
    'split_plus': [(H, PARSE, SPLIT.replace("for pair in qs.split('&')", "for pair in qs.replace('+', ' ').split('&')").replace(".replace('+', ' '))", ")"))],
    'find': [(H, PARSE, FIND)],
    'unquote_plus': [(H, PARSE, SPLIT.replace("urlunquote(key.replace('+', ' '))", "unquote_plus(key)").replace("urlunquote(value.replace('+', ' '))", "unquote_plus(value)")), (H, "from urllib.parse import unquote as urlunquote", "from urllib.parse import unquote as urlunquote, unquote_plus")],
    'decode_fn': [(H, KEYDEC, "key = _decode(key)"), (H, VALDEC, "value = _decode(qs[i:j])"), (H, "def parse_qsl(", "def _decode(text):\n    return urlunquote(text.replace('+', ' '))\n\n\ndef parse_qsl(")],
    'scan_fn': [(H, "            idx = 0; c = None\n            for idx, c in enumerate(qs[i:]):\n                if c == '&':\n                    break\n            else:\n                idx += 1\n            j = i + idx\n", "            j = qs.find('&', i)\n            if j < 0:\n                j = L\n")],
    'while_scan': [(H, "        idx = 0; c = None\n        for idx, c in enumerate(qs[i:]):\n            if c == '=' or c == '&':\n                break\n        else:\n            idx += 1\n        j = i + idx\n", "        j = i\n        c = None\n        while j < L:\n            c = qs[j]\n            if c in '=&':\n                break\n            j += 1\n")],
    'in_set': [(H, "            if c == '=' or c == '&':\n", "            if c in ('=', '&'):\n")],
    'in_str': [(H, "            if c == '=' or c == '&':\n", "            if c in '=&':\n")],
    'add_list': [(H, ADD, "            if k in _lists:\n                _lists[k].append(v)\n            elif k in _seen:\n                _lists[k] = [_seen[k], v]\n                setitem(k, _lists[k])\n            else:\n                _seen[k] = v\n                setitem(k, v)\n")],
    'add_group': [(H, ADD, "            vals = _seen.setdefault(k, [])\n            vals.append(v)\n            setitem(k, vals if len(vals) > 1 else v)\n")],
    'query_env': [(B, "        if qs:\n            parse_qsl(qs,", "        if len(qs) > 0:\n            parse_qsl(qs,")],
    'params_update': [(P, "return self._forms_factory(self.query, **self.forms)", "ret = self._forms_factory(self.query)\n        ret.update(self.forms)\n        return ret")],
    'append_pairs': [(B, "parse_qsl(qs, setitem=ret.__setitem__)", "for k, v in _group(parse_qsl(qs)):\n                ret[k] = v"), (B, "class BodyMixin:", "def _group(pairs):\n    out = {}\n    for k, v in pairs:\n        out.setdefault(k, []).append(v)\n    return [(k, v if len(v) > 1 else v[0]) for k, v in out.items()]\n\n\nclass BodyMixin:")],
    'enum_start': [(H, "        idx = 0; c = None\n        for idx, c in enumerate(qs[i:]):\n            if c == '=' or c == '&':\n                break\n        else:\n            idx += 1\n        j = i + idx\n", "        j = L\n        c = None\n        for idx, c in enumerate(qs[i:], i):\n            if c == '=' or c == '&':\n                j = idx\n                break\n")],
    'stdlib': [(H, PARSE, "    for k, v in _std(qs, keep_blank_values=True):\n        if k:\n            add(k, v)\n"), (H, "from urllib.parse import unquote as urlunquote", "from urllib.parse import unquote as urlunquote, parse_qsl as _std")],
    'regex': [(H, PARSE, "    for m in re.finditer('([^=&]*)(?:=([^&]*))?(?:&|$)', qs):\n        if m.group(1):\n            add(urlunquote(m.group(1).replace('+', ' ')), urlunquote((m.group(2) or '').replace('+', ' ')))\n")],
}
