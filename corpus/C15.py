H = 'common_helpers.py'
P = 'request_pkg/props_mixin.py'
Q = 'request_pkg/helpers.py'
R = 'response.py'
CMP = "        return not sum(0 if x == y else 1 for x, y in zip(a, b)) and len(a) == len(b)"
IF = "        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):\n            return pickle.loads(base64.b64decode(msg))"
SPLIT = "        sig, msg = data.split(tob('?'), 1)\n"
SET = "        self._cookies[name] = value.encode('utf8').decode('latin1')"
GET = "            dec = cookie_decode(value, secret) if value else None  # (key, value) tuple or None\n            return dec[1] if dec and dec[0] == key else default"
BUGS = {
    'nolen': [(H, ' and len(a) == len(b)', '')],
    'len_le': [(H, 'len(a) == len(b)', 'len(a) <= len(b)')],
    'len_ge': [(H, 'len(a) == len(b)', 'len(a) >= len(b)')],
    'len_and_or': [(H, CMP, "        return not sum(0 if x == y else 1 for x, y in zip(a, b)) or len(a) == len(b)")],
    'cmp_slice': [(H, 'zip(a, b)) and', 'zip(a[:16], b)) and')],
    'cmp_skip': [(H, 'zip(a, b)) and', 'zip(a[1:], b[1:])) and')],
    'cmp_any': [(H, CMP, "        return any(x == y for x, y in zip(a, b)) and len(a) == len(b)")],
    'cmp_last': [(H, CMP, "        same = len(a) == len(b)\n        for x, y in zip(a, b):\n            same = x == y\n        return same")],
    'cmp_startswith': [(H, 'if _lscmp(sig[1:], base64', 'if tob("").join([sig[1:]]) and _lscmp(sig[1:], base64'), (H, CMP, "        return b.startswith(a)")],
    'cmp_sum_true': [(H, CMP, "        return not sum(x - y for x, y in zip(a, b)) and len(a) == len(b)")],
    'cmp_lower': [(H, CMP, "        return a.lower() == b.lower()")],
    'noverify': [(H, IF, "        obj = pickle.loads(base64.b64decode(msg))\n" + IF.replace('pickle.loads(base64.b64decode(msg))', 'obj'))],
    'mac_part': [(H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'hmac.new(tob(key), msg[:4096], digestmod=hashlib.md5).digest())):')],
    'mac_strip': [(H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'hmac.new(tob(key), msg.strip(), digestmod=hashlib.md5).digest())):')],
    'key_trunc': [(H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'hmac.new(tob(key)[:16], msg, digestmod=hashlib.md5).digest())):'), (H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())\n', 'hmac.new(tob(key)[:16], msg, digestmod=hashlib.md5).digest())\n')],
    'nokey': [(H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'hmac.new(tob(""), msg, digestmod=hashlib.md5).digest())):')],
    'plainhash': [(H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'hashlib.md5(msg).digest())):'), (H, 'hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())\n', 'hashlib.md5(msg).digest())\n')],
    'mac_short': [(H, 'digestmod=hashlib.md5).digest())):', 'digestmod=hashlib.md5).digest()[:4])):'), (H, 'digestmod=hashlib.md5).digest())\n', 'digestmod=hashlib.md5).digest()[:4])\n')],
    'sep_r': [(H, SPLIT, "        sig, msg = data.rsplit(tob('='), 1)\n")],
    'sep_differs': [(H, "sig + tob('?') + msg", "sig + tob('&') + msg")],
    'prefix_differs': [(H, "tob('!') + sig", "tob('#') + sig")],
    'digest_differs': [(H, 'digestmod=hashlib.md5).digest())):', 'digestmod=hashlib.sha1).digest())):')],
    'urlsafe_w': [(H, 'msg = base64.b64encode(pickle.dumps(data, -1))', 'msg = base64.urlsafe_b64encode(pickle.dumps(data, -1))')],
    'hex_w': [(H, 'sig = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())', 'sig = tob(hmac.new(tob(key), msg, digestmod=hashlib.md5).hexdigest())')],
    'mac_over_pickle': [(H, "    msg = base64.b64encode(pickle.dumps(data, -1))\n    sig = base64.b64encode(hmac.new(tob(key), msg,", "    raw = pickle.dumps(data, -1)\n    msg = base64.b64encode(raw)\n    sig = base64.b64encode(hmac.new(tob(key), raw,")],
    'sig_decode': [(H, "_lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest()))", "_lscmp(base64.b64decode(sig[1:]), hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())")],
    'cut2': [(H, '_lscmp(sig[1:], base64', '_lscmp(sig[2:], base64')],
    'dumps_noname': [(R, 'cookie_encode((name, value), secret)', 'cookie_encode((value, name), secret)')],
    'raw_on_fail': [(P, GET, GET.replace('else default', 'else (default if dec else value)'))],
    'no_name': [(P, GET, GET.replace('dec and dec[0] == key', 'dec'))],
    'dec0': [(P, GET, GET.replace('return dec[1]', 'return dec[0]'))],
    'no_latin': [(R, SET, "        self._cookies[name] = value")],
    'no_fix': [(P, 'return self.cookies.getunicode(key, value)', 'return value')],
    'latin_ignore': [(R, SET, "        self._cookies[name] = value.encode('latin1', 'ignore').decode('latin1')")],
    'strip': [(R, SET, "        self._cookies[name] = value.strip().encode('utf8').decode('latin1')")],
    'empty': [(P, '        if value is None:\n            return default\n', '        if not value:\n            return default\n')],
    'coded': [(P, '(c.key, c.value)', '(c.key, c.coded_value)')],
    'namelow': [(R, SET, SET.replace('[name]', '[name.lower()]'))],
    'first_only_pickled': [(H, "    if cookie_is_encoded(data):\n", "    if not cookie_is_encoded(data):\n        return pickle.loads(base64.b64decode(data))\n    if cookie_is_encoded(data):\n")],
    'verify_cached': [(H, 'if _lscmp(sig[1:]', 'if not key or _lscmp(sig[1:]')],
    'or_bypass': [(H, 'if _lscmp(sig[1:]', 'if not sig[1:] or _lscmp(sig[1:]')],
}
REFS = {
    'compare_digest': [(H, 'if _lscmp(sig', 'if hmac.compare_digest(sig')],
    'eq': [(H, 'if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):', 'if sig[1:] == base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest()):')],
    'cmp_loop': [(H, CMP, "        if len(a) != len(b):\n            return False\n        diff = 0\n        for x, y in zip(a, b):\n            diff |= x ^ y\n        return diff == 0")],
    'cmp_loop2': [(H, CMP, "        same = len(a) == len(b)\n        for x, y in zip(a, b):\n            if x != y:\n                same = False\n        return same")],
    'cmp_all': [(H, CMP, "        return len(a) == len(b) and all(x == y for x, y in zip(a, b))")],
    'cmp_idx': [(H, CMP, "        if len(a) != len(b):\n            return False\n        n = 0\n        for i in range(len(a)):\n            n += a[i] != b[i]\n        return not n")],
    'cmp_delegate': [(H, CMP, "        return hmac.compare_digest(a, b)")],
    'partition': [(H, SPLIT, "        sig, _, msg = data.partition(tob('?'))\n")],
    'mac_helper': [(H, "def cookie_encode(", "def _sign(msg, key):\n    mac = hmac.new(tob(key), msg, digestmod=hashlib.md5)\n    return base64.b64encode(mac.digest())\n\n\ndef cookie_encode("),
                   (H, 'sig = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())', 'sig = _sign(msg, key)'),
                   (H, "base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):", "_sign(msg, key)):")],
    'sha256': [(H, 'digestmod=hashlib.md5', 'digestmod=hashlib.sha256'), (H, 'digestmod=hashlib.md5', 'digestmod=hashlib.sha256')],
    'early': [(H, "    if cookie_is_encoded(data):\n" + SPLIT + IF + "\n    return None\n", "    if not cookie_is_encoded(data):\n        return None\n    sig, msg = data.split(b'?', 1)\n    good = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())\n    if not _lscmp(good, sig[1:]):\n        return None\n    payload = base64.b64decode(msg)\n    return pickle.loads(payload)\n")],
    'lstrip': [(H, "_lscmp(sig[1:],", "_lscmp(sig.lstrip(b'!'),")],
    'get_early': [(P, GET, "            if not value:\n                return default\n            dec = cookie_decode(value, secret)\n            if not dec:\n                return default\n            name, content = dec\n            if name != key:\n                return default\n            return content")],
    'join': [(H, "return tob('!') + sig + tob('?') + msg", "return b''.join((b'!', sig, b'?', msg))")],
    'fstr': [(R, SET, "        raw = value.encode('utf8')\n        self._cookies[name] = raw.decode('latin1')")],
    'listpairs': [(P, 'return self._cookie_factory((c.key, c.value) for c in cookies)', 'pairs = []\n        for c in cookies:\n            pairs.append((c.key, c.value))\n        return self._cookie_factory(pairs)')],
    'jar_items': [(P, "cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()\n        return self._cookie_factory((c.key, c.value) for c in cookies)", "jar = SimpleCookie(self._env_get('HTTP_COOKIE', ''))\n        return self._cookie_factory((k, m.value) for k, m in jar.items())")],
    'noisfunc': [(H, "    if cookie_is_encoded(data):\n", "    if data.startswith(b'!') and b'?' in data:\n")],
    'getunicode2': [(P, 'return self.cookies.getunicode(key, value)', 'try:\n            return value.encode("latin1").decode("utf8")\n        except UnicodeError:\n            return value')],
}
