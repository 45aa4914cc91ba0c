R = 'router/radirouter.py'
F = 'router/filter_factory.py'
BUGS = {
    'clen_keep': [(R, "                end += clen\n                clen = 0\n                ret.append(pattern_out[cidx:end])", "                end += clen\n                ret.append(pattern_out[cidx:end])\n                clen = 0 if len(ret) < 3 else clen")],
    'cidx_adj': [(R, "            end = cidx\n            if clen:\n                end += clen\n                clen = 0\n                ret.append(pattern_out[cidx:end])\n            cidx = end + 1\n", "            if clen:\n                end = cidx + clen\n                clen = 0\n                ret.append(pattern_out[cidx:end])\n            cidx = end + 1\n")],
    'tail_lost': [(R, "        if clen:\n            end = cidx + clen\n            ret.append(pattern_out[cidx:end])\n", "        if clen > 1:\n            end = cidx + clen\n            ret.append(pattern_out[cidx:end])\n")],
    'args_same': [(R, "                prt = args[args_idx]\n                args_idx += 1\n", "                prt = args[args_idx]\n                args_idx = min(args_idx + 1, 1)\n")],
    'args_pidx': [(R, "prt = args[args_idx]", "prt = args[min(pidx - 1, len(args) - 1)]")],
    'fout_idx': [(R, "f_out = filters_out[pidx]", "f_out = filters_out[0]")],
    'fin_off': [(R, "            f_out = filters_out[pidx]\n            f_in = filters[pidx]\n            pidx += 1\n", "            f_out = filters_out[pidx]\n            pidx += 1\n            f_in = filters[pidx - 1 if pidx < 3 else 0]\n")],
    'float_str': [(F, "    ret = format(Decimal(repr(x)), 'f')\n", "    ret = str(x)\n")],
    'float_fixed': [(F, "    ret = format(Decimal(repr(x)), 'f')\n", "    ret = '%f' % x\n")],
    'float_g': [(F, "    ret = format(Decimal(repr(x)), 'f')\n", "    ret = '%g' % x\n")],
    'float_dot': [(F, "    return ret if '.' in ret else ret + '.0'\n", "    return ret.rstrip('0')\n")],
    'float_abs': [(F, "    x = float(x)\n    if", "    x = abs(float(x))\n    if")],
    'int_abs': [(F, "(r'-?\\d+', int, lambda x: str(int(x)))", "(r'-?\\d+', int, lambda x: str(abs(int(x))))")],
    'int_float': [(F, "lambda x: str(int(x))", "lambda x: str(int(float(x)))")],
    'int_fmt': [(F, "lambda x: str(int(x))", "lambda x: f'{int(x):,}'")],
    'truthy': [(R, "            if f_out:\n                prt = f_out(prt)\n", "            if f_out and prt:\n                prt = f_out(prt)\n")],
    'marker_strip': [(R, "        url = ''.join(ret)\n", "        url = ''.join(ret).strip('-.')\n")],
    'quote': [(R, "        url = ''.join(ret)\n", "        url = ''.join(p.replace('\\r', '') for p in ret)\n")],
    'check_whole': [(R, "                value, matched_len, _ = f_in(url[pos:])\n", "                value, matched_len, _ = f_in(url)\n")],
    'check_pos': [(R, "            pos += len(prt)\n", "            pos += len(prt) if f_in else 1\n")],
    'check_value': [(R, "assert value is not None and matched_len == len(prt)", "assert value and matched_len == len(prt)")],
    'noparams': [(R, "            return self.pattern_out\n", "            return self.pattern_out.strip('.')\n") , ] if False else [(R, "        if not params:\n            return self.pattern_out\n", "        if not params or params[0].startswith(self.anon_prefix) and not args:\n            return self.pattern_out\n")] if False else [(R, "                prt = kw[pname]\n", "                prt = kw.get(pname) or args[0]\n")],
    'kw_pop': [(R, "                prt = kw[pname]\n", "                prt = kw.popitem()[1]\n")],
    'selector_in_out': [(R, "            pattern_out.append(part)\n", "            pattern_out.append(part if part != '.' else '')\n")],
    'lit_lower': [(R, "            pattern_out.append(part)\n", "            pattern_out.append(part.replace(' ', '+'))\n")],
    'path_strip': [(R, "            if f_in:\n                to_check[len(ret)] = f_in\n", "            if f_in:\n                to_check[len(ret)] = f_in\n            elif not f_out:\n                prt = prt.strip()\n")],
    'int_group': [(F, "                    return f_in(tmp.group()), tmp.end(), None", "                    return f_in(tmp.group()), len(str(f_in(tmp.group()))), None")],
}
REFS = {
    'split': [(R, "        ret = []\n        to_check = {}\n        pidx = 0\n        args_idx = 0\n        cidx = 0\n        clen = 0\n        end = 0\n        for c in pattern_out:\n            if c != '\\r':\n                clen += 1\n                continue\n            end = cidx\n            if clen:\n                end += clen\n                clen = 0\n                ret.append(pattern_out[cidx:end])\n            cidx = end + 1\n\n            pname",
               "        ret = []\n        to_check = {}\n        pidx = 0\n        args_idx = 0\n        lits = pattern_out.split('\\r')\n        clen = 0\n        for lit in lits[:-1]:\n            if lit:\n                ret.append(lit)\n\n            pname"),
              (R, "        if clen:\n            end = cidx + clen\n            ret.append(pattern_out[cidx:end])\n", "        if lits[-1]:\n            ret.append(lits[-1])\n")],
    'iter_args': [(R, "        args_idx = 0\n", "        rest = iter(args)\n"), (R, "                prt = args[args_idx]\n                args_idx += 1\n", "                prt = next(rest)\n")],
    'append_zip': [(R, "            pname = params[pidx]\n            f_out = filters_out[pidx]\n            f_in = filters[pidx]\n            pidx += 1\n", "            pname, f_in, f_out = params[pidx], filters[pidx], filters_out[pidx]\n            pidx = pidx + 1\n")],
    'check_raise': [(R, "                assert value is not None and matched_len == len(prt)\n", "                if value is None or matched_len != len(prt):\n                    raise ValueError(f'{prt!r} does not fit its filter')\n")],
    'int_fmt': [(F, "lambda x: str(int(x))", "lambda x: f'{int(x)}'")],
    'int_fmt2': [(F, "lambda x: str(int(x))", "lambda x: '%d' % x")],
    'float_out': [(F, "    ret = format(Decimal(repr(x)), 'f')\n", "    ret = '{:f}'.format(Decimal(repr(x)))\n")],
    'join': [(R, "        url = ''.join(ret)\n", "        url = ''\n        for p in ret:\n            url += p\n")],
    'enumerate': [(R, "        for idx, prt in enumerate(ret):\n            f_in = to_check.get(idx)\n            if f_in:\n", "        for idx in range(len(ret)):\n            prt = ret[idx]\n            f_in = to_check.get(idx)\n            if f_in is not None:\n")],
    'float_isinf': [(F, "    if math.isinf(x):", "    if x in (float('inf'), float('-inf')):")],
}
