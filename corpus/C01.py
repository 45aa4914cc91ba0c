D = 'router/radidict.py'
R = 'router/radirouter.py'
F = 'router/filter_factory.py'
P = 'router/parser.py'
O = 'ombott.py'
BUGS = {
    'no_lookback': [(D, "                if idx[-1] == TOKEN:\n                    look_back.append(", "                if idx[-1] == TOKEN and not look_back:\n                    look_back.append(")],
    'lookback_params': [(D, "                    look_back.append(\n                        [route, pnode, i, L, params[:], hooks[:], shift, True]", "                    look_back.append(\n                        [route, pnode, i, L, params, hooks[:], shift, True]")],
    'lookback_shift': [(D, "look_back.pop()\n", "look_back.pop(0)\n")],
    'token_cr': [(D, "if c == c0 and c != TOKEN:", "if c == c0:")],
    'child_plus': [(D, "pnode = pnode[OFFSET + kidx]\n                key = pnode[KEY]\n                key_end = i + len(key)\n                if key == route[i: key_end]:\n                    i = key_end\n                    h", "pnode = pnode[OFFSET + kidx]\n                key = pnode[KEY]\n                key_end = i + len(key)\n                if route[i:].startswith(key[:2]):\n                    i = key_end\n                    h")],
    'filter_search': [(F, "                tmp = mask.match(param)\n                    if not tmp:\n                        return None, 0, None\n                    return f_in(tmp.group())", "                tmp = mask.search(param)\n                    if not tmp:\n                        return None, 0, None\n                    return f_in(tmp.group())"), ],
    'filter_search2': [(F, "                tmp = mask.match(param)\n                if not tmp:\n                    return None, 0, None\n                return tmp.group(), tmp.end(), None", "                tmp = mask.search(param)\n                if not tmp:\n                    return None, 0, None\n                return tmp.group(), tmp.end(), None")],
    'int_neg': [(F, "r'-?\\d+', int,", "r'\\d+', int,")],
    'int_str': [(F, "r'-?\\d+', int,", "r'-?\\d+', None,")],
    'float_int': [(F, "r'-?\\d+(\\.\\d+)?', float", "r'-?\\d+\\.\\d+', float")],
    'float_greedy': [(F, "r'-?\\d+(\\.\\d+)?', float", "r'-?[\\d.]+', float")],
    'path_lazy': [(F, "f'.+(?={re.escape(conf)})'", "f'.+?(?={re.escape(conf)})'")],
    'path_noesc': [(F, "f'.+(?={re.escape(conf)})'", "f'.+(?={conf})'")],
    'cache_key': [(F, "fkey = f'{filter}({args})'", "fkey = filter")],
    'cache_args': [(F, "fkey = f'{filter}({args})'", "fkey = f'{filter}'[:2] + f'({args})'")],
    'names_first': [(R, "self.params = route.params if params is None else params", "self.params = route.params")],
    'anon_shown': [(R, "for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)", "for n, v in zip(names, values)")],
    'names_rev': [(R, "zip(names, values) if not", "zip(names, reversed(values)) if not")],
    'strip_l': [(R, "path = path.strip('/')\n", "path = path.lstrip('/')\n")],
    'strip_one': [(R, "path = path.strip('/')\n", "path = path[1:]\n")],
    'split_token': [(D, "            idx = key_rest[0],\n            weight = node[WEIGHT] + 1", "            idx = key_rest[-1],\n            weight = node[WEIGHT] + 1")],
    'mount_order': [(D, "            pnode[IDX] = ckey[0] + pnode[IDX]\n", "            pnode[IDX] = pnode[IDX] + ckey[0]\n")],
    'token_mid': [(D, "            pnode.append(child)\n            pnode[IDX] += ckey\n", "            pnode.insert(OFFSET, child)\n            pnode[IDX] = ckey + pnode[IDX]\n")],
    'seq_wild': [(D, "                                if route[j] == PATH_SEP:\n", "                                if route[j] in (PATH_SEP, '.'):\n")],
    'cr_stop': [(D, "                                if route[j] == PATH_SEP:\n", "                                if route[j] in (PATH_SEP, TOKEN):\n")],
    'empty_none': [(D, "                        if param_value is not None:\n", "                        if param_value:\n")],
    'filter_cmp': [(D, "                        and pnode[FILTER] != param_filters[param_idx]\n", "                        and param_filters[param_idx] is None and pnode[FILTER] != param_filters[param_idx]\n")],
    'filters_idx': [(D, "prm_exclusions[prm_idx:], prm_filters[prm_idx:], prm_keys", "prm_exclusions[prm_idx:], prm_filters, prm_keys")],
    'param_idx_inc': [(D, "                if route_key == TOKEN:\n                    param_idx += 1\n", "                if route_key == TOKEN and len(route) > i + 1:\n                    param_idx += 0\n")],
    'anon_counter': [(R, "                    param = f'{cls.anon_prefix}{anon_counter}'\n                    anon_counter += 1\n", "                    param = f'{cls.anon_prefix}{anon_counter}'\n")],
    'bottle_conf': [(P, "filter_args = S.eat(fr'[^{dclose}]+')", "filter_args = S.eat(fr'\\w+')")],
    'paren': [(P, "filter_args = S.expect_parenthesized()[1:-1]", "filter_args = S.expect_parenthesized()[1:-1].strip('()')")],
    'path_tail': [(P, "                    token_pos = tmp.end() if tmp else len(tail)\n", "                    token_pos = tmp.end() if tmp else 0\n"), (P, "fr'[^{param_tokens}]+', tail", "fr'[^{param_tokens}/]+', tail")],
    'any_lost': [(O, "            methods = [verb, 'ANY']", "            methods = [verb]")],
    'head_get': [(O, "methods = [verb, 'GET', 'ANY']", "methods = [verb, 'ANY']")],
    'kw_none': [(O, "        return route(**kwargs)\n", "        return route(**{k: v for k, v in kwargs.items() if v})\n")],
    'kw_str': [(O, "        return route(**kwargs)\n", "        return route(**{k: str(v) for k, v in kwargs.items()})\n")],
    'reuse_names': [(R, "        params = route.params\n        route_ = ", "        params = None\n        route_ = ")],
    'match_nofilter': [(R, "route_ = self._match(route.pattern, route.filters)", "route_ = self._match(route_pattern=route.pattern)")],
    'lookback_i': [(D, "route, pnode, i, L, params, hooks, shift, look_type = look_back.pop()", "route, pnode, i, _, params, hooks, shift, look_type = look_back.pop()")],
    'selector_lost': [(D, "route = str(selector) + route[i:]\n", "route = str(selector) + route[i + 1:]\n")],
    'split_children': [(D, "            children = [node]\n", "            children = node[OFFSET:]\n")],
    'split_data': [(D, "        node[KEY] = key_rest\n", "        node[KEY] = key_rest\n        pnode[DATA] = node[DATA]\n")],
    'prefix_len': [(D, "split_idx = len(common_pref([key, by_key]))\n", "split_idx = len(common_pref([key, by_key])) or 1\n        split_idx = min(split_idx, 3)\n")],
    'int_ascii': [(F, "r'-?\\d+', int,", "r'-?\\d{1,9}', int,")],
}
GETLOOP = """                            j = i
                            while j < L:
                                if route[j] == PATH_SEP:
                                    break
                                j += 1
                            param_value = route[i:j]
"""
REFS = {
    'find': [(D, GETLOOP, "                            j = route.find(PATH_SEP, i)\n                            if j < 0:\n                                j = L\n                            param_value = route[i:j]\n")],
    'partition': [(D, GETLOOP, "                            param_value = route[i:].partition(PATH_SEP)[0]\n                            j = i + len(param_value)\n")],
    'split': [(D, GETLOOP, "                            param_value = route[i:].split(PATH_SEP, 1)[0]\n                            j = i + len(param_value)\n")],
    'startswith': [(D, "                if key == route[i: key_end]:\n                    i = key_end\n                    h = pnode[HOOKS]", "                if route.startswith(key, i):\n                    i = key_end\n                    h = pnode[HOOKS]")],
    'idxfind': [(D, "                    c0 = route[i]\n                    for ic, c in enumerate(idx):\n                        if c == c0 and c != TOKEN:\n                            kidx = ic; break  # found!\n", "                    c0 = route[i]\n                    c = idx[-1]\n                    if c0 != TOKEN:\n                        pos = idx.find(c0)\n                        if pos >= 0:\n                            kidx = pos\n                            c = c0\n")],
    'extract': [(D, GETLOOP, "                            param_value, j = self._segment(route, i, L)\n"), (D, "    def get(self, route, allow_partial=False):\n", "    def _segment(self, route, i, L):\n        j = i\n        while j < L and route[j] != self.path_sep:\n            j += 1\n        return route[i:j], j\n\n    def get(self, route, allow_partial=False):\n")],
    'copy_list': [(D, "[route, pnode, i, L, params[:], hooks[:], shift, True]", "(route, pnode, i, L, list(params), list(hooks), True)")],
    'make_params': [(R, "        return {n: v for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)}\n", "        ret = {}\n        for idx, name in enumerate(names):\n            if name.startswith(cls.anon_prefix):\n                continue\n            ret[name] = values[idx]\n        return ret\n")],
    'mask_local': [(F, "                tmp = mask.match(param)\n                if not tmp:\n                    return None, 0, None\n                return tmp.group(), tmp.end(), None", "                found = mask.match(param)\n                if found is None:\n                    return None, 0, None\n                return found[0], found.end(), None")],
    'handler_fn': [(F, "        if f_in:\n            code = ", "        match = mask.match\n        if f_in:\n            code = ")],
    'parse_append': [(R, "            pattern.append(part + filter_selector)\n            pattern_out.append(part)\n        return ''.join(pattern), params, filters, ''.join(pattern_out), filters_out\n", "            pattern.append(f'{part}{filter_selector}')\n            pattern_out.append(part)\n        pattern_str = ''.join(pattern)\n        out_str = ''.join(pattern_out)\n        return pattern_str, params, filters, out_str, filters_out\n")],
    'commonprefix': [(D, "            split_idx = len(common_pref([key, by_key]))\n", "            split_idx = 0\n            for a, b in zip(key, by_key):\n                if a != b:\n                    break\n                split_idx += 1\n")],
    'slice_fn': [(D, "        node = pnode[:]\n", "        node = list(pnode)\n")],
    'resolve_early': [(R, "        if not methods:\n            return route or None\n\n        if not route:\n            return None, [404, 'Not Found', extra]\n", "        if not methods:\n            return route if route else None\n\n        if route is None:\n            return None, [404, 'Not Found', extra]\n")],
    'lookback_fn': [(D, "                    look_back.append(\n                        [route, pnode, i, L, params[:], hooks[:], shift, True]\n                    )\n", "                    state = [route, pnode, i, L, params.copy(), hooks.copy(), True]\n                    look_back.append(state)\n")],
    'named': [(D, "            for ic, c in enumerate(pnode_idx or []):\n                if c == c0:\n                    kidx = ic; break  # found!\n            else:\n                break  # not found - break while\n", "            kidx = (pnode_idx or '').find(c0)\n            if kidx < 0:\n                break  # not found - break while\n")],
}
