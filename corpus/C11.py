D = 'router/radidict.py'
R = 'router/radirouter.py'
O = 'ombott.py'
BUGS = {
    'names_left': [(R, "            del self.routes[route.pattern]\n            self._remove_named_routers({route.pattern})\n", "            del self.routes[route.pattern]\n")],
    'names_left2': [(R, "                self.routes.pop(route_pattern, None)\n                self._remove_named_routers({route_pattern})", "                self.routes.pop(route_pattern, None)")],
    'names_left3': [(R, "                self._remove_named_routers(set(patterns_to_del))\n", "")],
    'names_first': [(R, "            if r.pattern in pattern_set:\n                self.named_routes.pop(k)", "            if r.pattern in pattern_set:\n                self.named_routes.pop(k)\n                break")],
    'routes_left': [(R, "                self.routes.pop(route_pattern, None)\n", "")],
    'prefix_in': [(R, "if pattern.startswith(route_pattern)", "if route_pattern in pattern")],
    'prefix_names_order': [(R, "                route_pattern = route_pattern[:-1]\n                patterns_to_del", "                route_pattern = route_pattern[:-1].rstrip('/')\n                patterns_to_del")],
    'hooks_dropped': [(D, "        if hooks_only:\n            node[HOOKS] = None\n            if node[DATA] is not None:\n                return\n", "        if hooks_only:\n            node[HOOKS] = None\n            if node[DATA] is not None:\n                return\n        else:\n            node[HOOKS] = None\n")],
    'prune_hooks': [(D, "if not (node[DATA] or node[IDX] or node[HOOKS]):", "if not (node[DATA] or node[IDX]):")],
    'prune_one': [(D, "                key0_to_del = node[KEY][0]\n            else:\n                break", "                key0_to_del = None if key0_to_del else node[KEY][0]\n            else:\n                break")],
    'merge_hooks': [(D, "            or pnode[DATA] or pnode[HOOKS]\n            or not", "            or pnode[DATA]\n            or not")],
    'merge_data': [(D, "            or pnode[DATA] or pnode[HOOKS]\n            or not", "            or pnode[HOOKS]\n            or not")],
    'merge_token': [(D, "            or pnode[IDX] == self.param_token\n", "")],
    'merge_token2': [(D, "            or pnode[KEY] == self.param_token\n", "")],
    'merge_key': [(D, "        new_key = pnode[KEY] + child[KEY]\n        pnode[:] = child", "        new_key = child[KEY]\n        pnode[:] = child")],
    'merge_root': [(D, "            pnode is self.root\n            or pnode", "            pnode")],
    'merge_many': [(D, "or not pnode[IDX] or len(pnode[IDX]) != 1", "or not pnode[IDX]")],
    'offset_kidx': [(D, "del node[OFFSET + kidx]", "del node[OFFSET]")],
    'wild_partial': [(D, "            or mismatch == MismatchType.PARTIAL\n            and node[KEY].startswith(route_pattern[ptr:])\n        ):\n            node[IDX] = None", "            or mismatch == MismatchType.PARTIAL\n        ):\n            node[IDX] = None")],
    'wild_nopartial': [(D, "        if is_wildcard and (\n            not mismatch\n            or mismatch == MismatchType.PARTIAL\n            and node[KEY].startswith(route_pattern[ptr:])\n        ):", "        if is_wildcard and not mismatch:")],
    'wild_keepidx': [(D, "            node[IDX] = None\n            del node[OFFSET:]", "            node[IDX] = (node[IDX] or '')[:1] or None\n            del node[OFFSET + 1:]")],
    'mismatch_go': [(D, "        elif mismatch:\n            return\n\n        if hooks_only", "        elif mismatch and mismatch != MismatchType.PARTIAL:\n            return\n\n        if hooks_only")],
    'hooks_data': [(D, "            node[HOOKS] = None\n            if node[DATA] is not None:\n                return", "            node[HOOKS] = None")],
    'hooks_params': [(D, "        hooks = [[0, hooks]] if hooks else []", "        hooks = []")],
    'look_hooks': [(D, "params[:], hooks[:], shift, True]", "params[:], hooks, shift, True]")],
    'token_hooks': [(D, "                            pnode = token_node\n                            h = pnode[HOOKS]\n                            if h:\n                                hooks.append([i + shift, h])\n", "                            pnode = token_node\n")],
    'token_hook_pos': [(D, "                            params.append(param_value)\n                            i = j\n                            pnode = token_node\n                            h = pnode[HOOKS]\n                            if h:\n                                hooks.append([i + shift, h])\n", "                            params.append(param_value)\n                            pnode = token_node\n                            h = pnode[HOOKS]\n                            if h:\n                                hooks.append([i + shift, h])\n                            i = j\n")],
    'split_hooks': [(D, "            weight = node[WEIGHT] + 1,\n            children = [node]\n", "            weight = node[WEIGHT] + 1,\n            hooks = node[HOOKS],\n            children = [node]\n")],
    'rej_name': [(R, "        if route_:\n            route = route_\n", "        if name:\n            self.named_routes[name] = route\n        if route_:\n            route = route_\n")],
    'rej_index': [(R, "            self.radidict.add(route.pattern, route, route.params_signature())\n            self.routes[route.pattern] = route\n", "            self.routes[route.pattern] = route\n            self.radidict.add(route.pattern, route, route.params_signature())\n")],
    'over_replace': [(R, "            route.set_method(methods, handler, meta, params)\n        else", "            route._methods.clear()\n            route.set_method(methods, handler, meta, params)\n        else")],
    'over_new': [(R, "        if route_:\n            route = route_\n", "        if route_ and not overwrite:\n            route = route_\n")],
    'name_free': [(R, "if not overwrite and registered and registered is not route_:", "if not overwrite and registered and registered is route_:")],
    'hook_installer': [(R, "        route_hooks[hook_type] = hook\n        return route_hooks", "        route_hooks = [None, None]\n        route_hooks[hook_type] = hook\n        return route_hooks")],
    'hook_index': [(R, "        self.hooks.pop(route_pattern, None)\n", "")],
    'hook_unset': [(R, "        self.radidict.remove(route_pattern, hooks_only=True)\n", "")],
    'hook_wholeroute': [(R, "self.radidict.remove(route_pattern, hooks_only=True)", "self.radidict.remove(route_pattern)")],
    'hook_match_data': [(R, "return node[DATA] if not get_hooks else node[HOOKS]", "return node[DATA] if not get_hooks else node[DATA] and node[HOOKS]")],
    'hook_order': [(O, "            for route_pos, hooks in route_hooks:\n", "            for route_pos, hooks in reversed(route_hooks):\n")],
    'hook_prefix': [(O, "                    hook(path[:1 + route_pos])", "                    hook(path[:route_pos] or '/')")],
    'hook_last': [(O, "                if hook:\n                    hook(path[:1 + route_pos])", "                if not hook:\n                    break\n                hook(path[:1 + route_pos])")],
    'hook_after': [(O, "        if route_hooks:\n            path = app.request.path\n            for route_pos, hooks in route_hooks:\n                hook = hooks[HookTypes.SIMPLE]\n                if hook:\n                    hook(path[:1 + route_pos])\n        return route(**kwargs)",
                    "        ret = route(**kwargs)\n        if route_hooks:\n            path = app.request.path\n            for route_pos, hooks in route_hooks:\n                hook = hooks[HookTypes.SIMPLE]\n                if hook:\n                    hook(path[:1 + route_pos])\n        return ret")],
    'set_data_none': [(D, "                if item is None:\n                    continue\n", "                if item is None and item_idx != HOOKS:\n                    continue\n")],
    'route_hooks_lost': [(D, "        pnode[HOOKS] = hooks or None\n", "")],
    'exact_ignored': [(D, "if not exact and route_pattern and route_pattern[-1] == '*':", "if route_pattern and route_pattern[-1] == '*':")],
    'root_hooks': [(D, "        while i < L:\n            pnode_idx = pnode[IDX]", "        if not route:\n            mismatch = MismatchType.WHOLE\n        while i < L:\n            pnode_idx = pnode[IDX]")],
    'remove_idx_empty': [(D, "                node[IDX] = node[IDX].replace(key0_to_del, '')\n", "                node[IDX] = node[IDX].replace(key0_to_del, '') if len(node[IDX]) > 2 else node[IDX][:0] if len(node[IDX]) == 1 else node[IDX][-1]\n")],
    'hook_shift': [(D, "                                shift += i - len(str(selector))\n", "")],
}
REFS = {
    'rename': [(D, "key0_to_del", "dead")],
    'try_split': [(D, "        if (\n            pnode is self.root\n            or pnode[DATA] or pnode[HOOKS]\n", "        if pnode is self.root:\n            return\n        if pnode[DATA] or pnode[HOOKS]:\n            return\n        if (\n            False\n")],
    'names_list': [(R, "        for k, r in [*self.named_routes.items()]:\n            if r.pattern in pattern_set:\n                self.named_routes.pop(k)", "        gone = [k for k, r in self.named_routes.items() if r.pattern in pattern_set]\n        for k in gone:\n            del self.named_routes[k]")],
    'names_new': [(R, "        for k, r in [*self.named_routes.items()]:\n            if r.pattern in pattern_set:\n                self.named_routes.pop(k)", "        self.named_routes = {k: r for k, r in self.named_routes.items() if r.pattern not in pattern_set}")],
    'routes_comp': [(R, "                patterns_to_del = [\n                    pattern for pattern in self.routes\n                    if pattern.startswith(route_pattern)\n                ]\n                [self.routes.pop(pattern) for pattern in patterns_to_del]\n", "                patterns_to_del = set()\n                for pattern in list(self.routes):\n                    if pattern[:len(route_pattern)] == route_pattern:\n                        patterns_to_del.add(pattern)\n                        del self.routes[pattern]\n")],
    'early': [(R, "        if not registered:\n", "        if not registered:\n")] if False else [(R, "        if name:\n            self.named_routes[name] = route\n        return route", "        if not name:\n            return route\n        self.named_routes[name] = route\n        return route")],
    'remove_loop': [(D, "        stack.reverse()\n        assert node is stack[0]\n", "        stack = stack[::-1]\n        assert node is stack[0]\n")],
    'remove_pop': [(D, "        for node in stack:\n            if key0_to_del:", "        for node in list(stack):\n            if key0_to_del:")],
    'merge_copy': [(D, "        child = pnode[OFFSET]\n        new_key = pnode[KEY] + child[KEY]\n        pnode[:] = child\n        pnode[KEY] = new_key", "        child = pnode[OFFSET][:]\n        child[KEY] = pnode[KEY] + child[KEY]\n        pnode[:] = child")],
    'no_merge': [(D, "                self._try_merge(node)\n", "")],
    'hook_helper': [(O, "        if route_hooks:\n            path = app.request.path\n            for route_pos, hooks in route_hooks:\n                hook = hooks[HookTypes.SIMPLE]\n                if hook:\n                    hook(path[:1 + route_pos])\n", "        path = app.request.path\n        for pos, (simple, _) in route_hooks or ():\n            if simple:\n                simple(path[:pos + 1])\n")],
    'installer': [(R, "        if not route_hooks:\n            route_hooks = [None, None]\n        route_hooks[hook_type] = hook\n        return route_hooks", "        pair = route_hooks or [None, None]\n        pair[hook_type] = hook\n        return pair")],
    'remove_hook': [(R, "        self.radidict.remove(route_pattern, hooks_only=True)\n        self.hooks.pop(route_pattern, None)\n", "        if route_pattern in self.hooks:\n            del self.hooks[route_pattern]\n        self.radidict.remove(route_pattern, hooks_only=True)\n")],
    'resolve': [(R, "        path = path.strip('/')\n        route, extra", "        route, extra") , (R, "self.radidict.get(path, allow_partial=True)", "self.radidict.get(path.strip('/'), allow_partial=True)")],
    'match_for': [(D, "            for ic, c in enumerate(pnode_idx or []):\n                if c == c0:\n                    kidx = ic; break  # found!\n            else:\n                break  # not found - break while\n", "            kidx = (pnode_idx or '').find(c0)\n            if kidx < 0:\n                break  # not found - break while\n")],
    'index_set': [(R, "            self.radidict.add(route.pattern, route, route.params_signature())\n            self.routes[route.pattern] = route\n", "            sig = route.params_signature()\n            self.radidict.add(route.pattern, route, sig)\n            self.routes.update({route.pattern: route})\n")],
    'del_branch': [(D, "            node[IDX] = None\n            del node[OFFSET:]", "            node[OFFSET:] = []\n            node[IDX] = ''")],
}
