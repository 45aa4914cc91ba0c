O = 'ombott.py'
R = 'router/radirouter.py'
P = 'request_pkg/props_mixin.py'
TR = "        if verb == 'HEAD':\n            methods = [verb, 'GET', 'ANY']\n        else:\n            methods = [verb, 'ANY']\n"
GI = "        for name in method:\n            meth = self._methods.get(name.upper())\n            if meth:\n                return meth\n        raise RouteMethodError()\n"
AL = "allowed = \",\".join(sorted(route.methods))"
H405 = "            if status == 405:\n                raise HTTPError(status, body, Allow=extra)\n"
BUGS = {
    'any_first': [(O, TR, "        if verb == 'HEAD':\n            methods = [verb, 'ANY', 'GET']\n        else:\n            methods = [verb, 'ANY']\n")],
    'any_before': [(O, "            methods = [verb, 'ANY']\n", "            methods = ['ANY', verb]\n")],
    'head_no_get': [(O, "methods = [verb, 'GET', 'ANY']", "methods = [verb, 'ANY']")],
    'head_no_any': [(O, "methods = [verb, 'GET', 'ANY']", "methods = [verb, 'GET']")],
    'head_get_only': [(O, "methods = [verb, 'GET', 'ANY']", "methods = ['GET', verb, 'ANY']")],
    'options_get': [(O, "if verb == 'HEAD':", "if verb in ('HEAD', 'OPTIONS'):")],
    'all_get': [(O, "            methods = [verb, 'ANY']\n", "            methods = [verb, 'ANY', 'GET']\n")],
    'req_noupper': [(P, "self._env_get('REQUEST_METHOD', 'GET').upper()", "self._env_get('REQUEST_METHOD', 'GET')"), (R, "self._methods.get(name.upper())", "self._methods.get(name)")],
    'req_noupper1': [(P, "self._env_get('REQUEST_METHOD', 'GET').upper()", "self._env_get('REQUEST_METHOD', 'GET')")],
    'reg_noupper': [(R, "        methods = [_.upper() for _ in methods]\n", ""), (R, "for meth in [m.upper() for m in methods]", "for meth in methods")],
    'remove_noupper': [(R, "self._methods.pop(m.upper(), None) for m in method", "self._methods.pop(m, None) for m in method")],
    'remove_all': [(R, "[self._methods.pop(m.upper(), None) for m in method]", "self._methods.clear()")],
    'over_all': [(R, "    def set_method(self, method, handler, meta=None, params=None):\n", "    def set_method(self, method, handler, meta=None, params=None):\n        self._methods.clear()\n")],
    'over_keep': [(R, "        for meth in [m.upper() for m in methods]:\n            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)\n", "        for meth in [m.upper() for m in methods]:\n            self._methods.setdefault(meth, RouteMethod(self, meth, handler, meta, params))\n")],
    'over_newroute': [(R, "        if route_:\n            route = route_\n        else:\n", "        if route_ and not overwrite:\n            route = route_\n        else:\n")],
    'dup_ok': [(R, "        registered = set(self._methods) & {m.upper() for m in method}\n        if registered:", "        registered = set(self._methods) & {m.upper() for m in method}\n        if len(registered) > 1:")],
    'dup_case': [(R, "        methods = [_.upper() for _ in methods]\n", ""), (R, "set(self._methods) & {m.upper() for m in method}", "set(self._methods) & set(method)")],
    'dup_partial': [(R, "        self._raise_if_registered(method, handler)\n        self._set_methods(method, handler, meta, params)\n", "        for m in method:\n            self._raise_if_registered([m], handler)\n            self._set_methods([m], handler, meta, params)\n")],
    'allow_first': [(R, AL, "allowed = sorted(route.methods)[0]")],
    'allow_cands': [(R, AL, "allowed = ','.join(methods)")],
    'allow_head': [(R, AL, "allowed = ','.join(sorted(set(route.methods) | ({'HEAD'} if 'GET' in route.methods else set())))")],
    'allow_drop': [(O, "raise HTTPError(status, body, Allow=extra)", "raise HTTPError(status, body)")],
    'allow_space': [(R, AL, "allowed = ''.join(sorted(route.methods))")],
    'code405': [(R, "[405, \"Method not allowed.\", allowed]", "[404, \"Method not allowed.\", dict(hooks=[])]")],
    'code404': [(R, "            return None, [404, 'Not Found', extra]\n", "            return None, [405, 'Not Found', '']\n")],
    'status_hook': [(O, "            if status == 405:\n                raise HTTPError(status, body, Allow=extra)\n            else:", "            if status == 405 and not app.router.hooks and app.error_handlers.get('404-hooks') == {}:\n                raise HTTPError(404, body, Allow=extra)\n            elif status == 405:\n                raise HTTPError(status, body, Allow=extra)\n            else:")],
    'any_hidden': [(R, "            if meth:\n                return meth\n        raise RouteMethodError()\n", "            if meth and (name != 'ANY' or len(self._methods) == 1):\n                return meth\n        raise RouteMethodError()\n")],
    'last_wins': [(R, GI, "        found = None\n        for name in method:\n            found = self._methods.get(name.upper()) or found\n        if found:\n            return found\n        raise RouteMethodError()\n")],
    'first_only': [(R, GI, "        for name in method:\n            meth = self._methods.get(name.upper())\n            if meth:\n                return meth\n            if name != 'HEAD':\n                break\n        raise RouteMethodError()\n")],
}
REFS = {
    'to_route': [(O, TR, "        methods = [verb, 'ANY']\n        if verb == 'HEAD':\n            methods.insert(1, 'GET')\n")],
    'to_route2': [(O, TR, "        methods = [verb] + (['GET'] if verb == 'HEAD' else []) + ['ANY']\n")],
    'to_route3': [(O, TR, "        methods = dict(HEAD=('HEAD', 'GET', 'ANY')).get(verb) or (verb, 'ANY')\n")],
    'getitem_next': [(R, GI, "        meth = next((self._methods[n.upper()] for n in method if n.upper() in self._methods), None)\n        if meth is None:\n            raise RouteMethodError()\n        return meth\n")],
    'getitem_try': [(R, GI, "        for name in method:\n            try:\n                return self._methods[name.upper()]\n            except KeyError:\n                continue\n        raise RouteMethodError()\n")],
    'allow_list': [(R, AL, "allowed = ', '.join(route.methods)")],
    'allow_property': [(R, AL, "allowed = route.allowed"), (R, "    def params_signature(self):", "    @property\n    def allowed(self):\n        return ','.join(sorted(self._methods))\n\n    def params_signature(self):")],
    'resolve_get': [(R, "        try:\n            meth = route[methods]\n            params = route.make_params_dict(meth.params, extra['param_values'])\n            return [meth, params, extra['hooks']], None\n        except RouteMethodError:\n            allowed = \",\".join(sorted(route.methods))\n        return None, [405, \"Method not allowed.\", allowed]\n", "        try:\n            meth = route[methods]\n        except RouteMethodError:\n            return None, [405, \"Method not allowed.\", \",\".join(sorted(route.methods))]\n        params = route.make_params_dict(meth.params, extra['param_values'])\n        return [meth, params, extra['hooks']], None\n")],
    'handler_404': [(O, "            if status == 405:\n                raise HTTPError(status, body, Allow=extra)\n            else:  # not found\n", "            if status == 405:\n                err = HTTPError(status, body)\n                err.headers['Allow'] = extra\n                raise err\n            else:  # not found\n")],
    'setm_loop': [(R, "        for meth in [m.upper() for m in methods]:\n            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)\n", "        names = map(str.upper, methods)\n        self._methods.update((n, RouteMethod(self, n, handler, meta, params)) for n in names)\n")],
    'rm_loop': [(R, "[self._methods.pop(m.upper(), None) for m in method]", "for m in method:\n            m = m.upper()\n            if m in self._methods:\n                del self._methods[m]")],
    'dup_any': [(R, "        if registered:\n", "        if len(registered) > 0:\n")],
    'casefold': [(R, "self._methods.get(name.upper())", "self._methods.get(str.upper(name))")],
    'early': [(O, "    def to_route(self, path, verb):\n", "    def to_route(self, path, verb):\n        verb = verb.upper()\n")],
}
