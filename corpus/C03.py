O = 'ombott.py'
S = 'response.py'
H = 'common_helpers.py'
SUP = "                out, suppressed = [], out\n                close = getattr(suppressed, 'close', None)\n                if close:\n                    close()\n"
EMIT = "[hook(*args, **kwargs) for hook in self._hooks[name][:]]"
DROP = "            if not isinstance(first, bytes):  # the iterable itself is dropped\n                close = getattr(out, 'close', None)\n                if close:\n                    close()\n"
FIN = "            finally:\n                self.emit('after_request')\n        except HTTPResponse as resp:"
CRIT = "            start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())\n"
OK = "            start_response(response._status_line, response.headerlist)\n            return out\n"
COND = "                response._status_code < 200\n                or response._status_code in {204, 304}\n                or environ['REQUEST_METHOD'] == 'HEAD'\n"
EMPTY = "                while not first:\n                    first = next(iout)\n"
BYT = "            if isinstance(out, bytes):\n                resp_headers.setdefault('Content-Length', len(out))\n                return [out]\n"
STRENC = "            if isinstance(out, str):\n                out = out.encode(response.charset)\n"
PEEK = "                if isinstance(first, str):\n                    charset = response.charset\n                    first = first.encode(charset)\n                    iout = map(lambda it: it.encode(charset), iout)\n"
ITERR = "            except Exception as err500:\n                # if not self.catchall: raise\n                first = HTTPError(500, 'Unhandled exception', err500, format_exc())\n"
WRAP = "            close = getattr(out, 'close', None)\n            if close:\n                new_iter = _closeiter(new_iter, close)\n            return new_iter\n"
HOOKS = "        if name in self.__hook_reversed:\n            self._hooks[name].insert(0, func)\n        else:\n            self._hooks[name].append(func)\n"
BUGS = {
    'len_chars': [(O, STRENC, ''), (O, BYT, "            if isinstance(out, (str, bytes)):\n                resp_headers.setdefault('Content-Length', len(out))\n                return [out if isinstance(out, bytes) else out.encode(response.charset)]\n")],
    'no_204': [(O, "in {204, 304}", "in {304}")],
    'no_304': [(O, "in {204, 304}", "in {204}")],
    'no_1xx': [(O, "response._status_code < 200\n                or ", "")],
    'head_body': [(O, "                or environ['REQUEST_METHOD'] == 'HEAD'\n", "")],
    'supp_205': [(O, "in {204, 304}", "in {202, 204, 304}")],
    'supp_le': [(O, "response._status_code < 200\n", "response._status_code <= 200\n")],
    'supp_noclose': [(O, SUP, "                out = []\n")],
    'supp_closetwice': [(O, SUP, SUP + "                getattr(suppressed, 'close', list)()\n")],
    'start_first': [(O, OK, "            return out\n"), (O, "            # rfc2616 section 4.3\n", "            start_response(response._status_line, response.headerlist)\n            # rfc2616 section 4.3\n")],
    'start_twice': [(O, OK, "            start_response(response._status_line, response.headerlist)\n            if out:\n                start_response(response._status_line, response.headerlist)\n            return out\n")],
    'start_before_cast': [(O, "            out = self._cast(self._handle(environ))\n", "            res = self._handle(environ)\n            start_response(response._status_line, response.headerlist)\n            out = self._cast(res)\n"), (O, OK, "            return out\n")],
    'crit_str': [(O, "[tob(err)] if", "[err] if")],
    'crit_status': [(O, "'500 INTERNAL SERVER ERROR', headers", "response._status_line, headers")],
    'crit_head': [(O, "[tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []", "[tob(err)]")],
    'crit_none': [(O, CRIT, "")],
    'closeiter_none': [(O, WRAP, "            return new_iter\n")],
    'closeiter_wrongobj': [(O, WRAP, WRAP.replace('getattr(out,', 'getattr(new_iter,'))],
    'close_early': [(O, WRAP, WRAP.replace("                new_iter = _closeiter(new_iter, close)\n", "                close()\n                new_iter = _closeiter(new_iter, close)\n"))],
    'drop_noclose': [(O, DROP, '')],
    'drop_first': [(O, "itertools.chain([first], iout)", "iout")],
    'no_skip_empty': [(O, EMPTY, "")],
    'skip_one': [(O, EMPTY, "                if not first:\n                    first = next(iout)\n")],
    'str_first_only': [(O, "                    iout = map(lambda it: it.encode(charset), iout)\n", "")],
    'iter_err_escapes': [(O, ITERR, "            except ValueError:\n                raise\n" + ITERR)],
    'iter_err_200': [(O, ITERR, "            except Exception:\n                first = b'error'\n")],
    'iter_err_empty': [(O, "            except StopIteration:\n", "            except (StopIteration, ValueError):\n")],
    'unsupported_str': [(O, "out = HTTPError(500, f'Unsupported response type: {type(first)}')", "out = f'Unsupported response type: {type(first)}'")],
    'hook_nocopy': [(O, EMIT, EMIT.replace('[:]', ''))],
    'hook_append': [(O, HOOKS, "        self._hooks[name].append(func)\n")],
    'hook_insert': [(O, HOOKS, "        self._hooks[name].insert(0, func)\n")],
    'hook_after_only_ok': [(O, "                return self.handler(self, route, kwargs, route_hooks, error404_405)\n            finally:\n                self.emit('after_request')\n", "                ret = self.handler(self, route, kwargs, route_hooks, error404_405)\n                self.emit('after_request')\n                return ret\n            finally:\n                pass\n")],
    'hook_before_outside': [(O, "            try:  # routing\n                self.emit('before_request')\n", "            self.emit('before_request')\n            try:  # routing\n")],
    'hook_before_late': [(O, "                self.emit('before_request')\n                route, kwargs, route_hooks = (None, None, None)\n                end_point, error404_405 = self.to_route(request.path, request.method)\n", "                route, kwargs, route_hooks = (None, None, None)\n                end_point, error404_405 = self.to_route(request.path, request.method)\n                self.emit('before_request')\n")],
    'hook_skip_404': [(O, "                self.emit('before_request')\n                route, kwargs, route_hooks = (None, None, None)\n                end_point, error404_405 = self.to_route(request.path, request.method)\n", "                route, kwargs, route_hooks = (None, None, None)\n                end_point, error404_405 = self.to_route(request.path, request.method)\n                if end_point:\n                    self.emit('before_request')\n")],
    'hook_after_twice': [(O, "                return self.handler(self, route, kwargs, route_hooks, error404_405)\n", "                ret = self.handler(self, route, kwargs, route_hooks, error404_405)\n                if isinstance(ret, HTTPError):\n                    self.emit('after_request')\n                return ret\n")],
    'hook_continue': [(O, EMIT, "for hook in self._hooks[name][:]:\n            try:\n                hook(*args, **kwargs)\n            except HTTPResponse:\n                pass")],
    'err_escape': [(O, "        except HTTPResponse as resp:\n            return resp\n", "        except HTTPResponse as resp:\n            return resp\n        except KeyError:\n            raise\n")],
    'err_200': [(O, "return HTTPError(500, \"Internal Server Error\", err500, stacktrace)", "return HTTPResponse('Internal Server Error')")],
    'resp_raise_500': [(O, "        except HTTPResponse as resp:\n            return resp\n", "        except HTTPError as resp:\n            return resp\n")],
    'apply_noline': [(S, "        response._status_line = self._status_line\n", "")],
    'apply_nocode': [(S, "        response._status_code = self._status_code\n", "")],
    'status_limit': [(S, "        if not 100 <= code <= 999:\n            raise ValueError('Status code out of range.')\n", "")],
    'status_1000': [(S, "100 <= code <= 999", "100 <= code <= 9999")],
    'hdr_int': [(S, "(name, val.encode('utf8').decode('latin1'))\n", "(name, val.encode('utf8').decode('latin1') if name != 'Content-Length' else int(val))\n")],
    'hdr_tuple': [(S, "            out.append(('Content-Type', self.default_content_type))", "            out.append(['Content-Type', self.default_content_type, ''][:2])")],
    'hdr_bytes': [(S, "(name, val.encode('utf8').decode('latin1'))\n", "(name, val.encode('utf8'))\n")],
    'err_handler_raw': [(O, "                out = self.error_handlers.get(\n                    out.status_code,\n                    self.default_error_handler\n                )(out); continue", "                out = self.error_handlers.get(\n                    out.status_code,\n                    self.default_error_handler\n                )(out)\n                return [tob(out)]")],
    'file_noclose': [(H, "('fileno', 'close', 'read', 'readlines', 'tell', 'seek')", "('fileno', 'read', 'readlines', 'tell', 'seek')")],
    'body_list': [(O, "                return [out]\n", "                return out\n")],
    'body_str': [(O, STRENC, ""), (O, "            if isinstance(out, bytes):\n", "            if isinstance(out, (bytes, str)):\n")],
    'page_noapply': [(O, "            if isinstance(out, HTTPError):\n                out.apply(response)\n", "            if isinstance(out, HTTPError):\n")],
    'cl_empty': [(O, "            if not out:\n                resp_headers.setdefault('Content-Length', 0)\n", "            if not out:\n                resp_headers.setdefault('Content-Length', 1)\n")],
    'cl_before': [(O, STRENC, "            if isinstance(out, str):\n                resp_headers.setdefault('Content-Length', len(out))\n                out = out.encode(response.charset)\n")],
    'cl_file': [(O, "                elif hasattr(out, 'close')", "                resp_headers.setdefault('Content-Length', 65536)\n                if hasattr(out, 'close')")],
}
REFS = {
    'supp_fn': [(O, SUP, "                self._drop(out)\n                out = []\n"), (O, "    def wsgi(self, environ, start_response):\n", "    @staticmethod\n    def _drop(out):\n        if hasattr(out, 'close'):\n            out.close()\n\n    def wsgi(self, environ, start_response):\n")],
    'cond_fn': [(O, COND, "                self._bodyless(response._status_code, environ)\n"), (O, "    def wsgi(self, environ, start_response):\n", "    @staticmethod\n    def _bodyless(code, environ):\n        return code // 100 == 1 or code == 204 or code == 304 or environ.get('REQUEST_METHOD') == 'HEAD'\n\n    def wsgi(self, environ, start_response):\n")],
    'emit_loop': [(O, EMIT, "for hook in list(self._hooks[name]):\n            hook(*args, **kwargs)")],
    'emit_tuple': [(O, EMIT, "for hook in tuple(self._hooks[name]):\n            hook(*args, **kwargs)")],
    'fin_except': [(O, "                return self.handler(self, route, kwargs, route_hooks, error404_405)\n            finally:\n                self.emit('after_request')\n", "                ret = self.handler(self, route, kwargs, route_hooks, error404_405)\n            finally:\n                self.emit('after_request')\n            return ret\n")],
    'bytes_first': [(O, STRENC + "\n            # Byte Strings are just returned\n" + BYT, "            if isinstance(out, (str, bytes)):\n                data = out.encode(response.charset) if isinstance(out, str) else out\n                resp_headers.setdefault('Content-Length', len(data))\n                return [data]\n")],
    'cl_str': [(O, "resp_headers.setdefault('Content-Length', len(out))\n", "if 'Content-Length' not in resp_headers:\n                    resp_headers['Content-Length'] = str(len(out))\n")],
    'peek_loop': [(O, "                first = next(iout)\n                while not first:\n                    first = next(iout)\n", "                while True:\n                    first = next(iout)\n                    if first:\n                        break\n")],
    'peek_for': [(O, "                first = next(iout)\n                while not first:\n                    first = next(iout)\n", "                first = None\n                for first in iout:\n                    if first:\n                        break\n                else:\n                    raise StopIteration\n")],
    'gen_enc': [(O, "iout = map(lambda it: it.encode(charset), iout)", "iout = (it.encode(charset) for it in iout)")],
    'status_prop': [(O, "start_response(response._status_line, response.headerlist)", "start_response(response.status_line, response.headerlist)")],
    'wrap_order': [(O, WRAP, "            close = getattr(out, 'close', None)\n            return _closeiter(new_iter, close) if close else new_iter\n")],
    'closeiter_loop': [(O, "        [cb() for cb in self.close_callbacks]\n", "        for cb in self.close_callbacks:\n            cb()\n")],
    'handle_pre': [(O, "                route, kwargs, route_hooks = (None, None, None)\n", "                route = kwargs = route_hooks = None\n")],
    'hook_rev': [(O, HOOKS, "        hooks = self._hooks[name]\n        hooks.insert(0 if name in self.__hook_reversed else len(hooks), func)\n")],
    'hook_emit_rev': [(O, HOOKS, "        self._hooks[name].append(func)\n"), (O, EMIT, "hooks = self._hooks[name][:]\n        if name in self.__hook_reversed:\n            hooks.reverse()\n        for hook in hooks:\n            hook(*args, **kwargs)")],
    'err_var': [(O, "                out = self.error_handlers.get(\n                    out.status_code,\n                    self.default_error_handler\n                )(out); continue", "                render = self.error_handlers.get(out.status_code) or self.default_error_handler\n                out = render(out)\n                continue")],
    'status_two': [(S, "        if not 100 <= code <= 999:\n            raise ValueError('Status code out of range.')\n", "        if code < 100 or code > 999:\n            raise ValueError('Status code out of range.')\n")],
    'crit_fn': [(O, CRIT + "            return [tob(err)] if environ.get('REQUEST_METHOD') != 'HEAD' else []\n", CRIT + "            if environ.get('REQUEST_METHOD') == 'HEAD':\n                return []\n            return [tob(err)]\n")],
    'hdr_loop': [(S, "        out = [\n            (name, val.encode('utf8').decode('latin1'))\n            for (name, vals) in headers\n            for val in (vals if isinstance(vals, list) else [vals])\n        ]\n", "        out = []\n        for name, vals in headers:\n            if not isinstance(vals, list):\n                vals = [vals]\n            out.extend((name, val.encode('utf8').decode('latin1')) for val in vals)\n")],
}
