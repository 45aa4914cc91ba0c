O = 'ombott.py'
E = 'error_render.py'
T = 'error.html'
CH = 'common_helpers.py'
ST = 'static_stream.py'
RR = 'router/radirouter.py'
CRIT = "                  % html_escape(environ.get('PATH_INFO', '/'))\n"
JS = "            if (environ.get('HTTP_ACCEPT') or '').startswith('application/json'):\n"
CL = "    clean_url = sanitize_html.escape(url)\n"
LN = "            ln = ln.format(**ctx)\n"
BUGS = {
    'crit_noesc': [(O, CRIT, "                  % environ.get('PATH_INFO', '/')\n")],
    'crit_raw_query': [(O, CRIT, "                  % (html_escape(environ.get('PATH_INFO', '/')) + environ.get('QUERY_STRING', ''))\n")],
    'crit_debug': [(O, "            if self.config.debug:\n                err +=", "            if not self.config.debug or environ.get('HTTP_X_DEBUG'):\n                err +=")],
    'crit_msg': [(O, CRIT, "                  % (html_escape(environ.get('PATH_INFO', '/')) + ' ' + html_escape(str(_e)))\n")],
    'crit_json_ct': [(O, "                headers = [('Content-Type', 'application/json')]\n", "")],
    'crit_json_no': [(O, JS, "            if False:\n")],
    'crit_json_hand': [(O, "                err = json.dumps(dict(\n                    body = 'Critical error while processing request',\n                    exception = repr(_e) if self.config.debug else None,\n                    traceback = format_exc() if self.config.debug else None\n                ))\n", "                err = '{\"body\": \"%s\"}' % html_escape(environ.get('PATH_INFO', '/'))\n")],
    'crit_json_exc': [(O, "                    exception = repr(_e) if self.config.debug else None,\n                    traceback = format_exc() if self", "                    exception = repr(_e),\n                    traceback = format_exc() if self")],
    'crit_unesc_late': [(O, CRIT, "                  % unquote(html_escape(environ.get('PATH_INFO', '/')))\n"), (O, "import urljoin", "import urljoin, unquote")],
    'esc_partial': [(CH, ".replace('<', '&lt;')", "")],
    'esc_noquoteamp': [(CH, ".replace('&', '&amp;')", "")],
    'render_noesc': [(E, CL, "    clean_url = url\n")],
    'render_unquote': [(E, CL, "    from urllib.parse import unquote\n    clean_url = unquote(sanitize_html.escape(url))\n")],
    'render_after': [(E, CL, "    clean_url = url if debug else sanitize_html.escape(url)\n    clean_url = sanitize_html.unescape(clean_url) if '&#' in clean_url else clean_url\n")],
    'render_rawsafe': [(E, CL, "    clean_url = url if url.isprintable() else sanitize_html.escape(url)\n")],
    'render_short': [(E, CL, "    clean_url = sanitize_html.escape(url) if '<script' in url else url\n")],
    'render_tmpl': [(E, LN, "            ln = ln.replace('{url}', clean_url).format(**ctx)\n")],
    'render_tmpl2': [(E, LN, "            ln = (ln.format(**ctx) if '{url}' not in ln else (ln % clean_url)).format(**ctx)\n")],
    'render_host': [(T, "<h1>Error: {e.status}</h1>", "<h1>Error: {e.status} {e.exception}</h1>")],
    'render_tb': [(T, "<pre>{traceback}</pre>", "<pre>{e.traceback}</pre>")],
    'render_debug': [(E, "    if debug:\n", "    if debug is not None:\n")],
    'render_dbg2': [(E, "    if debug:\n        traceback", "    ex = err_resp.exception or ex\n    if debug:\n        traceback")],
    'render_partial': [(E, CL, "    clean_url = url.replace('&', '&amp;').replace('<', '&lt;')\n")],
    'attr': [(T, "<tt>{url}</tt>", "<a href={url}>x</a>"), (E, CL, "    clean_url = sanitize_html.escape(url, quote=False)\n"), (E, "repr(clean_url)", "clean_url")],
    'json_ct': [(O, "            self.response.headers['Content-Type'] = 'application/json'\n", "")],
    'json_dbg': [(O, "                exception = repr(res.exception) if self.config.debug else None,\n                traceback", "                exception = repr(res.exception) if res.exception else None,\n                traceback")],
    'json_dbg2': [(O, "res.traceback if self.config.debug else None", "res.traceback")],
    'json_inv': [(O, "if self.request.is_json_requested:", "if not self.request.is_json_requested:")],
    'json_hand': [(O, "            ret = json.dumps(dict(\n                body = res.body,\n                exception = repr(res.exception) if self.config.debug else None,\n                traceback = res.traceback if self.config.debug else None\n            ))\n", "            ret = '{\"body\": \"%s\", \"url\": \"%s\"}' % (res.body, self.request.url)\n")],
    'json_no': [(O, "if self.request.is_json_requested:", "if self.request.is_json_requested and self.request.is_ajax:")],
    'body404': [(O, "                raise HTTPError(status, body)\n", "                raise HTTPError(status, body + ': ' + app.request.path)\n")],
    'body405': [(O, "raise HTTPError(status, body, Allow=extra)", "raise HTTPError(status, body + ': ' + app.request.method, Allow=extra)")],
    'body500': [(O, 'HTTPError(500, "Internal Server Error", err500, stacktrace)', 'HTTPError(500, "Internal Server Error: %s" % err500, err500, stacktrace)')],
    'body400': [(O, "HTTPError(400, 'Invalid path string. Expected UTF-8')", "HTTPError(400, 'Invalid path string %s. Expected UTF-8' % path)")],
    'static404': [(ST, 'HTTPError(404, "File does not exist.")', 'HTTPError(404, "File %s does not exist." % filename)')],
    'static_fmt': [(ST, 'HTTPError(403, "Access denied.")', 'HTTPError(403, "Access to %s denied." % html.escape(filename))'), (ST, 'import os\n', 'import os\nimport html\n')],
}
del BUGS['static_fmt']
REFS = {
    'crit_std': [(O, CRIT, "                  % html.escape(environ.get('PATH_INFO', '/'))\n"), (O, "import sys\n", "import sys\nimport html\n")],
    'crit_f': [(O, "            err = '<h1>Critical error while processing request: %s</h1>' \\\n" + CRIT, "            where = html_escape(environ.get('PATH_INFO', '/'))\n            err = f'<h1>Critical error while processing request: {where}</h1>'\n")],
    'crit_helper': [(O, "            err = '<h1>Critical error while processing request: %s</h1>' \\\n" + CRIT, "            err = self._critical(environ)\n"), (O, "    def wsgi(self, environ", "    def _critical(self, environ):\n        return ''.join(['<h1>Critical error while processing request: ', html_escape(environ.get('PATH_INFO', '/')), '</h1>'])\n\n    def wsgi(self, environ")],
    'crit_json_var': [(O, JS, "            accept = environ.get('HTTP_ACCEPT', '') or ''\n            wants_json = accept.startswith('application/json')\n            if wants_json:\n")],
    'crit_repr': [(O, CRIT, "                  % html_escape(repr(environ.get('PATH_INFO', '/')))\n")],
    'crit_nopath': [(O, CRIT, "                  % 'sorry'\n")],
    'esc_std': [(CH, "    return string.replace('&', '&amp;').replace('<', '&lt;')", "    return string.replace('&', '&amp;').replace('<', '&lt;').replace('`', '&#96;')")],
    'esc_table': [(CH, "def html_escape(string):", "_TBL = str.maketrans({'&': '&amp;', '<': '&lt;', '>': '&gt;', '\"': '&quot;', \"'\": '&#039;'})\n\n\ndef html_escape(string):\n    return string.translate(_TBL)\n\n\ndef html_escape0(string):")],
    'esc_loop': [(CH, "def html_escape(string):", "def html_escape(string):\n    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('\"', '&quot;'), (\"'\", '&#039;')):\n        string = string.replace(a, b)\n    return string\n\n\ndef html_escape0(string):")],
    'esc_html': [(CH, "def html_escape(string):", "def html_escape(string):\n    import html\n    return html.escape(string)\n\n\ndef html_escape0(string):")],
    'render_norepr': [(E, "repr(clean_url)", "clean_url")],
    'render_repr_first': [(E, CL, "    clean_url = sanitize_html.escape(repr(url))\n"), (E, "repr(clean_url)", "clean_url")],
    'render_read': [(E, "        with html.open('r') as f:\n            s = f.readlines()\n        _html_lns[:] = [ln.strip() for ln in s]\n", "        _html_lns.extend(ln.strip() for ln in html.read_text().splitlines())\n")],
    'render_kw': [(E, LN, "            ln = ln.format(e=err_resp, exception=ex, traceback=traceback, url=repr(clean_url))\n")],
    'render_fmap': [(E, LN, "            ln = ln.format_map(ctx)\n")],
    'render_inline': [(E, "url = repr(clean_url)", "url = repr(sanitize_html.escape(url))")],
    'render_cont': [(E, "        elif ln.startswith('<style'):\n            skip_until = '</style'\n        else:\n            ln = ln.format(**ctx)\n        out.append(ln)\n", "            out.append(ln)\n            continue\n        if ln.startswith('<style'):\n            skip_until = '</style'\n            out.append(ln)\n            continue\n        out.append(ln.format(**ctx))\n")],
    'render_helper': [(E, "def render(", "def _clean(u):\n    return sanitize_html.escape(u, quote=True)\n\n\ndef render("), (E, CL, "    clean_url = _clean(url)\n")],
    'render_notraw': [(E, "    ex = traceback = '-] Forbidden [-'\n    if debug:\n", "    if not debug:\n        ex = traceback = '-] Forbidden [-'\n    else:\n")],
    'json_ct_first': [(O, "            ret = json.dumps(dict(", "            self.response.content_type = 'application/json'\n            ret = json.dumps(dict(")],
    'json_early': [(O, "        else:\n            ret = error_render.render(res, self.request.url, self.config.debug)\n        return ret\n", "            return ret\n        return error_render.render(res, self.request.url, self.config.debug)\n")],
    'json_dbgvar': [(O, "        if self.request.is_json_requested:\n            ret = json.dumps(dict(\n                body = res.body,\n                exception = repr(res.exception) if self.config.debug else None,\n                traceback = res.traceback if self.config.debug else None\n            ))\n", "        if self.request.is_json_requested:\n            info = {'body': res.body, 'exception': None, 'traceback': None}\n            if self.config.debug:\n                info['exception'] = repr(res.exception)\n                info['traceback'] = res.traceback\n            ret = json.dumps(info)\n")],
    'body404': [(O, "                raise HTTPError(status, body)\n", "                raise HTTPError(status, body or 'Not found')\n")],
    'handler_var': [(O, '            return HTTPError(500, "Internal Server Error", err500, stacktrace)\n', '            err = HTTPError(500, "Internal Server Error", err500, stacktrace)\n            return err\n')],
}
