OM, R, RE, CH = 'ombott.py', 'request_pkg/request.py', 'response.py', 'common_helpers.py'
BUGS = {
    'no_reset': [(OM, "        response.__init__()\n", "")],
    'shared_raise': [(R, "                err = self._fresh(out_err)\n", "                err = out_err\n")],
}
REFS = {}
