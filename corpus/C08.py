CH, OM = 'common_helpers.py', 'ombott.py'
BUGS = {
    'plain_store': [(CH, "                local_store = threading.local()\n", "                local_store = types.SimpleNamespace()\n")],
    'plain_hdr': [(CH, "        self._ts = threading.local()\n", "        self._ts = types.SimpleNamespace()\n")],
}
REFS = {}
