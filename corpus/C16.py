S = 'static_stream.py'
R = "    root = os_path.abspath(root) + os.sep\n"
F = "    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))\n"
G = "    if not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n"
BUGS = {
    'nosep': [(S, R, "    root = os_path.abspath(root)\n")],
    'nonorm': [(S, F, "    filename = os_path.join(root, filename.strip('/\\\\'))\n")],
    'nocheck': [(S, G, "")],
    'dotdot_cond': [(S, G, "    if '/..' in filename and not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n")],
    'prefix': [(S, G, "    if os_path.commonprefix([filename, root]) != root.rstrip(os.sep):\n        return HTTPError(403, \"Access denied.\")\n"), (S, R, "    root = os_path.abspath(root)\n")],
    'rstrip': [(S, "filename.startswith(root)", "filename.startswith(root.rstrip(os.sep))")],
    'inroot': [(S, "filename.startswith(root)", "root in filename")],
    'cache': [(S, F, "    if filename in _seen:\n        filename = _seen[filename]\n    else:\n        filename = _seen.setdefault(filename, os_path.abspath(os_path.join(root, filename.strip('/\\\\'))))\n"), (S, G, "    if filename not in _ok and not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n    _ok.add(filename)\n"), (S, "def static_file", "_seen = {}\n_ok = set()\n\n\ndef static_file")],
    'isfile': [(S, "if not os_path.exists(filename) or not os_path.isfile(filename)", "if not os_path.exists(filename)")],
    'unquote': [(S, "open(filename, 'rb')", "open(filename.replace('%2e', '.'), 'rb')")],
    'status': [(S, 'HTTPError(403, "Access denied.")', 'HTTPError(400, "Access denied.")')],
    'headonly': [(S, G, "    if request.method == 'GET' and not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n")],
    'lower': [(S, "filename.startswith(root)", "filename.lower().startswith(root.lower())")],
    'join2': [(S, F, "    filename = os_path.normpath(os_path.join(root, filename.strip('/\\\\')))\n    filename = os_path.join(os_path.dirname(filename), os_path.expanduser(os_path.basename(filename)))\n")],
}
REFS = {
    'commonpath': [(S, R, "    root = os_path.abspath(root)\n"), (S, "not filename.startswith(root)", "os_path.commonpath([root, filename]) != root")],
    'realpath': [(S, "os_path.abspath(root)", "os_path.realpath(root)"), (S, "os_path.abspath(os_path.join", "os_path.realpath(os_path.join")],
    'helper': [(S, "def static_file", "def _inside(path, base):\n    return path.startswith(base)\n\n\ndef static_file"), (S, "not filename.startswith(root)", "not _inside(filename, root)")],
    'newvar': [(S, F, "    full = os_path.join(root, filename.strip('/\\\\'))\n    full = os_path.abspath(full)\n    filename = full\n")],
    'joinempty': [(S, R, "    root = os_path.join(os_path.abspath(root), '')\n")],
    'slash': [(S, R, "    root = '%s%s' % (os_path.abspath(root), os.sep)\n")],
    'slice': [(S, "not filename.startswith(root)", "filename[:len(root)] != root")],
    'with_noise': [(S, G, "    ok = filename.startswith(root)\n    if not ok:\n        return HTTPError(403, \"Access denied.\")\n")],
    'elif': [(S, "    if not os_path.exists(filename) or not os_path.isfile(filename):", "    if not os_path.isfile(filename):")],
    'relpath': [(S, "not filename.startswith(root)", "os_path.relpath(filename, root).split(os.sep)[0] == '..'")],
    'tryopen': [(S, "body = '' if request.method == 'HEAD' else open(filename, 'rb')", "if request.method == 'HEAD':\n        body = ''\n    else:\n        body = open(filename, mode='rb')")],
    'nested': [(S, "    if not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n    if not os_path.exists(filename) or not os_path.isfile(filename):\n        return HTTPError(404, \"File does not exist.\")\n", "    if filename.startswith(root):\n        if not (os_path.exists(filename) and os_path.isfile(filename)):\n            return HTTPError(404, \"File does not exist.\")\n    else:\n        return HTTPError(403, \"Access denied.\")\n")],
    'pathlib': [(S, "not filename.startswith(root)", "not pathlib.Path(filename).is_relative_to(root)"), (S, "import os\n", "import os\nimport pathlib\n")],
}
