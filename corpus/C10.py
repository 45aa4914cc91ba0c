CH, OM = 'common_helpers.py', 'ombott.py'
BUGS = {
    'class_store': [(CH, "            local_store = getattr(self, store_name, None)\n            if local_store is None:\n                local_store = threading.local()\n                setattr(self, store_name, local_store)\n", "            local_store = shared\n            setattr(self, store_name, local_store)\n"), (CH, "        cls_init = cls.__init__\n", "        cls_init = cls.__init__\n        shared = threading.local()\n")],
    'serving': [(OM, "            Globals.serving.app = outer_app\n", "            Globals.serving.app = None\n")],
}
REFS = {}
