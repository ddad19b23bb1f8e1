"""What decides the properties beyond the engine (see manifest.py)"""
CONF = ("model checking: TLC decides recorded traces of the real parser and engine against the TLA+ specification KeydConfig/KeydEngine",
        "Each generated configuration text is given to the real parser (built with ASAN) and to the reader specified in "
        "KeydConfig.tla; every trace of the real engine must be a behaviour of the specified engine under the specified reading. "
        "Bounded by the texts generated; trusts TLC, the harness and the specification.")
MORE = {"C15": CONF, "C16": CONF, "C17": CONF, "C18": CONF}
DAEMON = ("model checking: TLC decides recorded traces of the real daemon in a scripted world against the TLA+ specification KeydDaemon/KeydEngine",
          "The whole daemon (built with ASAN) runs in scripted worlds of devices, clients and time; every trace of what crosses its boundary "
          "must be a behaviour of the specification. Bounded by the worlds generated; trusts TLC, the harness (which plays the kernel) and "
          "the specification.")
for _n in range(19, 26):
    MORE["C%d" % _n] = DAEMON
MORE["C26"] = ("model checking: TLC decides recorded reports of the real USB gadget backend against the TLA+ specification HidGadget, whose own behaviours it explores",
               "Every key and random histories of keys through the real backend (ASAN, UBSAN), each report judged by TLC. Bounded by the histories "
               "generated; trusts TLC, the harness (the host takes every report) and the specification.")
MORE["C27"] = ("model checking: TLC decides recorded keyd bind commands of the real application mapper against the TLA+ specification AppMapper, whose own behaviours it explores",
               "The real script runs with five stand-ins for desktops, random app.conf files and histories of windows; TLC judges which bindings are "
               "in force after every step. Bounded by what is generated; trusts TLC, the stand-ins and the specification.")
