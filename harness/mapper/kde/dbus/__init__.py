# Just enough of dbus-python and KWin: the script which is loaded is
# interpreted when a window is activated.
import os, re
from . import service, mainloop

class String(str):
    pass

class _Scripting:
    loaded = None
    def unloadScript(self, name):
        return False
    def loadScript(self, name):
        with open(name) as f:
            _Scripting.loaded = f.read()
        return 7

class _Script:
    def __init__(self, path):
        self.path = path
    def run(self):
        want = "/Scripting/Script7" if os.getenv("KDE_SESSION_VERSION") == "6" else "/7"
        if self.path == want:
            _Scripting.running = _Scripting.loaded
_Scripting.running = None

class SessionBus:
    def get_object(self, name, path):
        if name != "org.kde.KWin":
            raise Exception("no such name")
        return _Scripting() if path == "/Scripting" else _Script(path)

def activate(caption, cls, name):
    """a window is activated: what KWin does"""
    s = _Scripting.running
    if s is None:
        return
    sig = "windowActivated" if os.getenv("KDE_SESSION_VERSION") == "6" else "clientActivated"
    if sig not in s:
        return
    m = re.search(r"callDBus\(([^)]*)\)", s)
    args = [a.strip() for a in m.group(1).split(",")]
    val = {"caption": caption, "resourceClass": cls, "resourceName": name}
    dest, path, iface, method = [a.strip("\"'") for a in args[:4]]
    vals = [String(val[a.split(".")[1]]) if "." in a else String(a.strip("\"'")) for a in args[4:]]
    o = service.objects.get((dest, path))
    if o is not None:
        try:
            getattr(o, method)(*vals)
        except Exception:      # dbus-python answers with an error
            pass
