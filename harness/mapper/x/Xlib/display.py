# Just enough of python-xlib: every event carries the state of the server.
import os, json, select
A = {"_NET_WM_NAME": 300, "WM_NAME": 39, "_NET_WM_STATE": 301, "_NET_WM_STATE_ABOVE": 302,
     "_NET_WM_WINDOW_TYPE": 303, "_NET_WM_WINDOW_TYPE_NOTIFICATION": 304}
class BadWindow(Exception):
    pass
class Val:
    def __init__(self, **k):
        self.__dict__.update(k)
class Window:
    def __init__(self, d, id):
        self.d, self.id = d, id
    def _w(self):
        for w in self.d.state["w"]:
            if w["id"] == self.id:
                return w
        raise BadWindow()
    def change_attributes(self, **k):
        pass
    def get_wm_class(self):
        if self.id == 0:
            return None
        c = self._w()["c"]
        return ("instance", c[0]) if c else None
    def query_tree(self):
        kids = [Window(self.d, w["id"]) for w in self.d.state["w"] if w["up"] == self.id]
        if self.id == 0:
            return Val(parent=0, children=kids)
        return Val(parent=Window(self.d, self._w()["up"]), children=kids)
    def get_full_property(self, atom, type):
        if self.id == 0:
            return None
        w = self._w()
        if atom == A["_NET_WM_NAME"]:
            return Val(value=w["n"][0].encode("utf8")) if w["n"] else None
        if atom == A["WM_NAME"]:
            return Val(value=w["m"][0].encode("latin1")) if w["m"] else None
        if atom == A["_NET_WM_STATE"]:
            return Val(value=[A["_NET_WM_STATE_ABOVE"]]) if w["above"] else None
        if atom == A["_NET_WM_WINDOW_TYPE"]:
            return Val(value=[A["_NET_WM_WINDOW_TYPE_NOTIFICATION"]]) if w["note"] else None
        return None
class Display:
    def __init__(self):
        self.fd = int(os.environ["KV_FD"])
        self.q, self.buf, self.state = [], b"", {"f": 0, "w": []}
    def screen(self):
        return Val(root=Window(self, 0))
    def intern_atom(self, name, only_if_exists=False):
        return A[name]
    def fileno(self):
        return self.fd
    def _read(self):
        d = os.read(self.fd, 65536)
        if not d:
            os._exit(0)
        self.buf += d
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            self.q.append(json.loads(l))
    def pending_events(self):
        while select.select([self.fd], [], [], 0)[0]:
            self._read()
        return len(self.q)
    def next_event(self):
        while not self.q:
            self._read()
        self.state = self.q.pop(0)
        return Val(type=22)
    def get_input_focus(self):
        if self.state["f"] < 0:
            raise BadWindow()
        return Val(focus=Window(self, self.state["f"]) if self.state["f"] else 1)
