import os, json
class MainLoop:
    def run(self):
        import dbus
        fd = int(os.environ["KV_FD"])
        buf = b""
        while True:
            d = os.read(fd, 65536)
            if not d:
                return
            buf += d
            while b"\n" in buf:
                l, buf = buf.split(b"\n", 1)
                e = json.loads(l)
                dbus.activate(e["t"], e["c"], "name-of-it")
