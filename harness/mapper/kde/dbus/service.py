objects = {}
class BusName:
    def __init__(self, name, bus=None, *a, **k):
        self.name = name
class Object:
    def __init__(self, conn=None, object_path=None, bus_name=None):
        n = bus_name or conn
        objects[(n.name, object_path)] = self
def method(interface, *a, **k):
    return lambda f: f
