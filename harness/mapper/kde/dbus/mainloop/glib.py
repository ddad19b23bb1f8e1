def DBusGMainLoop(set_as_default=False):
    return None
