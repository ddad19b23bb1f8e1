from . import X, Xatom
