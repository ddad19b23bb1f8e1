# Files the mapper writes outside its home go to a scratch directory
import builtins, os
_open = builtins.open
def _redirected(f, *a, **k):
    if isinstance(f, str) and f.startswith("/tmp/keyd-"):
        f = os.environ["KV_TMP"] + "/" + os.path.basename(f)
    return _open(f, *a, **k)
builtins.open = _redirected
