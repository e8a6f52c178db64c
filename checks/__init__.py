"""Registry of the property checks."""
ALL = {}
NA = {}  # id -> (title, reason)


def prop(pid, title):
    def d(f):
        ALL[pid] = (title, f)
        return f

    return d


from . import hydro  # noqa: E402,F401
from . import config  # noqa: E402,F401
from . import mesh  # noqa: E402,F401
from . import boundary  # noqa: E402,F401
from . import physics  # noqa: E402,F401
from . import views  # noqa: E402,F401
from . import runs  # noqa: E402,F401
from . import io  # noqa: E402,F401
from . import setups  # noqa: E402,F401
from . import kernels  # noqa: E402,F401
