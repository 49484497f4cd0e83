"""The properties of the Python agent server library."""
from sim import *
from common import *

PROPS = {}
def prop(f):
    PROPS[f.__name__.upper()] = f
    return f

import q_conn, q_proc   # noqa
PROPS.update(q_conn.PROPS); PROPS.update(q_proc.PROPS)
