"""Reading and writing through the code under test"""
import io
from vp.core import call
from sldr import ldml as L


def load(text, usedrafts=True, uparrows=False):
    if isinstance(text, str):
        text = text.encode('utf-8')
    return call(L.Ldml, io.BytesIO(text), usedrafts=usedrafts, uparrows=uparrows)


def save(ldml, **kw):
    out = []
    call(ldml.serialize_xml, out.append, **kw)
    return "".join(out)
