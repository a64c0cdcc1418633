"""Reference model of the bounded attribute store and of resource construction (written from the property text)."""
from collections import OrderedDict
from urllib import parse

REJECT = object()
SCALARS = (bool, str, bytes, int, float)


def clean_scalar(v, limit):
    if v is None:
        return REJECT
    if isinstance(v, bytes):
        try:
            v = v.decode()
        except UnicodeDecodeError:
            return REJECT
    if limit is not None and isinstance(v, str):
        v = v[:limit]
    return v


def clean(key, value, limit):
    if not isinstance(key, str) or key == "":
        return REJECT
    if isinstance(value, SCALARS):
        return clean_scalar(value, limit)
    if isinstance(value, (list, tuple, bytearray, range)):
        out, kind = [], None
        for e in value:
            c = clean_scalar(e, limit) if isinstance(e, bytes) or e is None else e
            if c is REJECT:
                out.append(None)
                continue
            if type(c) not in SCALARS:
                return REJECT
            if isinstance(c, str) and limit is not None:
                c = c[:limit]
            if kind is None:
                kind = type(c)
            elif kind is not type(c):
                return REJECT
            out.append(c)
        return tuple(out)
    return REJECT


class RefAttrs:
    def __init__(self, cap=None, limit=None):
        self.cap, self.limit = cap, limit
        self.d = OrderedDict()
        self.dropped = 0
        self.frozen = False

    def set(self, k, v):
        if self.cap == 0:
            self.dropped += 1
            return
        c = clean(k, v, self.limit)
        if c is REJECT:
            return
        if k in self.d:
            del self.d[k]
        elif self.cap is not None and len(self.d) >= self.cap:
            self.d.popitem(last=False)
            self.dropped += 1
        self.d[k] = c


SDK_LANG, SDK_NAME, SDK_VERSION = "telemetry.sdk.language", "telemetry.sdk.name", "telemetry.sdk.version"
SERVICE = "service.name"


def env_attrs(attr_text, service):
    out = {}
    if attr_text:
        for item in attr_text.split(","):
            if "=" not in item:
                continue
            k, v = item.split("=", 1)
            out[k.strip()] = parse.unquote(v.strip())
    if service:
        out[SERVICE] = service
    return {k: v for k, v in out.items() if k}
