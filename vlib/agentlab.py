"""The whole agent on a network that the harness owns."""
import os
import sys
import threading

from . import boot
from .service import FakeChannel

_ME = threading.local()
_COUNT = iter(range(1, 10 ** 9))


def me():
    """A number of this thread that is never used again (unlike thread idents)."""
    if not hasattr(_ME, "n"):
        _ME.n = next(_COUNT)
    return _ME.n


class Net:
    """What the agent's channels are connected to. on_poll(request, n) / on_send(request, n) give the response or raise."""

    def __init__(self, on_poll=None, on_send=None):
        self.lock = threading.Lock()
        self.polls, self.sends, self.channels = [], [], []
        self.poll_threads, self.send_threads = [], []
        self.on_poll, self.on_send = on_poll, on_send
        self.on_close = None
        self.fail_open = 0
        self.polls_open = 0  # calls the service has not answered yet

    def open(self, url, *a, **k):
        if self.fail_open:
            self.fail_open -= 1
            raise ValueError("cannot open %s" % url)
        c = NetChannel(self, lambda *x: self.handle(*x))
        c.url, c.how = url, a[0] if a else None
        self.channels.append(c)
        return c

    def handle(self, method, request, metadata):
        from deepproto.proto.poll.v1 import poll_pb2
        from deepproto.proto.tracepoint.v1 import tracepoint_pb2
        if method == "poll":
            with self.lock:
                self.polls.append(request)
                self.poll_threads.append(me())
                n = len(self.polls)
                self.polls_open += 1
            try:
                r = self.on_poll(request, n) if self.on_poll is not None else None
            finally:
                with self.lock:
                    self.polls_open -= 1
            return r if r is not None else poll_pb2.PollResponse(ts_nanos=1, response_type=poll_pb2.ResponseType.NO_CHANGE)
        with self.lock:
            self.sends.append(request)
            self.send_threads.append(me())
            n = len(self.sends)
        if self.on_send is not None:
            self.on_send(request, n)
        return tracepoint_pb2.SnapshotResponse()


class NetChannel(FakeChannel):
    def __init__(self, net, handler):
        super().__init__(handler)
        self.net = net

    def unary_unary(self, *a, **k):
        call = super().unary_unary(*a, **k)

        def guarded(*a, **k):
            if self.closed:
                raise ValueError("Cannot invoke RPC on closed channel!")
            return call(*a, **k)
        return guarded

    def close(self):
        super().close()
        if self.net.on_close is not None:
            self.net.on_close(self)


NET = [None]


def install():
    """Every channel the agent opens belongs to NET[0]. To be called before `deep` is imported."""
    import grpc
    grpc.insecure_channel = lambda url, *a, **k: NET[0].open(url, "insecure")
    grpc.secure_channel = lambda url, *a, **k: NET[0].open(url, "secure")


def in_agent_code():
    """The stacks of other threads that are executing code of the agent now."""
    mine = threading.get_ident()
    out = []
    for ident, frame in sys._current_frames().items():
        f, names = frame, []
        while f is not None:
            names.append(f.f_code.co_filename)
            f = f.f_back
        if ident != mine and any(os.path.abspath(n).startswith(boot.DEEP_DIR) for n in names):
            out.append(names[:6])
    return out
