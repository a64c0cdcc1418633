"""A loopback gRPC service of the kind the agent talks to, and a channel that only records."""
import threading
from concurrent import futures


class Service:
    """Records polls and snapshots; `on_poll(request, n)` gives the response (or raises)."""

    def __init__(self, on_poll=None, on_send=None):
        import grpc
        from deepproto.proto.poll.v1 import poll_pb2, poll_pb2_grpc
        from deepproto.proto.tracepoint.v1 import tracepoint_pb2, tracepoint_pb2_grpc
        self.polls, self.snapshots = [], []
        self.lock = threading.Lock()
        self.cv = threading.Condition(self.lock)
        svc = self

        class Poll(poll_pb2_grpc.PollConfigServicer):
            def poll(self, request, context):
                with svc.cv:
                    svc.polls.append((request, list(context.invocation_metadata())))
                    n = len(svc.polls)
                    svc.cv.notify_all()
                if on_poll is not None:
                    r = on_poll(request, n)
                    if r is not None:
                        return r
                return poll_pb2.PollResponse(ts_nanos=1, response_type=poll_pb2.ResponseType.NO_CHANGE)

        class Send(tracepoint_pb2_grpc.SnapshotServiceServicer):
            def send(self, request, context):
                with svc.cv:
                    svc.snapshots.append((request, list(context.invocation_metadata())))
                    n = len(svc.snapshots)
                    svc.cv.notify_all()
                if on_send is not None:
                    on_send(request, n)
                return tracepoint_pb2.SnapshotResponse()

        self.server = grpc.server(futures.ThreadPoolExecutor(max_workers=4), options=[("grpc.max_receive_message_length", -1)])
        # the answer to a poll can be raw bytes (a service that does not speak the protocol)
        self.server.add_generic_rpc_handlers((grpc.method_handlers_generic_handler("deepproto.proto.poll.v1.PollConfig", {
            "poll": grpc.unary_unary_rpc_method_handler(Poll().poll, request_deserializer=poll_pb2.PollRequest.FromString,
                                                        response_serializer=lambda r: r if isinstance(r, bytes) else r.SerializeToString())}),))
        tracepoint_pb2_grpc.add_SnapshotServiceServicer_to_server(Send(), self.server)
        self.port = self.server.add_insecure_port("127.0.0.1:0")
        self.server.start()
        self.url = "127.0.0.1:%d" % self.port

    def wait(self, polls=0, snapshots=0, timeout=20):
        with self.cv:
            return self.cv.wait_for(lambda: len(self.polls) >= polls and len(self.snapshots) >= snapshots, timeout)

    def clear(self):
        with self.cv:
            del self.polls[:]
            del self.snapshots[:]

    def close(self):
        self.server.stop(0).wait()


class FakeChannel:
    """channel.unary_unary as the generated stubs use it. Requests are serialised and parsed again, as on the wire."""

    def __init__(self, handler):
        self.handler = handler  # (method name, request, metadata, timeout) -> response
        self.closed = 0

    def unary_unary(self, name, request_serializer=None, response_deserializer=None, *a, **k):
        method = name.rsplit("/", 1)[-1]

        def call(request, timeout=None, metadata=None, **kw):
            data = request_serializer(request)
            again = type(request).FromString(data)
            r = self.handler(method, again, metadata)
            if r is None:
                return None
            return response_deserializer(r.SerializeToString())
        return call

    def close(self):
        self.closed += 1


class FakeGrpc:
    """Stands in for the agent's GRPCService."""

    def __init__(self, handler, metadata=()):
        self.channel = FakeChannel(handler)
        self._md = list(metadata)

    def start(self):
        pass

    def shutdown(self):
        pass

    def metadata(self):
        return self._md
