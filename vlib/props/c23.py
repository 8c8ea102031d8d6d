"""C23: every visualization client is initialized once, then receives every update."""
import json

import hypothesis.strategies as st

from .. import rend, sched
from ..core import HarnessError, Part, Violation, check, sut

rend.setup()

INIT = json.dumps({"messageLabel": "init", "deviceType": [0, 1], "title": "T\u00e9st \"x\""}, separators=(",", ":"))


def update(k, pad=0):
    return json.dumps({"messageLabel": "update", "k": k, "pad": "x" * pad, "reward": [0.5 * k, 1e-7]})


# --- callbacks of the server, driven through the server library without sockets ------------------------------------------


class Stop(BaseException):
    pass


_made = []
_fake = []


def fake_server_class():
    import websocket_server

    class FakeServer(websocket_server.WebsocketServer):
        """The library's server, without a socket."""

        def __init__(self, port, host="127.0.0.1", *a, **k):
            self.port = port
            self.clients = []
            self.id_counter = 0
            _made.append(self)

        def run_forever(self, *a, **k):
            raise Stop

    return FakeServer


class FakeProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.pid, self.exitcode, self.daemon = None, None, daemon

    def start(self):
        try:
            self.target(*self.args, **self.kwargs)
        except Stop:
            pass

    def terminate(self):
        pass

    kill = join = terminate

    def is_alive(self):
        return True


def new_server():
    """The library's server object with the callbacks of a WsServer."""
    import multiprocessing
    import websocket_server

    if not _fake:
        _fake.append(rend.fresh([(websocket_server, "WebsocketServer", fake_server_class()), (multiprocessing, "Process", FakeProcess)]))
    _made.clear()
    with rend.quiet():
        ws = _fake[0].WsServer()
    if len(_made) != 1:
        raise HarnessError("the WebSocket server was not created")
    return ws, _made[0]


class Handler:
    """Connection of one client: records what it is sent; a dead one can no longer be written to."""

    def __init__(self, name):
        self.name, self.got, self.dead = name, [], False
        self.client_address = ("127.0.0.1", 1)

    def send_message(self, msg):
        if self.dead:
            raise BrokenPipeError(32, "Broken pipe")
        self.got.append(msg)


@st.composite
def cases(draw, stages, width):
    """Stages of concurrent operations of viewers and of the environment."""
    out, n, alive, init, k = [], 0, [], False, 0
    for _ in range(draw(st.integers(*stages))):
        stage, busy = [], set()
        for _ in range(draw(st.integers(*width))):
            op = draw(st.sampled_from(["connect", "connect", "update", "update", "init", "init", "leave", "die", "vanish"]))
            if op == "connect":
                stage.append(["connect", n])
                busy.add(n)
                n += 1
            elif op in ("leave", "die", "vanish"):
                c = [v for v in alive if v not in busy]
                if c:
                    v = draw(st.sampled_from(c))
                    busy.add(v)
                    stage.append([op, v])
            elif op == "init":
                if not init and not any(o[0] == "init" for o in stage):
                    stage.append(["init"])
            elif not any(o[0] == "update" for o in stage):  # the environment sends one message at a time
                if not any(o[0] == "init" for o in stage):
                    stage.append(["update", k])
                    k += 1
        for o in stage:
            if o[0] == "connect":
                alive.append(o[1])
            elif o[0] in ("leave", "die", "vanish"):
                alive.remove(o[1])
            elif o[0] == "init":
                init = True
        if stage:
            out.append(stage)
    return {"stages": out, "schedule": draw(st.lists(st.integers(0, 3), min_size=1, max_size=60)), "pad": draw(st.sampled_from([0, 0, 200])), "same": draw(st.booleans())}


def judge(ctx, log, viewers, pad):
    """`log`: stages as executed; `viewers`: {name: messages received}."""
    life = {}  # viewer -> (stage connected, stage left)
    t_init = None
    for s, stage in enumerate(log):
        for o in stage:
            if o[0] == "connect":
                life[o[1]] = [s, None]
            elif o[0] in ("leave", "die", "vanish"):
                life[o[1]][1] = s
            elif o[0] == "init":
                t_init = s
    sent = [(s, o[1]) for s, stage in enumerate(log) for o in stage if o[0] == "update"]
    for v, (a, b) in life.items():
        got = viewers[v]
        inits = [i for i, m in enumerate(got) if m == INIT]
        ups = []
        for m in got:
            if m == INIT:
                continue
            u = [k for _, k in sent if m == update(k, pad)]
            check(len(u) == 1, "viewer %d received %r, which was never sent", v, m)
            ups.append(u[0])
        check(len(inits) <= 1, "viewer %d received the initialization %d times: %r", v, len(inits), log)
        if t_init is None:
            check(not inits, "viewer %d was initialized before the initialization was sent", v)
        elif b is None or b > t_init:
            check(len(inits) == 1, "viewer %d (connected in stage %d, initialization sent in stage %d) was not initialized: %r", v, a, t_init, log)
        else:
            check(not inits or b == t_init, "viewer %d was initialized after it left", v)
        check(ups == sorted(set(ups)), "viewer %d received the updates %r", v, ups)
        for s, k in sent:
            if a < s and (b is None or s < b):
                check(k in ups, "viewer %d (connected from stage %d to %r) missed update %d of stage %d: %r", v, a, b, k, s, log)
            elif s < a or (b is not None and s > b):
                check(k not in ups, "viewer %d (connected from stage %d to %r) received update %d of stage %d", v, a, b, k, s)
        if inits and ups:
            after = [k for s, k in sent if s > t_init]
            early = [m for m in got[:inits[0]] if m in [update(k, pad) for k in after]]
            check(not early, "viewer %d received %r before its initialization: %r", v, early, log)
    if t_init is not None and any(a < t_init for a, _ in life.values()) and any(a > t_init for a, _ in life.values()):
        ctx.event("clients_before_and_after_init")


def body_callbacks(ctx, case):
    try:
        with sut("WsServer()"):
            ws, server = new_server()
    except HarnessError:
        ctx.event("no_callbacks")
        return
    hs = {}
    leaving = []
    errors = []

    def call(f, *a):
        try:
            f(*a)
        except OSError as e:  # a write to a client that is gone, in the thread of this connection
            errors.append(e)

    def producer(name, msg):
        def run():
            h = Handler(name)
            server._new_client_(h)
            call(server._message_received_, h, msg)
            server._client_left_(h)

        return run

    def op(o):
        if o[0] == "connect":
            h = hs[o[1]] = Handler(o[1])
            return lambda: server._new_client_(h)
        if o[0] == "leave":
            return lambda: server._client_left_(hs[o[1]])
        if o[0] == "die":
            h = hs[o[1]]

            def die():
                h.dead = True
                server._client_left_(h)

            return die
        if o[0] == "vanish":  # the connection is lost, the server does not know yet
            h = hs[o[1]]
            return lambda: setattr(h, "dead", True)
        if o[0] == "init":
            return producer("init", INIT)
        return producer("update", update(o[1], case["pad"]))

    s = sched.Sched(("/gym_anm/", "c23.py"), case["schedule"])
    with rend.quiet():
        for stage in case["stages"]:
            fns = [op(o) for o in stage]
            try:
                errs = s.run(fns)
            except sched.Deadlock as e:
                raise Violation("deadlock in %r: %s" % (stage, e))
            for o, e in zip(stage, errs):
                check(e is None, "%r raised %r in %r", o, e, case["stages"])
    judge(ctx, case["stages"], {v: h.got for v, h in hs.items()}, case["pad"])
    flat = [o for stage in case["stages"] for o in stage]
    if all(len(stage) == 1 for stage in case["stages"]):
        if len(hs) > 1 and any(o[0] == "init" for o in flat) and any(o[0] == "update" for o in flat):
            ctx.nontrivial()
    elif s.switches > 2 and len(hs) > 1:
        ctx.nontrivial()


# --- real servers and connections -----------------------------------------------------------------------------------------


def body_sockets(ctx, case):
    """The same guarantees over real connections, one operation after the other."""
    servers = real_servers()
    ops = [o for stage in case["stages"] for o in stage]
    log = []
    views, got = {}, {}
    count = [0]
    try:
        with rend.start_lock(), rend.quiet(), sut("WsServer()"):
            ws = servers.WsServer()
            first = rend.Viewer(ws.address)
        first.close()

        def barrier():
            """Everything sent so far has been delivered to the connected viewers."""
            count[0] += 1
            m = "m%d" % count[0]
            p = rend.Viewer(ws.address)
            p.send(rend.marker(m))
            p.until(m)
            p.close()
            for v in views.values():
                v.until(m)

        for o in ops:
            with sut("a connection to the rendering server"):
                if o[0] == "connect":
                    v = views[o[1]] = rend.Viewer(ws.address)
                    count[0] += 1
                    m = "m%d" % count[0]
                    v.send(rend.marker(m))  # wait until the server knows this client
                    for w in views.values():
                        w.until(m)
                elif o[0] in ("leave", "die", "vanish"):
                    barrier()
                    v = views.pop(o[1])
                    got[o[1]] = v.got
                    v.close(o[0] != "leave")
                else:
                    p = rend.Viewer(ws.address)
                    p.send(INIT if o[0] == "init" else update(o[1], case["pad"]))
                    p.close()
                    if not case["same"]:
                        barrier()
            log.append([o])
        with sut("a connection to the rendering server"):
            barrier()
        got.update({k: v.got for k, v in views.items()})
    finally:
        for v in views.values():
            try:
                v.close()
            except Exception:
                pass
        rend.kill_children()
    judge(ctx, log, got, case["pad"])
    if len(got) > 1 and any(o[0] == "init" for o in ops) and any(o[0] == "update" for o in ops):
        ctx.nontrivial()


_real = []


def real_servers():
    if not _real:
        _real.append(rend.fresh())
        import os

        os.makedirs(os.path.join(rend.setup(), "gym_anm", "envs", "anm6_env", "rendering", "logs"), exist_ok=True)
    return _real[0]


PARTS = [
    Part("interleavings", cases((2, 5), (1, 3)), body_callbacks, 1920, 40000, "at least two viewers and more than two thread switches inside the server code"),
    Part("histories", cases((3, 12), (1, 1)), body_callbacks, 1440, 40000, "at least two viewers, an initialization and an update"),
    Part("connections", cases((4, 14), (1, 1)), body_sockets, 190, 6000, "at least two viewers, an initialization and an update"),
]
