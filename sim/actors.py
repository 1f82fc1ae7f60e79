"""Simulated actor system.

The repository's `Actor` subclasses and its use of `ActorSystem` run unchanged; only the system
base (`thespian.system.multiprocTCPBase` and friends - processes and sockets) is replaced.  Kept
semantics of the real base: messages are pickled; per sender/receiver pair FIFO, everything else
may overtake; an actor handles one message at a time; a handler that raises is retried once with
the same message and then the sender gets a PoisonMessage; exit requests travel down to children,
ChildActorExited up to the parent; `ask` answers with the first ordinary message that reaches the
external endpoint.  Which pending channel delivers next, how long a delivery takes, and where an
actor process dies are the simulator's decisions."""
import logging
import pickle
import random
import sys
import types

from sim import seams
from sim.seams import SimStop, SimDeadlock, SimKill, SimCrash

EXT = "ext"


class Ref:
    """what the repository's actors see as self._myRef"""

    globalName = None

    def __init__(self, base, name):
        from thespian.actors import ActorAddress

        self._base = base
        self.name = name
        self.address = ActorAddress(name)
        self.parent = None
        self.children = []
        self.inst = None
        self.cls = None
        self.alive = True
        self.rstate = None
        self.handled = 0

    def createActor(self, actorClass, targetActorRequirements=None, globalName=None, sourceHash=None):
        return self._base.create(actorClass, self).address

    def actor_send(self, to, msg):
        self._base.post(self.name, to, msg)

    def wakeupAfter(self, timePeriod, payload=None):
        d = timePeriod.total_seconds() if hasattr(timePeriod, "total_seconds") else float(timePeriod)
        self._base.wakeups.append((self._base.sim.clock.t + d, self.name, d, payload))

    def handleDeadLetters(self, *a):
        pass

    registerSourceAuthority = notifyOnSystemRegistrationChanges = handleDeadLetters
    notifyOnSourceAvailability = updateCapability = preRegisterRemoteSystem = handleDeadLetters
    deRegisterRemoteSystem = handleDeadLetters

    def actorSystemShutdown(self):
        self._base.shutdown()

    def logger(self, name=None):
        return logging.getLogger(name)


def _name(addr):
    return addr.addressDetails if not isinstance(addr, str) else addr


class SimActorBase:
    """one per ActorSystem"""

    def __init__(self, system=None, logDefs=None, **kw):
        sim = seams.cur()
        if sim is None:
            raise RuntimeError("actor system used outside a simulation")
        self.sim = sim
        sim.actor_systems = getattr(sim, "actor_systems", 0) + 1
        self.sysno = sim.actor_systems
        self.refs = {}
        self.chan = {}  # (src, dst) -> list of pickled messages; insertion ordered
        self.wakeups = []
        self.seq = 0
        self.inbox = []  # external endpoint
        self.down = False
        # programs that name the same port of one machine share one system: who shuts it down ends it for all
        self.port = (getattr(system, "capabilities", None) or {}).get("Admin Port", 1900)
        sim.admins.setdefault(self.port, []).append(self)
        cfg = sim.cfg
        self.order = cfg.get("deliver", "fifo")  # fifo | random | lifo | starve
        self.delay = cfg.get("net_delay", 0.0)
        self.switch = cfg.get("reorder_p", 0.5)
        self.arrivals = 0
        self.sent_no = {}
        self.max_deliveries = cfg.get("max_deliveries", 60000)
        self.delivered = 0
        sim.systems.append(self)
        sim.log("actors", "system up", self.sysno)

    # ---------------------------------------------------------------- actors
    def create(self, cls, parent):
        self.seq += 1
        name = "S%d:%s%d" % (self.sysno, cls.__name__, self.seq)
        ref = Ref(self, name)
        ref.parent = parent
        ref.cls = cls
        who = "%s%d" % (cls.__name__, self.seq) if self.sim.cfg.get("steady") else name
        ref.rstate = random.Random("actor:%s:%s" % (self.sim.key, who)).getstate()
        self.refs[name] = ref
        if parent is not None:
            parent.children.append(ref)
        try:
            inst = self._as_actor(ref, cls)
        except SimStop:
            raise
        except Exception:
            if parent is None:
                raise
            ref.alive = False
            self._child_exited(ref)
            return ref
        inst._myRef = ref
        ref.inst = inst
        self.sim.log("actors", "create", name)
        self.sim.probe("actors_created")
        return ref

    def _as_actor(self, ref, fn, *a):
        """run code of an actor: on a thread that is not the asker's (an actor is a process of
        its own, whatever the asker's thread is in the middle of is not visible to it) and with
        the actor's own process-wide random state"""

        def body():
            saved = random.getstate()
            random.setstate(ref.rstate)
            try:
                return fn(*a)
            finally:
                ref.rstate = random.getstate()
                random.setstate(saved)

        sched = self.sim.sched
        if sched is None or not sched.active() or self.job is not None:
            return body()
        w = self.worker
        if w is None or w.state == "done" or w.proc.dead:
            self.worker = sched.spawn("actors%d" % self.sysno, self._work)
        self.job = body
        self.answer = None
        try:
            sched.wait_until(lambda: self.answer is not None, "actor")
        finally:
            self.job = None
        ok, value = self.answer
        if not ok:
            raise value
        return value

    job = None
    answer = None
    worker = None

    def _work(self):
        sched = self.sim.sched
        while True:
            sched.wait_until(lambda: self.job is not None and self.answer is None, "actors idle")
            try:
                self.answer = (True, self.job())
            except (SimKill, SimCrash):
                raise
            except BaseException as e:
                self.answer = (False, e)

    def newPrimaryActor(self, actorClass, targetActorRequirements=None, globalName=None, sourceHash=None):
        if self.down:
            from thespian.actors import ActorSystemFailure

            raise ActorSystemFailure("Could not request new Actor from Admin (-SENDSTS_DEADTARGET)")
        return self.create(actorClass, None).address

    # ---------------------------------------------------------------- messages
    def post(self, src, to, msg):
        if self.down:
            return
        dst = _name(to)
        data = pickle.dumps(msg, pickle.HIGHEST_PROTOCOL)
        self.arrivals += 1
        due = self.sim.clock.t
        if self.delay:
            due += self.delay * self.sim.choose(8, 0.5)
        self.chan.setdefault((src, dst), []).append((self.arrivals, due, data))
        for h in self.sim.msg_hooks:
            h("send", src, dst, msg)

    def tell(self, addr, msg):
        self.post(EXT, addr, msg)
        # a tell is asynchronous: some of the backlog may be handled now, the rest later
        n = self.sim.choose(6, 0.4)
        for _ in range(n):
            if not self._deliver_one():
                break

    def ask(self, addr, msg, timeout=None):
        from thespian.actors import ActorSystemMessage

        deadline = None
        if timeout is not None:
            t = timeout.total_seconds() if hasattr(timeout, "total_seconds") else float(timeout)
            deadline = self.sim.clock.t + t
        self.post(EXT, addr, msg)
        return self._listen(deadline)

    def listen(self, timeout=None):
        deadline = None
        if timeout is not None:
            t = timeout.total_seconds() if hasattr(timeout, "total_seconds") else float(timeout)
            deadline = self.sim.clock.t + t
        return self._listen(deadline)

    def _listen(self, deadline):
        while True:
            while self.inbox:
                return self.inbox.pop(0)
            if deadline is not None and self.sim.clock.t >= deadline:
                return None
            if not self._deliver_one():
                if self.down:
                    return None
                if deadline is not None:
                    self.sim.clock.t = max(self.sim.clock.t, deadline)
                    return None
                why = "".join("; %s raised %s: %s" % (d, type(e).__name__, str(e)[:120]) for d, e in self.sim.actor_errors[-2:])
                raise SimDeadlock("actor system: no message can be delivered any more while an ask waits" + why)

    def _pick(self):
        heads = [(k, q[0]) for k, q in self.chan.items() if q]
        sim = self.sim
        now = sim.clock.t
        if self.wakeups:
            self.wakeups.sort(key=lambda w: w[0])
            if self.wakeups[0][0] <= now or not heads:
                w = self.wakeups.pop(0)
                sim.clock.t = max(now, w[0])
                from thespian.actors import WakeupMessage

                return ("sys", w[1]), pickle.dumps(WakeupMessage(w[2], w[3]))
        if not heads:
            return None
        ready = [h for h in heads if h[1][1] <= now]
        if not ready:
            t = min(h[1][1] for h in heads)
            sim.clock.t = t
            ready = [h for h in heads if h[1][1] <= t]
        ready.sort(key=lambda h: h[1][0])  # arrival order
        i = 0
        if len(ready) > 1:
            if self.order == "random":
                i = sim.choose(len(ready), 1 - self.switch)
            elif self.order == "lifo":
                i = (len(ready) - 1 + sim.choose(len(ready), 0.8)) % len(ready)
            elif self.order == "starve":
                # one victim's traffic waits until nothing else is left
                v = sim.cfg.get("victim", 0) % max(1, len(self.refs))
                victim = list(self.refs)[v]
                others = [j for j, h in enumerate(ready) if victim not in h[0]]
                pool = others or list(range(len(ready)))
                i = pool[sim.choose(len(pool), 0.6)]
            if i:
                sim.fired("reorder")
        key = ready[i][0]
        data = self.chan[key].pop(0)[2]
        if not self.chan[key]:
            del self.chan[key]
        return key, data

    def _deliver_one(self):
        from thespian.actors import (
            ActorExitRequest, ActorSystemMessage, ChildActorExited, PoisonMessage, DeadEnvelope,
        )

        p = self._pick()
        if p is None:
            return False
        (src, dst), data = p
        sim = self.sim
        sim.tick()
        self.delivered += 1
        sim.probe("deliveries")
        if self.delivered > self.max_deliveries:
            raise SimDeadlock("actor system: %d deliveries without an answer" % self.delivered)
        msg = pickle.loads(data)
        sim.clock.advance(sim.cfg.get("deliver_time", 0.001))
        sim.log("deliver", src, dst, _desc(msg))
        if dst == EXT:
            for h in sim.msg_hooks:
                h("recv", src, dst, msg)
            # internal notifications never answer an ask
            if not isinstance(msg, (ChildActorExited,)):
                self.inbox.append(msg)
            return True
        ref = self.refs.get(dst)
        if ref is None or not ref.alive:
            sim.probe("dead_letters")
            return True
        for h in sim.msg_hooks:
            h("recv", src, dst, msg)
        ref.handled += 1
        f = sim.faults.site("actor", ("actor_kill",))
        if f is not None and ref.parent is not None:
            sim.fired("actor_kill")
            sim.log("actors", "KILL", dst)
            h = sim.notes.get("on_kill")
            if h is not None:
                h(dst)
            self._die(ref)
            return True
        from thespian.actors import ActorAddress

        sender = self._address(src)
        for attempt in (1, 2):
            sim.notes["actor"] = dst
            try:
                self._as_actor(ref, ref.inst.receiveMessage, msg, sender)
                break
            except SimStop:
                raise
            except Exception as e:
                sim.log("actors", "handler error", dst, type(e).__name__)
                sim.probe("handler_errors")
                if attempt == 1:
                    if not isinstance(msg, ActorExitRequest):
                        sim.actor_errors.append((dst, e))
                    msg = pickle.loads(data)
                    continue
                if not isinstance(msg, (ActorExitRequest, PoisonMessage)):
                    if src in self.refs or src == EXT:
                        self.post(dst, sender, PoisonMessage(msg, _tb(e)))
        if isinstance(msg, ActorExitRequest):
            self._exit(ref, getattr(msg, "isRecursive", True))
        return True

    def _address(self, name):
        from thespian.actors import ActorAddress

        r = self.refs.get(name)
        return r.address if r is not None else ActorAddress(name)

    def _exit(self, ref, recursive=True):
        from thespian.actors import ActorExitRequest

        ref.alive = False
        if recursive:
            for c in ref.children:
                if c.alive:
                    self.post(ref.name, c.address, ActorExitRequest())
        self._child_exited(ref)

    def _die(self, ref):
        ref.alive = False
        for c in ref.children:
            if c.alive:
                self._die(c)
        self._child_exited(ref)

    def _child_exited(self, ref):
        from thespian.actors import ChildActorExited

        if ref.parent is not None and ref.parent.alive:
            self.post(ref.name, ref.parent.address, ChildActorExited(ref.address))

    # ---------------------------------------------------------------- rest
    def drain(self, limit=100000):
        n = 0
        while n < limit and self._deliver_one():
            n += 1
        return n

    def shutdown(self):
        self.sim.log("actors", "system shutdown", self.sysno)
        self.halt()
        for other in self.sim.admins.pop(self.port, []):
            other.halt()

    def halt(self):
        self.down = True
        for r in self.refs.values():
            r.alive = False
        self.chan.clear()

    def alive_actors(self):
        return [n for n, r in self.refs.items() if r.alive]

    def _handleDeadLetters(self, *a):
        pass

    def updateCapability(self, *a):
        pass

    def external_clone(self):
        return self


def _tb(e):
    import traceback

    return "".join(traceback.format_exception(type(e), e, e.__traceback__))


def _desc(msg):
    op = getattr(msg, "operation", None)
    if op is not None:
        return "%s.%s" % (type(msg).__name__, getattr(op, "name", op))
    return type(msg).__name__


def install():
    import thespian.system  # noqa: F401  (real package; only the bases are replaced)

    for name in ("simpleSystemBase", "multiprocTCPBase", "multiprocUDPBase", "multiprocQueueBase"):
        m = types.ModuleType("thespian.system." + name)
        m.ActorSystemBase = SimActorBase
        sys.modules["thespian.system." + name] = m
        setattr(thespian.system, name, m)


def get_global():
    from thespian.actors import ActorSystem

    return vars(ActorSystem).get("systemBase")


def set_global(v):
    from thespian.actors import ActorSystem

    fresh()
    if v is not None:
        ActorSystem.systemBase = v


def fresh():
    """a new process knows no actor system"""
    from thespian.actors import ActorSystem

    if "systemBase" in vars(ActorSystem):
        del ActorSystem.systemBase
