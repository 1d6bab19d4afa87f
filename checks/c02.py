"""C02: every process reaches the same synchronisation points and every
message sent is received."""
import ast
from .mpi import *

STAGES = {
    "hazard.run": (["hazard.HazardCalculator.calculateHazard",
                    "hazard.HazardCalculator.saveHazard",
                    "hazard.setDomain", "hazard.getTiles"],
                   ("calculateHazard",)),
    "database.run": (["database.buildLocationDatabase",
                      "database._HazardDatabase.processEvent",
                      "database.processTrack"],
                     ("processEvent", "processTrack")),
}
# roots that only synchronise; their stages are looked at on their own
PLAIN = {
    "tcrm.main": ["TrackGenerator.TrackGenerator.run", "wind.run",
                  "hazard.run", "database.run", "Evaluate.run"],
    "TrackGenerator.TrackGenerator.run": [
        "TrackGenerator.TrackGenerator.TrackGenerator",
        "Utilities.track.ncSaveTracks"],
    "wind.run": ["wind.WindfieldGenerator.dumpGustsFromTracks",
                 "wind.WindfieldGenerator.dumpGustsFromTrackfiles"],
}


def check(prog, chk):
    chk.rule("ends", "with any number of processes and work items the "
             "communication of a stage runs to its end on every process: "
             "no process waits for a message or at a synchronisation point "
             "that nobody else reaches, and none is left unreceived")
    chk.rule("stopped", "every worker is told to stop exactly once")
    chk.rule("collective", "a synchronisation point is reached by every "
             "process or by none")
    chk.rule("objects", "messages are Python objects, sent and received "
             "with the calls for objects")
    chk.rule("answer", "where received messages are answered, an error in "
             "between that is caught does not skip the answer")
    n = 0
    for root, (opaque, watch) in sorted(STAGES.items()):
        s = System(prog, chk, root, opaque, watch)
        chk.need(s.count("send") and s.count("recv"),
                 "messages between processes below %s" % root)
        n += len(s.events)
        collective(chk, s)
        explore(s, chk, "ends", root, after=Stopped(chk))
    for root, opaque in sorted(PLAIN.items()):
        s = System(prog, chk, root, [o for o in opaque])
        chk.need(s.count("barrier", "Barrier"), "synchronisation below %s"
                 % root)
        n += len(s.events)
        collective(chk, s)
    chk.count("communication calls", n)
    buffers(prog, chk)
    answers(prog, chk)


class Stopped(object):
    """after a simulated run: how often was each worker told to stop, phase
    by phase?"""

    def __init__(self, chk):
        self.chk = chk
        self.seen = set()

    def __call__(self, s, ps, size, counts):
        for p in ps[1:]:
            byplace = {}
            for kind, e, m in p.log:
                if kind == "recv":
                    d = byplace.setdefault(e, [0, 0])
                    d[m[2] is NONE] += 1
            for e, (work, stop) in byplace.items():
                key = (e.func.qual if e.func else "?", stop)
                if key in self.seen:
                    continue
                self.seen.add(key)
                self.chk.decide("stopped", key[0], stop == 1,
                                "with %d processes and %s items a worker is "
                                "told to stop %d times" % (
                                    size, counts, stop), e.where)


def collective(chk, s):
    """barriers: conditions and loops do not depend on the process"""
    seen = {}
    for op, e in s.events:
        if op not in ("barrier", "Barrier"):
            continue
        q = e.func.qual if e.func else "?"
        seen[q] = seen.get(q, 0) + 1
        label = "%s#%d" % (q, seen[q])
        c = e.cond()
        c = subst(c, {x: FALSE for x in s.failing})
        per = [truth(at_rank(c, r, size))
               for r, size in ((0, 3), (1, 3), (2, 3))]
        same = per[0] is per[1] and per[1] is per[2]
        loops = [s.loops[u] for u in e.loops if u in s.loops]
        dep = any(L.domain is not None and mentions(L.domain, RANK)
                  for L in loops)
        if same and not dep:
            chk.ok("collective", label)
        elif {per[0], per[1], per[2]} <= {TRUE, FALSE} or \
                any(p is FALSE for p in per) and not same:
            chk.violation("collective", label, "only some processes reach "
                          "this synchronisation point: %s" % show(c)[:120],
                          e.where)
        elif dep:
            chk.violation("collective", label, "how often a process gets "
                          "here depends on its number", e.where)
        else:
            bad = [x for x in atoms_of(c) if mentions(x, RANK)]
            chk.decide("collective", label, None if not bad else False,
                       "whether a process gets here depends on its number: "
                       "%s" % show(c)[:120], e.where)


def buffers(prog, chk):
    """calls of the buffer interface (capital letter) with plain objects"""
    import ast
    for q, f in sorted(prog.funcs.items()):
        bad = [n for n in ast.walk(f.node)
               if isinstance(n, ast.Call) and
               isinstance(n.func, ast.Attribute) and
               n.func.attr in ("Send", "Recv") and
               isinstance(n.func.value, ast.Name) and
               n.func.value.id == "comm"]
        if not bad:
            continue
        chk.violation("objects", q, "file names and None are passed to "
                      "comm.Send and a result is unpacked from comm.Recv: "
                      "these transfer memory buffers",
                      "%s:%d in %s" % (f.path if hasattr(f, "path") else q,
                                       bad[0].lineno, q))


# ------------------------------------------------------------- caught errors
def talks(node, names):
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
               and c.func.attr in names for c in ast.walk(node))


SENDS = ("send", "ssend", "isend", "Send", "sendrecv")
RECVS = ("recv", "Recv", "irecv")


def answers(prog, chk):
    """try statements between a receive and the send that answers it"""
    n = 0
    for q, f in sorted(prog.funcs.items()):
        for loop in ast.walk(f.node):
            if isinstance(loop, (ast.While, ast.For)) and \
                    talks(loop, SENDS) and talks(loop, RECVS):
                for block in blocks(loop):
                    n += 1
                    answered(chk, f, q, block)
    if n:
        chk.ok("answer", "loops that receive and send", "%d blocks" % n)


def blocks(loop):
    """statement lists of a loop, without those of loops in it"""
    out, todo = [], [loop.body]
    while todo:
        b = todo.pop()
        out.append(b)
        for s in b:
            if isinstance(s, ast.If):
                todo += [s.body, s.orelse]
            elif isinstance(s, ast.With):
                todo.append(s.body)
            elif isinstance(s, ast.Try):
                todo.append(s.body)
    return out


def answered(chk, f, q, block):
    got = False
    for i, s in enumerate(block):
        rest = block[i + 1:]
        if got and isinstance(s, ast.Try) and not talks(s, RECVS):
            sent_in = any(talks(x, SENDS) for x in s.body + s.orelse)
            sent_after = any(talks(x, SENDS) for x in rest)
            for h in s.handlers:
                end = h.body[-1]
                if isinstance(end, ast.Raise) or \
                        any(talks(x, SENDS) for x in h.body) or \
                        any(isinstance(c, ast.Call) and last(c.func) in
                            ("Abort", "exit", "_exit", "abort")
                            for c in ast.walk(h)) or \
                        any(talks(x, SENDS) for x in s.finalbody):
                    continue
                leaves = isinstance(end, (ast.Continue, ast.Break,
                                          ast.Return))
                if sent_in and not sent_after or \
                        leaves and (sent_in or sent_after):
                    chk.violation("answer", "%s:except" % q, "when the work "
                                  "on a received message fails with the "
                                  "error caught here, the message is not "
                                  "answered, and its sender waits for ever",
                                  "%s:%d in %s" % (f.module.path, h.lineno,
                                                   q))
        if talks(s, RECVS) and not isinstance(s, (ast.While, ast.For)):
            got = True


def last(f):
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
