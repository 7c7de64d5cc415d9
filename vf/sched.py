"""
A seeded scheduler of threads: one thread runs at a time, and the threads hand
over to one another at lines (or bytecodes) of the code under test, drawn from
a generator. The interleavings a free run would need luck to meet are thus
common, and can be replayed.

The scheduler looks at no state of the code under test: it only decides which
thread runs next. A thread which is not handed over to for a while (because the
running one waits for a lock, say) runs anyway, so nothing can get stuck.
"""
import gc
import sys
import threading
import types
import zlib

PATIENCE = 2.0   # seconds
MAX_SWITCHES = 400
TOOL = 4
running = False  # while it is, nobody else may change which events are sent


def codes(prefix):
    """Every piece of code of the files having the given prefix."""
    found = {}

    def walk(code):
        if id(code) not in found:
            found[id(code)] = code
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(prefix):
            walk(f.__code__)
    return list(found.values())


class Scheduler(object):
    def __init__(self, rng, codes, probability=0.1, instructions=False):
        self.rng = rng
        self.codes = codes
        self.probability = probability
        self.instructions = instructions
        self.points = 0
        self.switches = 0
        self.stolen = 0
        self.signature = 0
        self.names = {}

    def on_event(self, code, place):
        i = self.names.get(threading.get_ident())
        if i is not None:
            self.point(i, code.co_name, place)

    def point(self, i, name, place):
        self.points += 1
        if self.switches >= MAX_SWITCHES or self.rng.random() >= self.probability:
            return
        others = [j for j in self.live if j != i]
        if not others:
            return
        j = self.rng.choice(others)
        self.switches += 1
        self.signature = zlib.crc32(('%d %d %s %d' % (i, j, name, place)).encode(), self.signature)
        self.turns[i].clear()
        self.turns[j].set()
        self.wait(i)

    def wait(self, i):
        if not self.turns[i].wait(PATIENCE):
            self.stolen += 1

    def run(self, functions):
        n = len(functions)
        self.live = list(range(n))
        self.turns = [threading.Event() for _ in range(n)]

        def body(i):
            self.wait(i)
            self.names[threading.get_ident()] = i
            try:
                functions[i]()
            finally:
                del self.names[threading.get_ident()]
                self.live.remove(i)
                if self.live:
                    self.turns[self.rng.choice(self.live)].set()

        global running
        mon = sys.monitoring
        event = mon.events.INSTRUCTION if self.instructions else mon.events.LINE
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'verif-scheduler')
        mon.register_callback(TOOL, event, self.on_event)
        for code in self.codes:
            mon.set_local_events(TOOL, code, event)
        running = True
        try:
            workers = [threading.Thread(target=body, args=(i,)) for i in range(n)]
            self.turns[self.rng.randrange(n)].set()
            for w in workers:
                w.start()
            for w in workers:
                w.join()
        finally:
            running = False
            for code in self.codes:
                mon.set_local_events(TOOL, code, 0)
            mon.register_callback(TOOL, event, None)
