"""A stand-in for tkinter: a canvas that remembers what is on it, a root window that delivers queued events."""
import sys
import types

QUEUE = []          # events to come: ("press", key), ("release", key), ("focus",), ("click", button, x, y)
DONE = []           # events delivered, in order
WINDOWS = []        # every root window made
CANVASES = []
REFRESH = []        # called at every refresh
IDLE = [0]


class Waiting(BaseException):
    """the program waits for an event that does not come"""


class Event:
    def __init__(self, **kw):
        self.char, self.keysym, self.keycode, self.x, self.y = "", "", 0, 0, 0
        self.__dict__.update(kw)


class Tk:
    def __init__(self, *a, **k):
        self.bound, self.alive, self.quits, self.name = {}, True, False, "tk"
        WINDOWS.append(self)

    def bind(self, what, f, *a):
        self.bound[what] = f

    def _deliver(self):
        if not QUEUE:
            return False
        v = QUEUE.pop(0)
        DONE.append(v)
        k = v[0]
        name = {"press": "<KeyPress>", "release": "<KeyRelease>"}.get(k)
        if k == "focus":
            name = v[1]
        if k == "click":
            name = v[1]
        f = self.bound.get(name)
        if f:
            if k in ("press", "release"):
                f(Event(keysym=v[1], char=v[1] if len(v[1]) == 1 else "", keycode=0))
            elif k == "click":
                f(Event(x=v[2], y=v[3]))
            else:
                f(Event())
        return True

    def dooneevent(self, flags=0):
        return self._deliver()

    def update(self):
        while self._deliver():
            pass
        refresh()

    def update_idletasks(self):
        refresh()

    def after(self, ms, f=None, *a):
        self.due = f
        return "after"

    def after_cancel(self, *a):
        pass

    def mainloop(self, n=0):
        self.quits = False
        moved = False
        while self._deliver():
            moved = True
        IDLE[0] = 0 if moved else IDLE[0] + 1
        if IDLE[0] > 30:
            raise Waiting()
        f = getattr(self, "due", None)
        self.due = None
        if f:
            f()

    def quit(self):
        self.quits = True

    def destroy(self):
        self.alive = False

    def title(self, name=None):
        if name is not None:
            self.name = str(name)
        return self.name
    wm_title = title

    def protocol(self, *a):
        pass
    resizable = geometry = configure = config = wm_protocol = focus_set = lift = withdraw = deiconify = protocol


def refresh():
    for f in list(REFRESH):
        f()


def flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += flat(x)
        else:
            out.append(float(x))
    return out


class Canvas:
    def __init__(self, root=None, **k):
        self.root, self.size = root, (float(k.get("width", 0)), float(k.get("height", 0)))
        self.items, self.n = {}, 0
        CANVASES.append(self)

    def pack(self, *a, **k):
        pass
    grid = place = focus_set = bind = configure = config = pack

    def update(self):
        refresh()
    update_idletasks = update

    def _new(self, kind, a, k):
        self.n += 1
        self.items[self.n] = dict(kind=kind, xy=flat(a), **k)
        return self.n

    def create_polygon(self, *a, **k):
        return self._new("polygon", a, k)

    def create_arc(self, *a, **k):
        return self._new("arc", a, k)

    def create_oval(self, *a, **k):
        return self._new("arc", a, dict(dict(start=0, extent=359), **k))

    def create_line(self, *a, **k):
        return self._new("line", a, k)

    def create_rectangle(self, *a, **k):
        x0, y0, x1, y1 = flat(a)
        return self._new("polygon", [x0, y0, x1, y0, x1, y1, x0, y1], k)

    def create_text(self, *a, **k):
        return self._new("text", a, k)

    def create_image(self, *a, **k):
        return self._new("image", a, k)

    def coords(self, i, *c):
        if i not in self.items:
            return []
        if not c:
            return list(self.items[i]["xy"])
        self.items[i]["xy"] = flat(c)
        return []

    def move(self, i, dx, dy):
        if i in self.items:
            q = self.items[i]["xy"]
            self.items[i]["xy"] = [v + (dx if j % 2 == 0 else dy) for j, v in enumerate(q)]

    def moveto(self, i, x="", y=""):
        b = self.bbox(i)
        if b:
            self.move(i, (x - b[0]) if x != "" else 0, (y - b[1]) if y != "" else 0)

    def bbox(self, i):
        q = self.items.get(i, {}).get("xy")
        return (min(q[0::2]), min(q[1::2]), max(q[0::2]), max(q[1::2])) if q else None

    def itemconfigure(self, i, **k):
        if i in self.items:
            self.items[i].update(k)
    itemconfig = itemconfigure

    def itemcget(self, i, o):
        return str(self.items.get(i, {}).get(o, ""))

    def type(self, i):
        return self.items[i]["kind"] if i in self.items else None

    def find_all(self):
        return tuple(self.items)

    def delete(self, *ids):
        for i in ids:
            if i == "all":
                self.items.clear()
            else:
                self.items.pop(i, None)

    def _stack(self, i, other, above):
        if i not in self.items or i == other:
            return
        t = self.items.pop(i)
        order = list(self.items.items())
        at = len(order) if above else 0
        for j, (k, _) in enumerate(order):
            if k == other:
                at = j + 1 if above else j
        self.items = dict(order[:at] + [(i, t)] + order[at:])

    def tag_lower(self, i, below=None):
        """under the item `below`, under everything if none is given"""
        if below is None or below in self.items:
            self._stack(i, below, False)

    def tag_raise(self, i, above=None):
        if above is None or above in self.items:
            self._stack(i, above, True)
    lift, lower = tag_raise, tag_lower

    def postscript(self, **k):
        return "%%!PS %d items\n" % len(self.items)


def install():
    m = types.ModuleType("tkinter")
    m.Tk, m.Canvas = Tk, Canvas
    m.PhotoImage = lambda *a, **k: ("photo", k.get("file"))
    m.NW = "nw"
    m.END = "end"
    m.TclError = type("TclError", (Exception,), {})
    m._tkinter = types.ModuleType("_tkinter")
    m._tkinter.DONT_WAIT = 2
    m._tkinter.TclError = m.TclError
    sys.modules["tkinter"] = m
    sys.modules["_tkinter"] = m._tkinter
    sys.modules["tkinter._tkinter"] = m._tkinter
    return m


def fresh():
    """a new session"""
    del QUEUE[:], DONE[:], WINDOWS[:], CANVASES[:], REFRESH[:]
    IDLE[0] = 0
