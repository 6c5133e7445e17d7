"""Recording driver of the demo's screen, keyboard and command line: drv_screen.py PROP SEED SHARD NSHARDS TIER OUT [PLAN]
The real graphicsUtils/graphicsDisplay run on a stand-in for tkinter (faketk) whose canvas is read back."""
import io
import json
import os
import random
import sys

import faketk
faketk.install()
DEMO = os.environ.get("VERIF_REPO", "/repo") + "/Python/research/scripts/demo"
sys.path.insert(0, DEMO)
import graphicsUtils  # noqa: E402
import graphicsDisplay  # noqa: E402
import drv_demo  # noqa: E402
from drv_demo import (ARROWS, REAL_OUT, SECOND, driver, num, rand_rows, some, toward)  # noqa: E402
import ghostAgents  # noqa: E402
import keyboardAgents  # noqa: E402
import pacman  # noqa: E402

BAD = -2000000000


def near(v, tol):
    k = round(v)
    return k if abs(v - k) <= tol else BAD


def shade(c):
    return [int(c[k:k + 2], 16) for k in (1, 3, 5)]


class Waits(Exception):
    pass


# ============================================================================= reading the canvas
class Picture:
    def __init__(self, g, h):
        self.g, self.h = g, h
        self.cv = faketk.CANVASES[-1]

    def cell(self, sx, sy, unit=1, tol=.25):
        return [near(unit * (sx / self.g - 1), tol), near(unit * (self.h - sy / self.g), tol)]

    def circles(self):
        for i, t in sorted(self.cv.items.items()):
            if t["kind"] == "arc":
                x0, y0, x1, y1 = t["xy"]
                r = (x1 - x0 - 1) / 2
                yield i, t, x1 - r, y1 - r, r / self.g

    def pacman(self):
        return [(t, x, y) for i, t, x, y, r in self.circles() if t.get("style") != "arc" and r >= .4]

    def where(self):
        """Pacman's place, in sixteenths of a cell"""
        p = self.pacman()
        return self.cell(p[0][1], p[0][2], 16, .45) if p else [BAD, BAD]

    def squares(self):
        for i, t in sorted(self.cv.items.items()):
            if t["kind"] == "polygon" and len(t["xy"]) == 8:
                b = self.cv.bbox(i)
                if b[2] - b[0] < 1.2 * self.g and b[3] - b[1] < 1.2 * self.g:
                    yield t, (b[0] + b[2]) / 2, (b[1] + b[3]) / 2

    def under(self, n):
        """do the n squares lie beneath everything but the background?"""
        ids = {id(t) for t, x, y in self.squares()}
        return all(id(t) in ids for t in list(self.cv.items.values())[1:1 + n])

    def observe(self):
        g = self.g
        ag, food, caps, score, notes = [], [], [], BAD, []
        for t, x, y in self.pacman():
            gap = 360 - float(t.get("extent", 0))
            mid = (float(t.get("start", 0)) - gap / 2) % 360
            look = {0: "East", 1: "North", 2: "West", 3: "South"}.get(near(mid / 90, .1) % 4, "?") if 0 < gap < 180 else "?"
            cx, cy = self.cell(x, y, 2)
            ag.append(dict(x=cx, y=cy, look=look, c=self.colour(t)))
        bodies, eyes, pupils, walls = [], [], [], []
        for i, t in sorted(self.cv.items.items()):
            if t["kind"] == "polygon" and len(t["xy"]) > 8:
                b = self.cv.bbox(i)
                bodies.append((t, (b[0] + b[2]) / 2, (b[1] + b[3]) / 2))
            elif t["kind"] == "line":
                walls.append(self.stroke(t))
            elif t["kind"] == "text":
                s = str(t.get("text", ""))
                if s.upper().startswith("SCORE"):
                    score = int(s.split(":")[1]) if score == BAD else BAD
                else:
                    notes.append((t["xy"][0], s))
        for i, t, x, y, r in self.circles():
            if t.get("style") == "arc":
                walls.append(self.bow(t, x, y, r))
            elif r >= .4:
                pass
            elif r > .18:
                caps.append(self.cell(x, y, 2))
            elif t.get("fill") == "#000000":
                pupils.append((x, y))
            elif r > .115:
                eyes.append((x, y))
            else:
                food.append(self.cell(x, y, 2))
        for k, (t, x, y) in enumerate(bodies):
            cx, cy = self.cell(x, y, 2)
            ag.append(dict(x=cx, y=cy, look=self.gaze(x, y, eyes[2 * k:2 * k + 2], pupils[2 * k:2 * k + 2]), c=self.colour(t)))
        w, h = self.cv.size
        inside = all(-2 <= v <= (w if j % 2 == 0 else h) + 2 for t in self.cv.items.values() if min(t["xy"]) > -50 * self.g for j, v in enumerate(t["xy"]))
        return dict(ag=ag, food=food, caps=caps, score=score, inside=inside, walls=walls, notes=[v for _, v in sorted(notes)], windows=sum(x.alive for x in faketk.WINDOWS))

    def colour(self, t):
        f, o = t.get("fill", ""), t.get("outline", "")
        return f if f == o else f + "/" + o

    def gaze(self, x, y, eyes, pupils):
        """a ghost's look: where the pupils are in its two eyes"""
        looks = set()
        if len(eyes) != 2 or len(pupils) != 2:
            return "?"
        sides = set()
        for (ex, ey), (px, py) in zip(eyes, pupils):
            if abs(ex - x) > .45 * self.g or not -.05 * self.g < y - ey < .45 * self.g:
                return "?"          # not in its head
            sides.add(ex < x)
            dx, dy = (px - ex) / self.g, (py - ey) / self.g
            looks.add("Stop" if max(abs(dx), abs(dy)) < .015 else "?" if abs(dx) > .12 or abs(dy) > .12 or min(abs(dx), abs(dy)) > .015
                      else ("East" if dx > 0 else "West") if abs(dx) > abs(dy) else "South" if dy > 0 else "North")
        return looks.pop() if len(looks) == 1 and len(sides) == 2 else "?"

    QUAD = {(1, 1): "NE", (-1, 1): "NW", (1, -1): "SE", (-1, -1): "SW"}

    def bow(self, t, x, y, r):
        """an arc of the wall outline"""
        k = near(float(t.get("start", 0)) / 90, .03) % 4 if 80 <= float(t.get("extent", 0)) <= 100 else 9
        face = {0: "NE", 1: "NW", 2: "SW", 3: "SE"}.get(k, "?")
        ux, uy = x / self.g - 1, self.h - y / self.g
        cx, cy = round(ux), round(uy)
        dx, dy = ux - cx, uy - cy
        if not .08 < r < .2:
            return [cx, cy, "?", "arc"]
        if abs(dx) < .12 and abs(dy) < .12:
            return [cx, cy, face, "corner"]
        q = self.QUAD[1 if dx > 0 else -1, 1 if dy > 0 else -1]
        back = {"NE": "SW", "SW": "NE", "NW": "SE", "SE": "NW"}[q]
        return [cx, cy, q, "bend" if face == back and .2 < abs(dx) < .4 and .2 < abs(dy) < .4 else "arc"]

    def stroke(self, t):
        if len(t["xy"]) != 4:
            return [BAD, BAD, "?", "line"]
        x0, y0, x1, y1 = t["xy"]
        a, b = (x0 / self.g - 1, self.h - y0 / self.g), (x1 / self.g - 1, self.h - y1 / self.g)
        mx, my = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
        cx, cy = round(mx), round(my)
        dx, dy = mx - cx, my - cy
        q = self.QUAD[1 if dx > 0 else -1, 1 if dy > 0 else -1]
        up = abs(a[0] - b[0]) < .02
        flat = abs(a[1] - b[1]) < .02
        if up == flat:
            return [cx, cy, "?", "line"]
        side = abs(dx) if up else abs(dy)
        e = sorted(abs(v[1] - cy) if up else abs(v[0] - cx) for v in (a, b))
        kind = "upright" if up else "level"
        if not .08 < side < .22 or not .4 < e[1] < .65 or e[0] >= .4:
            return [cx, cy, q, "line"]
        return [cx, cy, q, kind if e[0] < .15 else "stub-" + kind]


BLANK = dict(ag=[], food=[], caps=[], score=BAD, inside=False, walls=[], notes=[], windows=-1)


def quiet(f):
    def g():
        sys.stdout = io.StringIO()
        try:
            return f()
        finally:
            sys.stdout = REAL_OUT
    return g


def waiting(case, f, limit=20):
    """-> ok, result, whether the call waits for events that do not come"""
    faketk.IDLE[0] = 0

    def g():
        try:
            return quiet(f)()
        except faketk.Waiting:
            raise Waits()
        except SystemExit as x:
            raise ValueError("exit %s" % x)
    ok, x = case.call(g, limit)
    return ok, x, isinstance(x, Waits)


def shape(v):
    """an event as the specification sees it"""
    if v[0] == "click":
        return ["click", {"<Button-1>": "left", "<Button-2>": "right", "<Button-3>": "right", "<Control-Button-1>": "ctrl_left"}[v[1]], v[2], v[3]]
    if v[0] == "focus":
        return ["focus"]
    return list(v)


def shapes(q):
    return [shape(v) for v in q]


KEYNAMES = ["a", "s", "d", "w", "q", "Left", "Right", "Up", "Down", "z", "space"]


def some_events(rng, n, names=KEYNAMES, clicks=False):
    held = []
    out = []
    for _ in range(n):
        k = rng.random()
        if clicks and k < .3:
            out.append(("click", rng.choice(["<Button-1>", "<Button-2>", "<Button-3>", "<Control-Button-1>"]), rng.randrange(200), rng.randrange(200)))
        elif k < .6:
            x = rng.choice(names)
            held.append(x)
            out.append(("press", x))
        elif k < .9:
            x = rng.choice(held) if held and rng.random() < .85 else rng.choice(names)
            held = [h for h in held if h != x]
            out.append(("release", x))
            if rng.random() < .25:
                out.append(("press", x))        # auto repeat
                held.append(x)
        else:
            out.append(("focus", rng.choice(["<FocusIn>", "<FocusOut>"])))
    return out


# ============================================================================= C34: the screen
class Screen:
    def __init__(self, case, s, zoom, frame, prev=None, mode="plain"):
        make = {"plain": lambda: graphicsDisplay.PacmanGraphics(zoom, frameTime=frame), "capture": lambda: graphicsDisplay.PacmanGraphics(zoom, frame, True),
                "first": lambda: graphicsDisplay.FirstPersonPacmanGraphics(zoom, True, False, frame),
                "blind": lambda: graphicsDisplay.FirstPersonPacmanGraphics(zoom, showGhosts=False, frameTime=frame)}[mode]
        self.case, self.gr, self.zoom, self.mode = case, prev.gr if prev else make(), zoom, mode
        self.frame = frame
        st = case.obj[s].data
        self.h = st.layout.height
        ok, x, w = waiting(case, lambda: self.gr.initialize(st))
        self.pic, self.moves, self.noted = None, 0, False
        res = BLANK
        if ok:
            ok2, p = case.call(lambda: Picture(30.0 * zoom, self.h))
            if ok2:
                self.pic = p
                res = self.see()
        self.r = case.new("d", self)
        case.emit("d_open", ok, r=self.r, s=s, mode=mode, step=frame < 0, prev=prev.r if prev else "-", res=res, err="" if ok else repr(x)[:200])
        self.ok = ok and self.pic is not None

    def see(self):
        ok, x = self.case.call(self.pic.observe)
        return x if ok else dict(BLANK, err=repr(x)[:200])

    def move(self, s, i, dist=()):
        case = self.case
        st = case.obj[s].data
        fr = []
        if dist:
            st.ghostDistances = list(dist)
        n0 = len(faketk.DONE)
        faketk.REFRESH.append(lambda: fr.append(self.pic.where()))
        ok, x, w = waiting(case, lambda: self.gr.update(st))
        del faketk.REFRESH[:]
        self.moves += 1
        full = self.moves % 12 == 5     # the walls now and then: what went missing stays missing
        res = self.see()
        if not full:
            res["walls"] = []
        case.emit("d_move", ok, d=self.r, s=s, i=i + 1, full=full, dist=list(dist), res=res, fr=fr, done=shapes(faketk.DONE[n0:]), left=shapes(faketk.QUEUE), waits=w,
                  err="" if ok else repr(x)[:200])
        return ok

    def cells(self, cells):
        def f():
            self.gr.drawExpandedCells(cells)
            q = list(self.pic.squares())
            return [self.pic.cell(x, y, 2) for t, x, y in q], self.pic.under(len(q)), [shade(t.get("fill")) for t, x, y in q]
        n0 = len(faketk.DONE)
        ok, x, w = waiting(self.case, f)
        self.case.emit("d_cells", ok, d=self.r, cells=[list(c) for c in cells], res=x[0] if ok else [], pic=self.see(), under=x[1] if ok else False,
                       shades=x[2] if ok else [],
                       done=shapes(faketk.DONE[n0:]))

    def belief(self, rng, b, n):
        w, h = self.case.obj[b].width, self.case.obj[b].height
        table = {(x, y): [rng.choice([0, 0, 1, 2, 4, 8]) if rng.random() < .5 else 0 for _ in range(n)] for x in range(w) for y in range(h)}
        dists = []
        for j in range(n):
            d = drv_demo.util.Counter()
            for c, v in table.items():
                if v[j] or rng.random() < .5:
                    d[c] = v[j] / 8
            dists.append(d)
        keep = [dict(d) for d in dists]

        def f():
            self.gr.updateDistributions(dists)
            q = list(self.pic.squares())
            return [[self.pic.cell(x, y), t.get("fill"), shade(t.get("fill"))] for t, x, y in q], self.pic.under(len(q))
        ok, x, _ = waiting(self.case, f)
        self.case.emit("d_belief", ok, d=self.r, w=[[list(c), v] for c, v in sorted(table.items())], res=x[0] if ok else [], under=x[1] if ok else False,
                       kept=[dict(d) for d in dists] == keep, err="" if ok else repr(x)[:200])

    def close(self):
        ok, x, w = waiting(self.case, self.gr.finish)
        self.case.emit("d_close", ok, windows=sum(t.alive for t in faketk.WINDOWS))


STEP = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}


def screen_play(cx, case, rows=None, moves=None, steps=40, eat=False):
    """a game shown move by move"""
    rng = cx.rng
    faketk.fresh()
    rows = rows or rand_rows(rng, w=rng.randint(4, 8), h=rng.randint(3, 7), ghosts=rng.randint(0, 5))
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s = case.start(b, 5)
    if not s:
        return
    frame = rng.choice([0, 0, 0, .1, .1, .005, -1, -.5]) if moves is None else rng.choice([0, 0, .1])
    zoom = rng.choice([1.0, 1.0, .5, 1.5, 2.0])
    mode = rng.choice(["plain"] * 7 + ["capture", "first", "blind", "blind"])
    d = Screen(case, s, zoom, frame, mode=mode)
    if not d.ok:
        return
    n = case.obj[s].getNumAgents()
    radar = rng.random() < .25
    regs, s0, turn = ["t1", "t2"], s, 0
    calm = rng.random() < .5
    ks = rng.choice([[], [], ["a", "q"], ["z", "a", "q"], ["q", "z"], ["a", "z"]])
    script = [[("press", x) for x in ks], [], [("release", x) for x in ks], [], []] if ks else []
    few = rng.choice([KEYNAMES, ["a", "q", "z"], ["a", "z", "s"]])
    for k in range(len(moves) if moves is not None else steps):
        o = case.obj[s]
        if o.isWin() or o.isLose():
            if moves is not None or rng.random() < .4:
                break
            d = Screen(case, s0, zoom, frame, d, mode)     # the next game on the same display
            if not d.ok:
                return
            s, turn = s0, 0
            o = case.obj[s]
        if moves is not None:
            i, a = moves[k][0] - 1, moves[k][1]
        else:
            i = turn % n if rng.random() < .8 else rng.randrange(n)
            turn += 1
            q = list(o.getLegalActions(i))
            if not q:
                continue
            a = toward(rng, o, i, q, -1 if calm and i > 0 else 1) if rng.random() < .6 else rng.choice(q)
            if eat and i == 0:
                x, y = o.getPacmanPosition()
                good = [v for v in q for dx, dy in [STEP[v]] if (x + dx, y + dy) in o.getCapsules() or o.hasFood(x + dx, y + dy)]
                a = rng.choice(good or [v for v in q if v != "Stop"] or q)
        if i == 0 and d.frame < 0 and script:
            faketk.QUEUE.extend(script.pop(0))
        elif i == 0 and d.frame < 0:
            faketk.QUEUE.extend(some_events(rng, rng.choice([0, 1, 2, 3]), few) + ([("press", "z")] if rng.random() < .6 else []))
        elif rng.random() < .2:
            faketk.QUEUE.extend(some_events(rng, 2))
        s = case.succ(s, i, a, r=next(r for r in regs if r != s))
        dist = []
        if radar and s and n > 1 and rng.random() < .3:
            dist = ["%d" % rng.randint(1, 30) for _ in range(rng.choice([n - 1, rng.randint(1, n - 1)]) if d.noted else n - 1)]
            d.noted = True
        if not s or not d.move(s, i, dist):
            break
        if rng.random() < .06:
            cs = [(x, y) for x in range(len(rows[0])) for y in range(len(rows))]
            d.cells(rng.sample(cs, rng.randint(0, min(6, len(cs)))))
    if rng.random() < .5:
        d.close()


def feast_case(cx, case):
    """many capsules and much food on a wide board: Pacman eats"""
    rng = cx.rng
    rows = rand_rows(rng, w=rng.randint(7, 12), h=rng.randint(3, 6), ghosts=rng.choice([0, 1, 1, 2]), dens=rng.choice([0, .1]), food=.3, caps=.4)
    screen_play(cx, case, rows, steps=36, eat=True)


def belief_case(cx, case):
    rng = cx.rng
    faketk.fresh()
    b = case.board(rand_rows(rng, w=rng.randint(4, 6), h=rng.randint(3, 5), ghosts=rng.randint(1, 4)))
    if case.obj[b] is None:
        return
    s = case.start(b)
    if not s:
        return
    d = Screen(case, s, rng.choice([1.0, .5, 2.0]), 0)
    if not d.ok:
        return
    n = case.obj[s].getNumAgents() - 1
    for _ in range(2):
        d.belief(rng, b, n)


def again_case(cx, case):
    """game after game on one display, with overlays in between"""
    rng = cx.rng
    faketk.fresh()
    zoom, d = rng.choice([1.0, .5]), None
    for _ in range(rng.randint(2, 3)):
        b = case.board(rand_rows(rng, w=rng.randint(4, 7), h=rng.randint(3, 5), ghosts=rng.randint(0, 2)))
        s = case.start(b) if case.obj[b] is not None else None
        if not s:
            return
        d = Screen(case, s, zoom, 0, d)
        if not d.ok:
            return
        L = case.obj[b]
        cs = [(x, y) for x in range(L.width) for y in range(L.height)]
        for _ in range(rng.randint(1, 2)):
            d.cells(rng.sample(cs, rng.randint(0, min(8, len(cs)))))
            q = list(case.obj[s].getLegalActions(0))
            if not q or case.obj[s].isWin() or case.obj[s].isLose():
                break
            s = case.succ(s, 0, rng.choice(q))
            if not s or not d.move(s, 0):
                return


@driver("C34")
def c34(cx):
    for _ in range(cx.n(5, 60)):
        yield cx.run("again", again_case)
    ps = [p for p in cx.plans.get("MC_Pacman", []) if p["h"]]
    for pl in some(cx, ps, 30, 700):
        yield cx.run("plan", screen_play, pl["b"], pl["h"])
    for _ in range(cx.n(22, 300)):
        yield cx.run("screen", screen_play)
    for _ in range(cx.n(12, 120)):
        yield cx.run("feast", feast_case)
    for _ in range(cx.n(6, 40)):
        yield cx.run("belief", belief_case)


# ============================================================================= C35: the keyboard and the mouse
class Keyboard:
    def __init__(self, case):
        self.case = case
        faketk.fresh()
        ok, x, w = waiting(case, lambda: graphicsUtils.begin_graphics(200, 200, title="t"))
        for _ in range(4):      # clicks left over from an earlier window
            if waiting(case, graphicsUtils.wait_for_click)[2]:
                break
        self.r = case.new("k", self)
        case.emit("k_open", ok, k=self.r)

    def do(self, op, f, **kw):
        case = self.case
        q = shapes(faketk.QUEUE)
        n0 = len(faketk.DONE)
        ok, x, w = waiting(case, f)
        case.emit(op, ok, k=self.r, queue=q, n=len(faketk.DONE) - n0, waits=w, err="" if ok else repr(x)[:200], **kw)
        return ok, x, w

    def pressed(self):
        ok, x, w = self.do("k_pressed", lambda: [str(k) for k in graphicsUtils.keys_pressed()])
        self.case.ev[-1]["res"] = x if ok else []

    def fresh(self):
        ok, x, w = self.do("k_fresh", lambda: [str(k) for k in graphicsUtils.keys_waiting()])
        self.case.ev[-1]["res"] = x if ok else []

    def wait(self):
        ok, x, w = self.do("k_wait", lambda: [str(k) for k in graphicsUtils.wait_for_keys()])
        self.case.ev[-1]["res"] = x if ok else []

    def click(self):
        ok, x, w = self.do("k_click", graphicsUtils.wait_for_click)
        self.case.ev[-1].update(at=[num(v) for v in x[0]] if ok else [], b=str(x[1]) if ok else "left")

    def idle(self):
        n0 = len(faketk.DONE)
        ok, x, w = waiting(self.case, lambda: graphicsUtils.sleep(.05))
        self.case.emit("k_idle", ok, k=self.r, evs=shapes(faketk.DONE[n0:]))

    def choose(self, s, ag, w, mp):
        ok, x, _ = self.do("k_choose", lambda: str(ag.getAction(self.case.obj[s])), s=s, i=num(ag.index) + 1, w=w, map=[[k, v] for k, v in mp.items()])
        self.case.ev[-1]["a"] = x if ok else "?"
        return x if ok else None


def keys_session(cx, case, events=None):
    rng = cx.rng
    k = Keyboard(case)
    plan = list(events or [])
    for _ in range(rng.randint(6, 25) if events is None else len(plan)):
        if events is not None:
            v = plan.pop(0)
            if v[0] == "read":
                getattr(k, v[1])()
            else:
                faketk.QUEUE.append(tuple(v) if v[0] != "focus" else ("focus", rng.choice(["<FocusIn>", "<FocusOut>"])))
            continue
        faketk.QUEUE.extend(some_events(rng, rng.choice([0, 1, 1, 2, 3, 5]), clicks=rng.random() < .5))
        what = rng.choice(["pressed", "pressed", "fresh", "fresh", "wait", "idle", "click"])
        getattr(k, what)()


def keys_game(cx, case):
    """keyboard agents at a real keyboard, in a game"""
    rng = cx.rng
    rows = rand_rows(rng, ghosts=rng.randint(0, 2), dens=rng.choice([0, .15, .3, .5]))
    b = case.board(rows)
    if case.obj[b] is None:
        return
    s = case.start(b)
    if not s:
        return
    k = Keyboard(case)
    random.seed(rng.randrange(10 ** 6))
    two = rng.random() < .3
    ags = [(keyboardAgents.KeyboardAgent(), 1, ARROWS)] + ([(keyboardAgents.KeyboardAgent2(), 2, SECOND)] if two else [])
    names = [x for m in ([ARROWS, SECOND] if two else [ARROWS]) for v in m.values() for x in v] + ["z", "space"]
    n = case.obj[s].getNumAgents()
    regs = ["t1", "t2"]
    for j in range(40):
        o = case.obj[s]
        if o.isWin() or o.isLose():
            return
        i = j % n
        if i == 0:
            faketk.QUEUE.extend(some_events(rng, rng.choice([0, 0, 1, 1, 2, 3]), names))
            if rng.random() < .15:
                k.idle()
            ag, w, mp = rng.choice(ags)
            a = k.choose(s, ag, w, mp)
            if a is None:
                return
        else:
            q = list(o.getLegalActions(i))
            if not q:
                continue
            a = rng.choice(q)
        s = case.succ(s, i, a, r=next(r for r in regs if r != s))
        if not s:
            return


@driver("C35")
def c35(cx):
    for pl in some(cx, cx.plans.get("MC_Keys", []), 260, 4000):
        yield cx.run("plan", keys_session, pl)
    for _ in range(cx.n(60, 700)):
        yield cx.run("keys", keys_session)
    for _ in range(cx.n(20, 250)):
        yield cx.run("game", keys_game)


# ============================================================================= C36: the command line
OWN = '''
from game import Agent
import random


class %(a)s(Agent):
    """records what it was given; plays at random"""
    def __init__(self, index=0, **given):
        self.index, self.given = index, given

    def getAction(self, state):
        return random.choice(state.getLegalActions(self.index))


class %(b)s(%(a)s):
    pass


class %(c)s(Agent):
    pass
'''
FORMS = {"games": ["-n", "--numGames", "--numGa"], "layout": ["-l", "--layout", "--lay"], "pacman": ["-p", "--pacman", "--pac"],
         "ghosts": ["-g", "--ghosts", "--gho"], "numghosts": ["-k", "--numghosts", "--numgh"], "zoom": ["-z", "--zoom", "--z"],
         "seed": ["-f", "--fixRandomSeed", "--fix"], "record": ["-r", "--recordActions", "--rec"], "agentargs": ["-a", "--agentArgs", "--agent"],
         "training": ["-x", "--numTraining", "--numT"], "frame": ["--frameTime", "--frame"], "catch": ["-c", "--catchExceptions", "--catch"],
         "timeout": ["--timeout", "--time"]}
FLAGS = {"seed", "record", "catch"}


class Place:
    """a directory to start games from: layouts, agents"""
    made = 0

    def __init__(self, cx, fixed=False):
        rng = random.Random("fixed") if fixed else cx.rng
        Place.made += 1
        tag = "F" if fixed else "%d" % (Place.made)
        self.home = os.path.join(START, "place%s" % tag)
        self.cwd = os.path.join(self.home, *["deep", "er", "est"][:rng.choice([0, 1, 2, 3])])
        self.agents_dir = os.path.join(self.home, "own")
        for d in (self.cwd, self.agents_dir, os.path.join(self.home, "layouts")):
            os.makedirs(d, exist_ok=True)
        self.layouts = {}
        for name in ["mediumClassic", "small", "open.map", "x1"]:
            rows = rand_rows(rng, w=rng.randint(5, 7), h=rng.randint(3, 6), ghosts=rng.randint(1 if name in ("small", "x1") else 0, 4), dens=0)     # games in which somebody can die come to an end
            with open(os.path.join(self.home, "layouts", name + ".lay"), "w") as h:
                h.write("\n".join(rows) + "\n")
            self.layouts[name] = self.layouts[name + ".lay"] = rows
        self.own = ["Own%s%s" % (tag, x) for x in "abc"]
        with open(os.path.join(self.agents_dir, "own%sAgents.py" % tag), "w") as h:
            h.write(OWN % dict(a=self.own[0], b=self.own[1], c=self.own[2]))
        for i in range(rng.choice([0, 0, 3, 8])):       # files beside it that are no agents of use
            with open(os.path.join(self.agents_dir, rng.choice(["%sx%dAgents.py", "z%s%dagents.py", "%s_%d_gents.py"]) % (tag, i)), "w") as h:
                h.write(rng.choice(["import no_such_module_%d\n" % i, "from own%sAgents import NotThere\n" % tag, "X = %d\n" % i]))
        self.agents = ["KeyboardAgent", "KeyboardAgent2", "RandomGhost", "DirectionalGhost"] + self.own

    def enter(self):
        os.chdir(self.cwd)
        os.environ["PYTHONPATH"] = os.pathsep.join([os.path.join(self.home, "nowhere"), DEMO, self.agents_dir])
        if self.agents_dir not in sys.path:
            sys.path.append(self.agents_dir)


START = os.getcwd()


def argv_of(rng, opts):
    out = []
    for name, v in opts:
        if name in ("junk", "bad"):
            out += v
            continue
        f = rng.choice(FORMS[name])
        if name in FLAGS:
            out.append(f)
            continue
        t = {"zoom": lambda: "%g" % (v / 100), "frame": lambda: "%g" % (v / 100),
             "agentargs": lambda: ",".join(k if x == "1" and rng.random() < .5 else "%s=%s" % (k, x) for k, x in v)}.get(name, lambda: str(v))()
        how = rng.random()
        if f.startswith("--") and how < .5:
            out.append(f + "=" + t)
        elif not f.startswith("--") and how < .3:
            out.append(f + t)
        else:
            out += [f, t]
    return out


def random_opts(rng, pl):
    pac = rng.choice(["KeyboardAgent", "KeyboardAgent2"] + pl.own[:2] * 2)
    takes = pac in pl.own[:2]
    pool = ["games", "layout", "layout", "ghosts", "numghosts", "zoom", "seed", "record", "frame", "catch", "timeout"] + (["training", "agentargs", "agentargs"] if takes else [])
    opts = [["pacman", pac]] if pac != "KeyboardAgent" or rng.random() < .3 else []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        n = rng.choice(pool)
        v = {"games": lambda: rng.choice([0, 1, 2, 3, 7, 12]), "layout": lambda: rng.choice(sorted(pl.layouts)),
             "ghosts": lambda: rng.choice(["RandomGhost", "DirectionalGhost"] + pl.own), "numghosts": lambda: rng.choice([0, 1, 2, 3, 4, 5, 9]),
             "zoom": lambda: rng.choice([50, 100, 125, 200, 75]), "frame": lambda: rng.choice([0, 5, 10, -100, 150]),
             "timeout": lambda: rng.choice([1, 5, 30, 100]), "training": lambda: rng.choice([0, 0, 1, 5]),
             "agentargs": lambda: [[k, rng.choice(["1", "2", "on", "0.5", "x"])] for k in rng.choices(["alpha", "b", "numTraining", "depth"], k=rng.randint(1, 3))]
             }.get(n, lambda: True)()
        opts.append([n, v])
    k = rng.random()
    if k < .06:
        opts.append(["layout", rng.choice(["nosuch", "Small", "small.la", "mediumclassic"])])
    elif k < .12:
        opts.append(rng.choice([["pacman", "NoSuchAgent"], ["ghosts", "RandomGhosts"], ["ghosts", "randomGhost"]]))
    elif k < .18:
        opts.append(rng.choice([["junk", ["extra"]], ["junk", ["--nosuch"]], ["bad", ["-n", "two"]], ["bad", ["--zoom", "big"]], ["bad", ["-k"]], ["bad", ["--num", "2"]]]))
    if rng.random() < .5:
        rng.shuffle(opts)
        if ["bad", ["-k"]] in opts:
            opts.remove(["bad", ["-k"]])
            opts.append(["bad", ["-k"]])
    return opts


def read_command(cx, case, pl, opts, direct=None):
    rng = cx.rng
    pl.enter()
    argv = argv_of(rng, opts)
    random.seed(rng.randrange(10 ** 6))
    before = random.getstate()

    def f():
        args = direct() if direct else pacman.readCommand(list(argv))
        same = random.getstate() == before
        draw = "%r" % random.random()
        b, d, p = args["layout"], args["display"], args["pacman"]
        given = getattr(p, "given", None)
        return dict(layout=str(b).split("\n"), pacman=type(p).__name__, ghosts=[[type(g).__name__, num(g.index)] for g in args["ghosts"]],
                    games=num(args["numGames"]), zoom=num(round(d.zoom * 100)), frame=num(round(d.frameTime * 100)), record=bool(args["record"]),
                    catch=bool(args["catchExceptions"]), timeout=num(args["timeout"]), training=num(args.get("numTraining", 0)),
                    takes=given is not None, args=[[k, str(v)] for k, v in (given or {}).items()]), draw, not same
    err = sys.stderr
    sys.stderr = io.StringIO()
    try:
        ok, x, w = waiting(case, f)
    finally:
        sys.stderr = err
    here = os.getcwd() == pl.cwd
    os.chdir(START)
    case.emit("cmd", ok, opts=opts, argv=argv, layouts=[[k, v] for k, v in sorted(pl.layouts.items())], agents=pl.agents,
              res=x[0] if ok else {}, draw=x[1] if ok else "", reseeded=x[2] if ok else False, kept=here, err="" if ok else repr(x)[:200])


def commands(cx, case, pl, lists):
    for opts in lists:
        read_command(cx, case, pl, opts)


def demo_defaults(cx, case, pl):
    """demo.py: the default game with two ghosts"""
    import demo
    read_command(cx, case, pl, [["numghosts", 2]], lambda: demo._build_configuration())


def play_command(case, pl, argv):
    faketk.fresh()
    pl.enter()

    def f():
        games = pacman.runGames(**pacman.readCommand(list(argv)))
        return json.dumps([[g.moveHistory, num(g.state.getScore()), bool(g.state.isWin())] for g in games])
    ok, x, w = waiting(case, f, 40)
    for f in os.listdir("."):
        if f.startswith("recorded-game"):
            os.unlink(f)
    os.chdir(START)
    return x if ok else "failed " + repr(x)[:200]


def same_run(cx, case, pl, label=None, rng=None):
    """a seeded command played twice"""
    rng = rng or cx.rng
    argv = ["-p", pl.own[0], "-f", "--frameTime", "0", "-g", rng.choice(["RandomGhost", "DirectionalGhost"]), "-l", rng.choice(["small", "x1"]),
            "-n", str(rng.randint(1, 2)), "-k", str(rng.randint(1, 3))]
    a = play_command(case, pl, argv)
    random.seed(cx.rng.random())
    random.random()
    b = play_command(case, pl, argv)
    case.emit("runs", not a.startswith("failed"), argv=argv, a=a, b=b)


@driver("C36")
def c36(cx):
    pl = Place(cx)
    yield cx.run("defaults", commands, pl, [[]])
    yield cx.run("demo", demo_defaults, pl)
    for p in some(cx, cx.plans.get("MC_Commands", []), 40, 400):
        fill = {"L1": "small", "L2": "x1.lay", "P1": pl.own[0], "P2": pl.own[1], "G1": "DirectionalGhost", "G2": "RandomGhost"}
        yield cx.run("plan", commands, pl, [[["pacman", pl.own[0]]] + [[n, fill.get(v, v) if isinstance(v, str) else v] for n, v in p]])
    for _ in range(cx.n(14, 160)):
        if cx.rng.random() < .3:
            pl = Place(cx)
        yield cx.run("command", commands, pl, [random_opts(cx.rng, pl) for _ in range(5)])
    for _ in range(cx.n(1, 8)):
        yield cx.run("runs", same_run, pl)
    yield cx.run("everywhere", same_run, Place(cx, True), None, random.Random("everywhere"))


# ============================================================================= C41: the drawing calls
OPTNAME = {"fill": "fillColor", "ends": "endpoints"}
KINDS = {"text": 0, "image": 0}


def plain_items(cv, names):
    """the items of a canvas, the lowest first, numbers in eighths"""
    out = []
    for i, t in cv.items.items():
        k = t["kind"]
        f = t.get("font", "")
        arc = k == "arc"
        out.append(dict(h=names.get(i, "bg" if not out or "bg" not in [o["h"] for o in out] else "?"), k=k, pts=[near(8 * v, .01) for v in t["xy"]],
                        fill=str(t.get("fill", "")), outline=str(t.get("outline", "")), width=near(float(t.get("width", KINDS.get(k, 1))), .001),
                        smooth=bool(t.get("smooth", False)), start=near(8 * float(t.get("start", 0)), .01) if arc else 0,
                        extent=near(8 * float(t.get("extent", 90)), .01) if arc else 0, style=str(t.get("style", "pieslice")) if arc else "",
                        text=str(t.get("text", "")), font=" ".join(map(str, f)) if isinstance(f, (list, tuple)) else str(f),
                        anchor=str(t.get("anchor", "")), file=str((t.get("image") or ("", ""))[1])))
    return out


class Easel:
    def __init__(self, cx, case):
        self.rng, self.case, self.ids, self.r = cx.rng, case, {}, None

    def n(self, v):
        return v // 8 if v % 8 == 0 and self.rng.random() < .7 else v / 8

    def pt(self, p):
        q = [self.n(v) for v in p]
        return tuple(q) if self.rng.random() < .7 else q

    def options(self, e, deg=True):
        out = {}
        for k, v in e["opts"]:
            if k == "behind":
                v = self.ids[v]
            elif k == "ends":
                v = [self.n(x) for x in v]
                self.given.append((v, list(v)))
                v = tuple(v) if self.rng.random() < .4 else v
            elif k in ("start", "extent"):
                v = self.n(v)
            elif isinstance(v, bool) and self.rng.random() < .5:
                v = int(v)
            out[OPTNAME.get(k, k) if e["op"] != "c_edit" else k] = v
        return out

    def call(self, e):
        u, o = graphicsUtils, self.options(e)
        op = e["op"]
        if op == "c_begin":
            u.begin_graphics(**o)
        elif op == "c_new":
            at = [self.pt(p) for p in e["at"]]
            self.given.append((at, list(at)))
            k = e["k"]
            if k == "polygon":
                i = u.polygon(at, e["color"], **o)
            elif k == "square":
                i = u.square(at[0], self.n(e["rad"]), e["color"], **o)
            elif k == "circle":
                i = u.circle(at[0], self.n(e["rad"]), e["color"], **o)
            elif k == "line":
                i = u.line(at[0], at[1], **o)
            elif k == "text":
                i = u.text(at[0], e["color"], e["text"], **o)
            else:
                i = u.image(at[0], e["file"])
            self.ids[e["h"]] = i
        elif op in ("c_to", "c_by"):
            f = u.move_to if op == "c_to" else u.move_by
            i, p = self.ids[e["h"]], (self.n(e["x"]), self.n(e["y"]))
            f(i, *([p] if self.rng.random() < .4 else p), **o)
        elif op == "c_turn":
            u.moveCircle(self.ids[e["h"]], self.pt((e["x"], e["y"])), self.n(e["rad"]), **o)
        elif op == "c_edit":
            u.edit(self.ids[e["h"]], *o.items())
        elif op == "c_color":
            u.changeColor(self.ids[e["h"]], e["color"])
        elif op == "c_text":
            u.changeText(self.ids[e["h"]], e["text"], **o)
        elif op == "c_remove":
            u.remove_from_screen(self.ids[e["h"]])
        elif op == "c_clear":
            u.clear_screen()
        elif op == "c_print":
            u.writePostscript("printed.ps")
            with open("printed.ps") as h:
                e["printed"] = h.read() == self.cv().postscript(pageanchor="sw", y="0.c", x="0.c")
            os.unlink("printed.ps")
        elif op == "c_end":
            u.end_graphics()

    def cv(self):
        return faketk.CANVASES[-1]

    def do(self, e):
        e = dict(e)
        self.given = []
        if e["op"] == "c_begin":
            self.ids = {}
            self.r = self.case.new("cv", self)
        ok, x, w = waiting(self.case, lambda: self.call(e))
        ok2, q = self.case.call(lambda: plain_items(self.cv(), {i: h for h, i in self.ids.items()}))
        live = [t for t in faketk.WINDOWS if t.alive]
        e.update(r=self.r, items=q if ok2 else [], kept=all(a == b for a, b in self.given), windows=len(live), size=[num(v) for v in self.cv().size] if faketk.CANVASES else [],
                 name=live[-1].name if live else "", err="" if ok else repr(x)[:200])
        op = e.pop("op")
        self.case.emit(op, ok, **e)
        return ok


def random_colour(rng):
    return "#%02x%02x%02x" % tuple(rng.randrange(256) for _ in range(3))


def random_ends(rng):
    return [8 * rng.choice([rng.randint(-360, 720), 0, 90, 345]) + rng.choice([0, 0, 4]), 8 * rng.choice([rng.randint(-400, 720), 15, 270, 0])]


def random_new(rng, h, old):
    k = rng.choice(["polygon", "polygon", "square", "circle", "circle", "line", "text", "image"])
    p = lambda: [rng.randint(-200, 4000), rng.randint(-200, 3000)]
    c = random_colour(rng)
    e = dict(op="c_new", k=k, h=h, opts=[])
    maybe = lambda name, v, q=.4: e["opts"].append([name, v]) if rng.random() < q else None
    if k == "polygon":
        e.update(at=[p() for _ in range(rng.randint(1, 6))], color=c)
        maybe("fill", random_colour(rng))
        maybe("filled", rng.random() < .5)
        maybe("smoothed", rng.random() < .5)
        maybe("width", rng.randint(0, 5))
    elif k == "square":
        e.update(at=[p()], rad=rng.randint(1, 300), color=c)
        maybe("filled", rng.random() < .5)
    elif k == "circle":
        e.update(at=[p()], rad=rng.randint(0, 300), color=c)
        maybe("fill", random_colour(rng))
        maybe("ends", random_ends(rng), .6)
        maybe("style", rng.choice(["arc", "chord", "pieslice"]))
        maybe("width", rng.randint(0, 5))
    elif k == "line":
        e.update(at=[p(), p()])
        maybe("color", c)
        maybe("width", rng.randint(0, 5))
    elif k == "text":
        e.update(at=[p()], color=c, text=rng.choice(["SCORE:    0", "", "a b", "x"]))
        maybe("font", rng.choice(["Times", "Helvetica"]))
        maybe("size", rng.randint(6, 40))
        maybe("style", rng.choice(["bold", "normal"]))
        maybe("anchor", rng.choice(["nw", "center", "s"]))
    else:
        e.update(at=[p()], file=rng.choice(["ghost.gif", "a/b.gif"]))
    if k in ("polygon", "square") and old:
        maybe("behind", rng.choice(old), .35)
    return e


def easel_plan(cx, case, events):
    faketk.fresh()
    z = Easel(cx, case)
    if z.do(dict(op="c_begin", opts=[["width", 40], ["height", 30]])):
        for e in events:
            if not z.do(e):
                break


def easel_session(cx, case):
    rng = cx.rng
    faketk.fresh()
    z = Easel(cx, case)
    kinds, made = {}, 0
    n = rng.randint(8, 25)
    for j in range(n):
        if j == 0 or rng.random() < .02:
            e = dict(op="c_begin", opts=[o for o in (["width", rng.randint(20, 900)], ["height", rng.randint(20, 700)], ["color", random_colour(rng)],
                                                    ["title", rng.choice(["T", "pac man"])]) if rng.random() < .7])
            kinds = {}
        elif len(kinds) < 2 or rng.random() < .35:
            made += 1
            e = random_new(rng, "i%d" % made, list(kinds))
            kinds[e["h"]] = e["k"]
        else:
            h = rng.choice(list(kinds))
            k = kinds[h]
            x, y = rng.randint(-200, 4000), rng.randint(-200, 3000)
            op = rng.choice(["c_to", "c_by", "c_by", "c_edit", "c_color", "c_remove", "c_to", "c_by"] + ["c_turn"] * (3 if k == "circle" else 0) + ["c_text"] * (3 if k == "text" else 0)
                            + (["c_clear"] if rng.random() < .2 else []) + (["c_print"] if rng.random() < .3 else []))
            e = dict(op=op, opts=[])
            if op not in ("c_clear", "c_print"):
                e["h"] = h
            if op in ("c_to", "c_by"):
                e.update(x=x if op == "c_to" else rng.randint(-80, 80), y=y if op == "c_to" else rng.randint(-80, 80))
                if op == "c_by" and rng.random() < .4:
                    e["opts"].append(["lift", rng.random() < .7])
                    if rng.random() < .3:
                        e.update(x=0, y=0)
            elif op == "c_turn":
                e.update(x=x, y=y, rad=rng.randint(0, 300))
                if rng.random() < .7:
                    e["opts"].append(["ends", random_ends(rng)])
            elif op == "c_edit":
                if k == "image":
                    continue
                pool = {"circle": ["fill", "outline", "width", "start", "extent", "style"], "line": ["fill", "width"], "text": ["fill", "text"]}.get(k, ["fill", "outline", "width"])
                for f in rng.sample(pool, rng.randint(1, len(pool))):
                    e["opts"].append([f, {"width": lambda: rng.randint(0, 6), "start": lambda: 8 * rng.randint(0, 359), "extent": lambda: 8 * rng.randint(0, 359),
                                          "style": lambda: rng.choice(["arc", "chord"]), "text": lambda: rng.choice(["new", ""])}.get(f, lambda: random_colour(rng))()])
            elif op == "c_color":
                if k == "image":
                    continue
                e.update(color=random_colour(rng))
            elif op == "c_text":
                e.update(text=rng.choice(["SCORE: -10", "", "no"]))
                for f, v in (["font", rng.choice(["Times", "Courier"])], ["size", rng.randint(6, 40)], ["style", "bold"]):
                    if rng.random() < .5:
                        e["opts"].append([f, v])
            elif op == "c_remove":
                del kinds[h]
            elif op == "c_clear":
                kinds = {}
        if not z.do(e):
            return
    if rng.random() < .5:
        z.do(dict(op="c_end", opts=[]))


def colour_case(cx, case):
    rng = cx.rng
    for _ in range(12):
        v = [rng.choice([0, 1, 2, 255, 256, rng.randrange(257), rng.randrange(257)]) for _ in range(3)]
        ok, x = case.call(lambda: str(graphicsUtils.formatColor(*[k / 256 for k in v])))
        case.emit("hue", ok, v=v, res=x if ok else "")
        v = [rng.randrange(256) for _ in range(3)]
        t = "#%02x%02x%02x" % tuple(v)
        ok, x = case.call(lambda: [near(256 * k, 1e-6) for k in graphicsUtils.colorToVector(t)])
        case.emit("rgb", ok, v=v, text=t, res=x if ok else [])


@driver("C41")
def c41(cx):
    for pl in some(cx, cx.plans.get("MC_Canvas", []), 200, 4000):
        yield cx.run("plan", easel_plan, pl)
    for _ in range(cx.n(60, 900)):
        yield cx.run("easel", easel_session)
    for _ in range(cx.n(4, 40)):
        yield cx.run("colour", colour_case)


if __name__ == "__main__":
    sys.exit(drv_demo.main())
